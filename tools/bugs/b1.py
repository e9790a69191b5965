U = "PyFHD/pyfhd_tools/pyfhd_utils.py"
BUGS = [
dict(id="P02-rebin-rowshift", prop="P02", file=U,
 edits=[("""                rebinned = a[:: old_shape[0] // shape[0], :]
""", """                rebinned = a[old_shape[0] // shape[0] - 1 :: old_shape[0] // shape[0], :]
""")],
 demo='''
import numpy as np
from PyFHD.pyfhd_tools.pyfhd_utils import rebin
a = np.arange(24.).reshape(6, 4)
assert np.array_equal(rebin(a, (3, 4), sample=True), a[::2]), rebin(a, (3, 4), sample=True)
''', needs="sample mode with fewer rows than the original", breaks="picks the last instead of the first sample of each block"),
dict(id="P03-winv-threshold", prop="P03", file=U,
 edits=[("i_use = np.where(weights_use >= threshold)", "i_use = np.where(weights_use > threshold)")],
 demo='''
import numpy as np
from PyFHD.pyfhd_tools.pyfhd_utils import weight_invert
assert np.array_equal(weight_invert(np.array([0.5, 1.0, 2.0]), threshold=1), [0, 1, 0.5])
''', needs="a weight exactly equal to the threshold", breaks="weights equal to the threshold are inverted to 0 instead of 1/w"),
dict(id="P05-match-second", prop="P05", file=U,
 edits=[("            ind_arr[ri2[ri2[i] : ri2[i + 1]]] = 1", "            ind_arr[ri2[ri2[i] : ri2[i + 1] - (hist1[i] > 1)]] = 1")],
 demo='''
import numpy as np
from PyFHD.pyfhd_tools.pyfhd_utils import array_match
got = array_match(np.array([1, 1, 2, 3]), np.array([1]), np.array([2, 3, 1, 1]))
assert np.array_equal(got, [0, 1, 2, 3]), got
''', needs="a match value held at least twice by the first array and also by the second", breaks="the last position of the second array holding the value is dropped"),
dict(id="P01-ri-tail", prop="P01", file=U,
 edits=[("    ri = ri[: ri.size - counter]\n", "    if counter > 1:\n        ri = ri[: ri.size - counter]\n")],
 demo='''
import numpy as np
from PyFHD.pyfhd_tools.pyfhd_utils import histogram
h, b, ri = histogram(np.array([1, 2, 3, 9]), min=1, max=3)
assert ri.size == ri[h.size], (ri, h)
''', needs="exactly one element outside min/max", breaks="the reverse indices keep a spurious trailing entry"),
dict(id="P04-grow-label0", prop="P04", file=U,
 edits=[("""PLACEHOLDER""", "")], demo="", needs="", breaks="")][:4]
