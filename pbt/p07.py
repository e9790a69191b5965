"""P07: what is saved to HDF5 is what is loaded back; IDL structures become plain dictionaries."""
import copy
import h5py
from pathlib import Path
from core import *
import idlsav
from PyFHD.io.pyfhd_io import convert_sav_to_dict, load, recarray_to_dict, save

DT = ["float64", "float32", "int64", "int32", "int16", "int8", "uint8", "complex128", "complex64", "bool", ">i2", ">f8"]
text = st.text(alphabet=st.sampled_from(list("abcXYZ 019_-./:é☃")), max_size=8)
word = st.text(alphabet=st.sampled_from(list("abcXYZ019_-")), min_size=1, max_size=6)
num = st.sampled_from([0, 1, -1, 7, 2**40, -(2**53) - 1]) | st.integers(-1000, 1000)
flt = st.sampled_from([0.0, -0.5, 1e300, 5e-324]) | st.floats(-1e6, 1e6)
leaf = st.one_of(
    st.fixed_dictionaries(dict(t=st.just("str"), v=text)),
    st.fixed_dictionaries(dict(t=st.just("npstr"), v=word)),
    st.fixed_dictionaries(dict(t=st.just("path"), v=word)),
    st.fixed_dictionaries(dict(t=st.just("int"), v=num)),
    st.fixed_dictionaries(dict(t=st.just("float"), v=flt)),
    st.fixed_dictionaries(dict(t=st.just("npscalar"), dt=st.sampled_from(DT), seed=st.integers(0, 999))),
    st.fixed_dictionaries(dict(t=st.just("complex"), v=flt, w=flt)),
    st.fixed_dictionaries(dict(t=st.just("bool"), v=st.booleans())),
    st.just(dict(t="none")),
    st.fixed_dictionaries(dict(t=st.just("arr"), dt=st.sampled_from(DT), shape=st.lists(st.integers(0, 4), min_size=0, max_size=3), seed=st.integers(0, 999), special=st.booleans(), view=st.booleans())),
    st.fixed_dictionaries(dict(t=st.just("strarr"), v=st.lists(word, max_size=4), twod=st.booleans())),
    st.fixed_dictionaries(dict(t=st.just("ustrarr"), v=st.lists(st.sampled_from(["é", "☃☃", "ab", "XX"]), min_size=1, max_size=4))),
    st.fixed_dictionaries(dict(t=st.just("nonestr"), v=st.lists(st.none() | word, min_size=1, max_size=4))),
    st.fixed_dictionaries(dict(t=st.just("nonenum"), v=st.lists(st.none() | st.integers(-9, 9), min_size=1, max_size=5), cplx=st.booleans(), aslist=st.booleans())),
    st.fixed_dictionaries(dict(t=st.just("list"), k=st.sampled_from(["int", "float", "complex", "bool", "str", "tuple", "nested"]), v=st.lists(st.integers(-5, 5), max_size=5))),
    st.fixed_dictionaries(dict(t=st.just("ragged"), v=st.lists(st.lists(st.integers(-5, 5), max_size=4), min_size=2, max_size=4), f=st.booleans())),
    st.fixed_dictionaries(dict(t=st.just("ragged"), v=st.lists(st.lists(st.integers(-5, 5), max_size=4), min_size=3, max_size=5), f=st.integers(2, 999))),
    st.fixed_dictionaries(dict(t=st.just("struct"), v=st.lists(st.tuples(st.integers(-9, 9), st.sampled_from(["ab", "XY", "q"])), min_size=1, max_size=4))),
)
key = st.sampled_from(["obs", "freq", "tile_names", "a", "B", "x0", "n_vis", "é", "with space"]) | word.filter(lambda w: w != ".")
tree = st.recursive(leaf, lambda ch: st.fixed_dictionaries(dict(t=st.just("dict"), v=st.lists(st.tuples(key, ch), max_size=4, unique_by=lambda kv: kv[0]))), max_leaves=6)


def data(dt, shape, seed, special=False):
    r = rng(seed)
    dt = np.dtype(dt)
    if dt.kind == "b":
        return np.asarray(r.random(shape) < 0.5)
    if dt.kind == "c":
        a = (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(dt)
    elif dt.kind == "f":
        a = np.asarray(r.normal(size=shape) * 10.0 ** r.integers(-20, 20)).astype(dt)
    else:
        i = np.iinfo(dt)
        a = np.asarray(r.integers(i.min, i.max, size=shape, endpoint=True, dtype=dt.newbyteorder("="))).astype(dt)
    if special and dt.kind in "fc" and a.size:
        a = np.array(a)
        a.flat[int(r.integers(a.size))] = r.choice([np.nan, np.inf, -np.inf])
    return a


def build(n):
    """-> (value to save, expected value)"""
    t = n["t"]
    if t == "dict":
        pairs = [(k, build(v)) for k, v in n["v"]]
        return {k: p[0] for k, p in pairs}, {k: p[1] for k, p in pairs}
    if t == "str":
        return n["v"], n["v"]
    if t == "npstr":
        return np.str_(n["v"]), n["v"]
    if t == "path":
        return Path("/tmp", n["v"]), "/tmp/" + n["v"]
    if t == "none":
        return None, None
    if t == "int" or t == "float" or t == "bool":
        return n["v"], np.asarray(n["v"])
    if t == "complex":
        return complex(n["v"], n["w"]), np.asarray(complex(n["v"], n["w"]))
    if t == "npscalar":
        v = data(n["dt"], (1,), n["seed"])[0]
        return v, np.asarray(v)
    if t == "arr":
        a = data(n["dt"], tuple(n["shape"]), n["seed"], n["special"])
        if n["view"] and a.ndim >= 2:
            a = a.swapaxes(0, 1)[::-1]
        return a, np.array(a)
    if t == "strarr":
        a = np.array(n["v"], dtype=str)
        if n["twod"] and a.size:
            a = np.stack([a, a])
        return a, a.copy()
    if t == "ustrarr":
        return np.array(n["v"]), np.array(n["v"])
    if t == "nonestr":
        v = n["v"]
        if all(x is None for x in v):
            return np.array(v, dtype=object), np.full(len(v), np.nan)
        return np.array(v, dtype=object), np.array([x or "" for x in v])
    if t == "nonenum":
        v = [x if x is None or not n["cplx"] else complex(x, np.nan if int(x) % 4 == 2 else 1) for x in n["v"]]
        cx = n["cplx"] and any(x is not None for x in v)
        want = np.array([(complex(np.nan, np.nan) if cx else np.nan) if x is None else x for x in v], dtype=complex if cx else float)
        if all(x is not None for x in v) and n["aslist"]:
            want = np.array(v)
        return (list(v) if n["aslist"] else np.array(v, dtype=object)), want
    if t == "list":
        v, k = n["v"], n["k"]
        if k == "tuple":
            return tuple(v), np.array(v, dtype=float if not v else int)
        conv = dict(int=int, float=lambda x: x / 3, complex=lambda x: complex(x, 2), bool=lambda x: x > 0, str=str, nested=lambda x: [x, 2.5])[k]
        lst = [conv(x) for x in v]
        return lst, np.array(lst)
    if t == "ragged":
        lens = {len(x) for x in n["v"]}
        # each row whole numbers, halves or complex numbers: all alike (0, 1) or drawn row by row
        kinds = [int(n["f"])] * len(n["v"]) if n["f"] < 2 else rng(n["f"]).integers(0, 3, len(n["v"]))
        v = [np.array(x, dtype=int) if k == 0 else np.array(x, dtype=float) / 2 * (1 if k == 1 else 1 + 3j) for x, k in zip(n["v"], kinds)]
        if len(lens) == 1:
            return v, np.array(v)
        return v, ("ragged", v)
    if t == "struct":
        a = np.array([(i, s.encode()) for i, s in n["v"]], dtype=[("ant", "i4"), ("name", "S4")])
        return a, a.copy()
    raise HarnessError(t)


KIND = {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c", "U": "U", "V": "V"}


def compare(got, want, where, exact_type=False):
    if want is None:
        check(got is None, f"{where}: saved None, loaded {got!r}")
    elif isinstance(want, str):
        check(isinstance(got, str) and got == want, f"{where}: saved text {want!r}, loaded {got!r}")
    elif isinstance(want, dict):
        check(isinstance(got, dict), f"{where}: saved a dictionary, loaded {type(got).__name__}")
        check(set(got) == set(want), f"{where}: keys {sorted(got)} instead of {sorted(want)}")
        for k in want:
            compare(got[k], want[k], f"{where}/{k}")
    elif isinstance(want, tuple) and want[0] == "ragged":
        check(len(got) == len(want[1]), f"{where}: {len(got)} rows instead of {len(want[1])}")
        for i, w in enumerate(want[1]):
            equal(got[i], w, f"{where}[{i}]")
    else:
        g = np.asarray(got)
        same_shape(g, want, where)
        if want.dtype.kind == "V":
            check(np.array_equal(g, want), f"{where}: records {g} instead of {want}")
            return
        check(want.size == 0 or KIND.get(g.dtype.kind) == KIND[want.dtype.kind], f"{where}: loaded as {g.dtype}, saved as {want.dtype}")
        equal(g, want, where)
        check(g.dtype.kind != "c" or (np.array_equal(g.real, want.real, equal_nan=True) and np.array_equal(g.imag, want.imag, equal_nan=True)), f"{where}: real or imaginary parts differ")
        if want.ndim >= 1 and want.dtype.kind in "fiuc" and g.dtype.kind != "O":
            check(g.dtype in (np.int64, np.float64, np.complex128), f"{where}: arrays are stored in double precision, got {g.dtype}")


def f_round(c):
    val, want = build(dict(t="dict", v=c["v"]))
    logger = RecLogger() if c["log"] else None
    with scratch() as d:
        f = Path(d, "x.h5")
        if c["stale"]:
            save(f, {"old": np.arange(3), "other": "q"}, "old")
        call("save", save, f, val, "thing", logger=logger)
        got = call("load", load, f, logger=logger)
        if len(want) == 1:
            (k, w), = want.items()
            # a single dataset comes back as itself, a group as a dictionary
            compare(got if not isinstance(w, dict) else got.get(k) if isinstance(got, dict) else got, w, k)
        else:
            compare(got, want, "")
        h = call("lazy load", load, f, logger=logger, lazy_load=True)
        try:
            check(isinstance(h, h5py.File) and set(h) == set(want), "lazy load must give the open file")
            for k, w in want.items():
                if isinstance(w, np.ndarray) and w.dtype.kind in "ifc":
                    equal(h[k][()], w, f"lazily loaded {k}")
                elif isinstance(w, dict):
                    check(isinstance(h[k], h5py.Group), f"{k} must be a group")
        finally:
            h.close()
        if len(want) != 1:  # saving what was loaded changes nothing more
            if "ragged" not in json.dumps(c["v"]):  # arrays of arrays need their type named
                call("save again", save, f, got, "thing", logger=logger)
                again = call("load again", load, f)
                compare(again, want, "second generation")
    return len(want) > 1, [n["t"] for _, n in c["v"]]


def f_array(c):
    a = data(c["dt"], tuple(c["shape"]), c["seed"], True)
    keep = np.array(a)
    with scratch() as d:
        f = Path(d, "a.h5")
        kw = {}
        if c["chunk"] and a.size and a.ndim:
            kw["to_chunk"] = {"vis": {"shape": a.shape, "chunk": True if c["chunk"] == 1 else tuple(max(1, s // 2) for s in a.shape)}}
        call("save array", save, f, a, "vis", **kw)
        equal(a, keep, "save must leave its array alone")
        got = call("load array", load, f)
        compare(got, keep, "array")
        with h5py.File(f) as h:
            check(list(h) == ["vis"], "the dataset must carry the given name")
            if kw:
                check(h["vis"].chunks is not None and (c["chunk"] == 1 or h["vis"].chunks == kw["to_chunk"]["vis"]["chunk"]), f"requested chunking was dropped: {h['vis'].chunks}")
        call("save in group", save, f, {"deep": {"vis": a}, "n": 1}, "x", **kw)
        with h5py.File(f) as h:
            if kw and c["chunk"] == 2:
                check(h["deep/vis"].chunks == kw["to_chunk"]["vis"]["chunk"], f"requested chunking was dropped in a group: {h['deep/vis'].chunks}")
        compare(load(f), {"deep": {"vis": keep}, "n": np.asarray(1)}, "array in group")
    return a.size > 1


def f_vlen(c):
    r = rng(c["seed"])
    dt = np.dtype(c["dt"])
    rows = [data(dt, (n,), c["seed"] + i) for i, n in enumerate(c["lens"])]
    if c["mixed"]:
        # some of the rows of a narrower type than the one declared: they are to be stored as the wider one
        rows = [np.round(x.real * 8 / (1 + abs(x.real))).astype([dt, np.float64, np.int64, np.int32, np.float32][int(r.integers(0, 5 if dt.kind != "i" else 1))]) for x in rows]
    arr = np.empty(len(rows), dtype=object)
    for i, x in enumerate(rows):
        arr[i] = x
    store = {"f": np.float64, "i": np.int64, "c": np.complex128}[dt.kind]
    with scratch() as d:
        f = Path(d, "v.h5")
        val = {"ija": list(rows) if c["aslist"] and len(set(c["lens"])) > 1 else arr, "other": "x", "deep": {"ija": arr.copy(), "n": 3}}
        call("save", save, f, val, "v", variable_lengths={"ija": h5py.vlen_dtype(store)})
        got = call("load", load, f)
        for g, nm in ((got["ija"], "ija"), (got["deep"]["ija"], "deep/ija")):
            check(len(g) == len(rows), f"{nm}: {len(g)} rows instead of {len(rows)}")
            for i in range(len(rows)):
                equal(g[i], rows[i], f"{nm}[{i}]")
        check(got["other"] == "x" and got["deep"]["n"] == 3, "the rest of the file")
    return len(set(c["lens"])) > 1


# ---- IDL save-file structures (as scipy.io.readsav delivers them)

idl = st.deferred(lambda: st.one_of(
    st.fixed_dictionaries(dict(t=st.just("num"), dt=st.sampled_from([">i2", ">f4", ">f8", ">i4"]), v=st.integers(-9, 9))),
    st.fixed_dictionaries(dict(t=st.just("str"), v=word)),
    st.fixed_dictionaries(dict(t=st.just("arr"), dt=st.sampled_from([">i2", ">f8", ">c8"]), shape=st.lists(st.integers(1, 4), min_size=1, max_size=2).filter(lambda s: np.prod(s) > 1), seed=st.integers(0, 99))),
    st.fixed_dictionaries(dict(t=st.just("strs"), v=st.lists(word, min_size=2, max_size=4))),
    st.fixed_dictionaries(dict(t=st.just("ptrs"), n=st.integers(2, 4), shape=st.lists(st.integers(2, 3), min_size=1, max_size=2), seed=st.integers(0, 99))),
    st.fixed_dictionaries(dict(t=st.just("nulls"), n=st.integers(2, 4))),
    st.fixed_dictionaries(dict(t=st.just("gaps"), n=st.integers(2, 5), null=st.integers(1, 30), shape=st.lists(st.integers(2, 3), min_size=1, max_size=2), dt=st.sampled_from(["f8", "c16"]), seed=st.integers(0, 99))),
    st.fixed_dictionaries(dict(t=st.just("raggedptrs"), lens=st.lists(st.integers(2, 4), min_size=2, max_size=3).filter(lambda v: len(set(v)) > 1))),
    st.fixed_dictionaries(dict(t=st.just("struct"), v=st.lists(st.tuples(st.sampled_from(["FREQ", "Tile_A", "N_POL", "X", "YY"]), idl), min_size=1, max_size=3, unique_by=lambda kv: kv[0].lower()))),
))


def idl_build(n):
    """-> (cell content inside a readsav record field, expected)"""
    t = n["t"]
    if t == "num":
        v = np.array([n["v"]], dtype=n["dt"])
        return v, np.asarray(float(n["v"]))
    if t == "str":
        a = np.empty(1, object)
        a[0] = n["v"].encode()
        return a, n["v"]
    if t == "arr":
        v = data(n["dt"], tuple(n["shape"]), n["seed"])
        a = np.empty(1, object)
        a[0] = v
        return a, np.array(v)
    if t == "strs":
        inner = np.empty(len(n["v"]), object)
        inner[:] = [(x + "  ").encode() for x in n["v"]]
        a = np.empty(1, object)
        a[0] = inner
        return a, ("list", list(n["v"]))
    if t in ("ptrs", "raggedptrs"):
        rows = [rng(n["seed"], i).normal(size=n["shape"]) for i in range(n["n"])] if t == "ptrs" else [np.arange(float(k)) for k in n["lens"]]
        inner = np.empty(len(rows), object)
        for i, x in enumerate(rows):
            inner[i] = x
        a = np.empty(1, object)
        a[0] = inner
        return a, (np.array(rows) if t == "ptrs" else ("rows", rows))
    if t == "gaps":  # pointers of which some are null
        rows = [None if n["null"] >> i & 1 else data(n["dt"], tuple(n["shape"]), n["seed"] + i) for i in range(n["n"])]
        inner = np.empty(len(rows), object)
        for i, x in enumerate(rows):
            inner[i] = x
        a = np.empty(1, object)
        a[0] = inner
        return a, (np.full(len(rows), np.nan) if all(x is None for x in rows) else ("rows", rows))
    if t == "nulls":
        inner = np.empty(n["n"], object)
        a = np.empty(1, object)
        a[0] = inner
        return a, np.full(n["n"], np.nan)
    if t == "struct":
        rec, want = idl_rec(n["v"])
        a = np.empty(1, object)
        a[0] = rec
        return a, want
    raise HarnessError(t)


def idl_rec(pairs):
    cols = [(k, *idl_build(v)) for k, v in pairs]
    rec = np.recarray((1,), dtype=[(k, a.dtype if a.dtype != object else "O") for k, a, _ in cols])
    for k, a, _ in cols:
        rec[k][0] = a[0]
    return rec, {k.lower(): w for k, _, w in cols}


def idl_compare(got, want, where):
    if isinstance(want, dict):
        check(isinstance(got, dict), f"{where}: structure became {type(got).__name__}")
        check(set(got) == set(want), f"{where}: fields {sorted(got)} instead of {sorted(want)}")
        for k in want:
            idl_compare(got[k], want[k], f"{where}/{k}")
    elif isinstance(want, str):
        check(got == want, f"{where}: {got!r} instead of {want!r}")
    elif isinstance(want, tuple) and want[0] == "list":
        check(list(got) == want[1], f"{where}: {got!r} instead of {want[1]!r}")
    elif isinstance(want, tuple):
        check(len(got) == len(want[1]), f"{where}: {len(got)} rows")
        for g, w in zip(got, want[1]):
            if w is None:
                check(np.all(np.isnan(g)), f"{where}: {g!r} for a null pointer")
            else:
                equal(g, w, where)
    else:
        equal(np.asarray(got), want, where)


def f_idl(c):
    rec, want = idl_rec(c["v"])
    if c["asdict"]:
        rec = {"obs": rec}
        want = {"obs": want}
    got = call("recarray_to_dict", recarray_to_dict, rec)
    idl_compare(got, want, "")
    return any(v["t"] == "struct" for _, v in c["v"]), [v["t"] for _, v in c["v"]]


def idl_value(n):
    """The same content as a value to write into an IDL save file, and the expected one."""
    t = n["t"]
    if t == "num":
        return np.dtype(n["dt"][1:]).type(n["v"]), np.asarray(float(n["v"]))
    if t == "str":
        return n["v"], n["v"]
    if t == "arr":
        v = data(n["dt"], tuple(n["shape"]), n["seed"])
        v = v.astype(v.dtype.newbyteorder("="))
        return (idlsav.Ptr(v) if n["seed"] % 2 else v), v
    if t == "strs":
        return np.array([x + "  " for x in n["v"]]), ("list", list(n["v"]))
    if t == "struct":
        v = [(k, *idl_value(x)) for k, x in n["v"]]
        return {k: a for k, a, _ in v}, {k.lower(): w for k, _, w in v}
    a, want = idl_build(n)
    if t == "nulls" or t == "gaps" and not isinstance(want, tuple):
        a[0] = np.array([None] * n["n"], object)
    return idlsav.Ptr(a[0]) if n.get("seed", 0) % 2 else a[0], want


def native(d, where):
    for k, v in d.items():
        if isinstance(v, dict):
            native(v, f"{where}/{k}")
        elif isinstance(v, np.ndarray):
            check(v.dtype.isnative, f"{where}/{k}: byte order {v.dtype.str}")


def f_idlfile(c):
    val, want = idl_value(dict(t="struct", v=c["v"]))
    with scratch() as d:
        p = os.path.join(d, "x.sav")
        idlsav.write(p, dict(obs=val, other=np.arange(4.0).reshape(2, 2)))
        raw = call("convert_sav_to_dict", convert_sav_to_dict, p, LOG, tmp_dir=os.path.join(d, "tmp"))
    check(set(raw) == {"obs", "other"}, f"variables {sorted(raw)}")
    equal(raw["other"], np.arange(4.0).reshape(2, 2), "plain variable")
    got = call("recarray_to_dict", recarray_to_dict, raw["obs"])
    idl_compare(got, want, "")
    native(got, "")
    return any(v["t"] == "struct" for _, v in c["v"]), [v["t"] for _, v in c["v"]]


SUBS = [
    Sub("dictionary_round_trip", st.fixed_dictionaries(dict(v=st.lists(st.tuples(key, tree), min_size=1, max_size=5, unique_by=lambda kv: kv[0]), log=st.booleans(), stale=st.booleans())),
        f_round, 700, 10000, rule="nested dictionaries of every supported value type; non-trivial: more than one key"),
    Sub("array_round_trip", st.fixed_dictionaries(dict(dt=st.sampled_from(DT), shape=st.lists(st.integers(0, 5), max_size=4), seed=st.integers(0, 9999), chunk=st.integers(0, 2))),
        f_array, 300, 4000, rule="arrays of every type, shape and chunking; non-trivial: >1 element"),
    Sub("variable_length", st.fixed_dictionaries(dict(dt=st.sampled_from(["float64", "int64", "int32", "complex128"]), lens=st.lists(st.integers(0, 5), min_size=1, max_size=5), aslist=st.booleans(), mixed=st.booleans(), seed=st.integers(0, 9999))),
        f_vlen, 200, 3000, rule="arrays of arrays of differing length; non-trivial: lengths differ"),
    Sub("idl_structures", st.fixed_dictionaries(dict(v=st.lists(st.tuples(st.sampled_from(["DIMENSION", "Kpix", "BASELINE_INFO", "A", "b"]), idl), min_size=1, max_size=4, unique_by=lambda kv: kv[0].lower()), asdict=st.booleans())),
        f_idl, 400, 5000, rule="nested record arrays as readsav returns them; non-trivial: contains a sub-structure"),
    Sub("idl_files", st.fixed_dictionaries(dict(v=st.lists(st.tuples(st.sampled_from(["DIMENSION", "Kpix", "BASELINE_INFO", "A", "b"]), idl), min_size=1, max_size=4, unique_by=lambda kv: kv[0].lower()))),
        f_idlfile, 250, 4000, rule="structures written in IDL's save format and read from the file; non-trivial: contains a sub-structure"),
]
SUBS.append(large(SUBS[1], 10, 100, shape=st.sampled_from([[70000], [300, 500], [3, 260, 90], [40, 2, 3000], [1, 1, 1, 90000]])))
