"""P04: region growing returns exactly the connected, thresholded regions touched by the seed pixels."""
from collections import deque
from core import *
from PyFHD.pyfhd_tools.pyfhd_utils import region_grow


def reference(img, seeds, low, high):
    shp = img.shape
    nan = np.isnan(img)
    z = np.where(nan, 0, img)
    roi = z.ravel()[seeds]
    low = roi.min() if low is None else low
    high = roi.max() if high is None else high
    ok = (z >= low) & (z <= high) & ~nan
    inner = np.zeros(shp, bool)
    inner[tuple(slice(1, -1) for _ in shp)] = True
    out = np.zeros(shp, bool)
    done = np.zeros(shp, bool)
    for s in np.atleast_1d(seeds):
        p = np.unravel_index(int(s), shp)
        if not ok[p] or not inner[p] or done[p]:
            continue
        q = deque([p])
        done[p] = True
        while q:  # connectivity may run along the border, but border pixels are never returned
            c = q.popleft()
            out[c] = True
            for ax in range(len(shp)):
                for d in (-1, 1):
                    n = list(c)
                    n[ax] += d
                    n = tuple(n)
                    if 0 <= n[ax] < shp[ax] and ok[n] and not done[n]:
                        done[n] = True
                        q.append(n)
    return np.nonzero((out & inner).ravel())[0]


def fn(c):
    r = rng(c["seed"])
    shp = tuple(c["shape"])
    img = r.integers(0, c["levels"], shp).astype(c["dtype"])
    if c["smooth"] and len(shp) == 2 and img.dtype.kind == "f":
        img = (img + np.roll(img, 1, 0) + np.roll(img, 1, 1)) / 3
    if c["nan"] and img.dtype.kind == "f":
        img.flat[r.integers(0, img.size, 2)] = np.nan
    seeds = np.array([s % img.size for s in c["seeds"]])
    seeds = np.append(seeds, seeds[:: c["again"]]) if c["again"] else np.unique(seeds)
    arg = int(seeds[0]) if c["scalar"] else (list(map(int, seeds)) if c["aslist"] else seeds)
    if c["scalar"]:
        seeds = seeds[:1]
    low, high = c["low"], c["high"]
    if high is not None and low is not None and high < low:
        low, high = high, low
    if c["nan"]:
        low = 0.5 if low is None else low
        high = float(c["levels"]) if high is None else high
    if c["around"]:
        k = [k for k in seeds if all(0 < q < n - 1 for q, n in zip(np.unravel_index(int(k), shp), shp)) and not np.isnan(img.flat[k])]
        if k:
            v = float(img.flat[k[0]])
            low, high = v - c["around"][0], v + c["around"][1]
    before = img.copy()
    got = call("region_grow", region_grow, img.copy(), arg, low=low, high=high)
    want = reference(before, seeds, low, high)
    if want.size == 0:
        check(got is None or np.size(got) == 0, f"nothing to grow from seeds {seeds.tolist()}, got {got}")
        return False, ["empty"]
    check(got is not None, f"expected {want.size} pixels, got None")
    got = np.asarray(got)
    check(np.unique(got).size == got.size, "grown region lists a pixel twice")
    equal(np.sort(got), want, f"grown region of shape {shp} from {seeds.tolist()} in [{low},{high}]")
    return want.size > 1, ["multi-seed"] if np.unique(seeds).size > 1 else ["repeated seed"] if seeds.size > 1 else ["one-seed"]


lv = st.none() | st.integers(0, 4) | st.floats(0, 4)
SUBS = [Sub("components", st.fixed_dictionaries(dict(
    shape=st.one_of(st.tuples(st.integers(3, 12), st.integers(3, 12)), st.tuples(st.integers(4, 40)), st.tuples(st.integers(1, 4), st.integers(1, 6))), again=st.sampled_from([0, 0, 1, 2]), seed=st.integers(0, 10**6),
    levels=st.integers(2, 5), dtype=st.sampled_from(["float64", "int64"]), smooth=st.booleans(), nan=st.sampled_from([False, False, True]),
    seeds=st.lists(st.integers(0, 10**4), min_size=1, max_size=5), scalar=st.booleans(), aslist=st.booleans(), low=lv, high=lv,
    around=st.one_of(st.none(), st.tuples(st.sampled_from([0.0, 1.0]), st.sampled_from([0.0, 1.0, 9.0])), st.tuples(st.floats(0, 2), st.floats(0, 2))))),
    fn, 2000, 30000, rule="random images, seeds and thresholds; non-trivial: the region holds more than one pixel")]
SUBS.append(large(SUBS[0], 12, 200, shape=st.tuples(st.integers(200, 330), st.integers(200, 330)), seeds=st.one_of(st.lists(st.integers(0, 10**6), min_size=2, max_size=40), st.integers(20, 90).map(lambda k: list(range(0, 40000, k)))), levels=st.sampled_from([2, 2, 3]), nan=st.just(False), around=st.sampled_from([(0.0, 0.0), (0.0, 1.0), (1.0, 0.0)])))
