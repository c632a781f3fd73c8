"""C26: the temperature follows the requested gradient over height."""
from checks.c25 import INSERTED, calibrate, case_s, layers, limits, usable
from pbt import machine as M
from pbt.harness import Sub, check

SC = M.SC
CENT = SC // 100


def wanted(case, low, top, h):
    """The exact values, in degrees, the gradient may have at height h, heights being taken to 0.01 mm."""
    a, b = case["start"] / 10.0, case["end"] / 10.0
    low, top, h = [{v} if v % CENT == 0 else {v // CENT * CENT, (v // CENT + 1) * CENT} for v in (low, top, h)]
    res = set()
    for l in low:
        for t in top:
            for x in h:
                if not l <= x <= t:
                    continue
                if case["mode"] == "continuous":
                    res.add(a + (b - a) * (x - l) / (t - l))
                    continue
                n = case["steps"]
                k, rest = divmod((x - l) * (n + 1), t - l)
                ks = {min(k, n)} | ({min(k - 1, n)} if rest == 0 and k else set())
                res |= {a + (b - a) * k / n for k in ks}
    return sorted(res)


def t_gradient(case, rec):
    evs = M.run(case["lines"])
    if not usable(case, evs):
        rec.label("skipped: heights too close")
        return
    low, top = limits(case, evs)
    out = calibrate(case)
    if out is None or low is None or low >= top:
        rec.label("refused")         # rightly or not: C25
        return
    current = None
    seen = {}
    for h, ins in layers(case, out, evs):
        if ins:
            current = float(INSERTED.match(ins).group(1))
        if h is None or not low <= h <= top:
            continue
        want = wanted(case, low, top, h)
        if all(149.95 < w < 150.05 or 249.95 < w < 250.05 for w in want):
            rec.label("at the safety limits")
            if current is None:
                continue
        elif not all(150 <= w <= 250 for w in want):
            continue
        check(current is not None, "no temperature is set at height %r, it should be %r", M.fl(h), want)
        check(any(abs(current - w) <= 0.0501 for w in want), "the temperature at height %r is %r instead of %r", M.fl(h),
              current, want)
        seen[h] = current
    hs = sorted(seen)
    ts = [seen[h] for h in hs]
    up = case["end"] > case["start"]
    check(all((q >= p) if up else (q <= p) for p, q in zip(ts, ts[1:])), "the temperatures %r are not monotonic", ts)
    rec.nontrivial(len(set(ts)) >= 3)
    rec.label(case["mode"], len(set(ts)) >= 3)
    rec.label("all steps", case["mode"] == "step" and len(set(ts)) == case["steps"] + 1)
    rec.label("G92 Z", any(ev.kind == "set" and 2 in ev.set_axes for ev in evs))
    rec.label("rising" if up else "falling")


SUBS = [Sub("gradient", case_s(), t_gradient, 5000, rule="programs at whose layers at least three temperatures are set")]
ASSUMPTIONS = ["heights of one program are equal or at least 0.02 mm apart, heights are taken to 0.01 mm",
               "the program's own temperature commands are not considered"]
