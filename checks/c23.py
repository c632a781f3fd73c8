"""C23: the stretch of a loop depends only on its own shape, and widens holes."""
import math

from hypothesis import strategies as st

from checks.c22 import displacements
from pbt import slicer
from pbt.harness import Sub, check

DIALECT = st.sampled_from(["slic3r", "cura"])
TOL = 0.0011      # both results are rounded to 0.001 mm


@st.composite
def even_settings(draw):
    """Settings where outer and inner edges are treated alike (their place decides which they are in Slic3r)."""
    s = dict(draw(slicer.SETTINGS))
    s[slicer.RATIO["outer"]] = s[slicer.RATIO["inner"]] = draw(st.sampled_from([0.32, 0.1, 0.6]))
    if s.get(slicer.RATIO["extra"]) == 0.0:
        del s[slicer.RATIO["extra"]]
    return s


def vertices(job, dialect, settings):
    """{(loop, vertex): displacement in mm} of the written vertices."""
    res = {}
    for x, y, (loop, vertex, kind), d in displacements({"job": job, "dialect": dialect}, settings):
        v = max(vertex, 0)
        if (loop, v) in res:
            check(all(abs(a - b) <= 0.0011 for a, b in zip(res[loop, v], d)),
                  "vertex %d of loop %d is moved in two ways: %r and %r", v, loop, res[loop, v], d)
        res[loop, v] = d
    return res


def alone(it, width):
    return {"width": width, "meta": "start", "layers": [[dict(it, travel="plain", after="", **{"in": []})]], "g92": None, "dz": 200}


def usable(it, w_um, s):
    d = s.get("stretch_from_distance_over_edge_width", 2.0) * (400 if w_um is None else w_um)
    return abs(slicer.perimeter(it["pts"]) / d - 1) > 1e-6


def compare(what, got, want, rec):
    check(set(got) == set(want), "%s: stretched vertices are %r instead of %r", what, sorted(got), sorted(want))
    for k in sorted(want):
        check(all(abs(a - b) <= TOL for a, b in zip(got[k], want[k])), "%s: vertex %r moves by (%.3f, %.3f) instead of (%.3f, %.3f)",
              what, k, got[k][0], got[k][1], want[k][0], want[k][1])
    rec.nontrivial(any(abs(c) > 0.01 for d in want.values() for c in d))


@st.composite
def context_s(draw):
    return {"job": draw(slicer.job(max_layers=3, max_items=5)), "dialect": draw(DIALECT), "settings": draw(even_settings())}


def t_context(case, rec):
    job, s, d = case["job"], case["settings"], case["dialect"]
    got = vertices(job, d, s)
    for n, it in enumerate(slicer.job_loops(job)):
        if not usable(it, job["width"], s):
            continue
        single = vertices(alone(it, job["width"]), d, s)
        compare("loop %d in its surroundings" % n, {v: q for (l, v), q in got.items() if l == n},
                {v: q for (l, v), q in single.items()}, rec)
    rec.label(d)
    rec.label("surroundings", len(case["job"]["layers"]) > 1 or len(case["job"]["layers"][0]) > 1)


@st.composite
def transform_s(draw):
    it = draw(slicer.loop_item())
    return {"item": it, "width": draw(st.one_of(st.none(), slicer.WIDTH)), "dialect": draw(DIALECT), "settings": draw(even_settings()),
            "dx": draw(st.integers(-200000, 200000)), "dy": draw(st.integers(-200000, 200000)),
            "quarters": draw(st.integers(0, 3)), "mirror": draw(st.booleans()), "start": draw(st.integers(0, 59))}


def t_transform(case, rec):
    it, s, d = case["item"], case["settings"], case["dialect"]
    if not usable(it, case["width"], s):
        return
    base = vertices(alone(it, case["width"]), d, s)
    # shift and rotate
    def turn(p):
        x, y = p
        for _ in range(case["quarters"]):
            x, y = -y, x
        return x, y
    moved = dict(it, pts=[[turn(p)[0] + case["dx"], turn(p)[1] + case["dy"]] for p in it["pts"]])
    compare("shifted by (%g, %g) mm and turned by %d degrees" % (case["dx"] / 1000.0, case["dy"] / 1000.0, 90 * case["quarters"]),
            vertices(alone(moved, case["width"]), d, s), {k: turn(v) for k, v in base.items()}, rec)
    # other start point
    n = len(it["pts"])
    k = case["start"] % n
    other = dict(it, pts=it["pts"][k:] + it["pts"][:k])
    compare("starting at vertex %d" % k, {(l, (v + k) % n): q for (l, v), q in vertices(alone(other, case["width"]), d, s).items()},
            base, rec)
    rec.label(d)
    rec.label("turned", case["quarters"] > 0)
    rec.label("other start", k > 0)


@st.composite
def polygon_s(draw):
    """A regular polygon with sides short enough not to be limited across."""
    width = draw(st.one_of(st.none(), slicer.WIDTH))
    w = 400 if width is None else width
    s = draw(even_settings())
    dist = s.get("stretch_from_distance_over_edge_width", 2.0) * w
    limit = s.get("cross_limit_distance_over_edge_width", 5.0) * w
    n = draw(st.integers(5, 90))
    hi = int(limit / 3.0) - 3
    lo = max(150, int(4 * dist / n) + 1)
    if lo > hi:
        n = int(4 * dist / max(150, hi)) + 2
        lo = hi
    side = draw(st.integers(lo, max(lo, hi)))
    r = side / (2 * math.sin(math.pi / n))
    cx, cy = draw(st.sampled_from([(0, 0), (100000, 90000), (-3210, 777)]))
    return {"width": width, "settings": s, "dialect": draw(DIALECT), "n": n, "r": r, "cx": cx, "cy": cy,
            "start": draw(st.integers(0, 359)), "sign": draw(st.sampled_from([1, -1])),
            "kind": draw(st.sampled_from(["outer", "inner", "extra"])), "context": draw(slicer.job(max_layers=1, max_items=2))}


def t_polygon(case, rec):
    pts = slicer.ngon(case["n"], case["r"], case["cx"], case["cy"], case["start"] * math.pi / 180, case["sign"])
    w = case["width"]
    s = case["settings"]
    it = {"t": "loop", "kind": case["kind"], "pts": pts, "travel": "plain", "after": "", "in": [], "f": "first", "flow": 30}
    job = dict(case["context"], width=w, g92=None)
    job["layers"] = [job["layers"][0] + [it]] + job["layers"][1:]
    n = len(slicer.job_loops(job)) - 1 if len(job["layers"]) == 1 else None
    got = {v: q for (l, v), q in vertices(job, case["dialect"], s).items() if l == n}
    check(len(got) == len(pts), "only %d of the %d vertices are stretched", len(got), len(pts))
    kind = case["kind"]
    m = (0.4 if w is None else w / 1000.0) * s.get(slicer.RATIO[kind], slicer.DEFAULT[kind]) * s.get("stretch_strength", 1.0)
    # coordinates rounded to 0.001 mm turn the measured directions a little
    dist = s.get("stretch_from_distance_over_edge_width", 2.0) * (0.4 if w is None else w / 1000.0)
    tol = 0.0011 + m * 0.8 * 0.004 / dist
    radial = []
    for v, q in got.items():
        ux, uy = pts[v][0] - case["cx"], pts[v][1] - case["cy"]
        length = math.hypot(ux, uy)
        ux, uy = ux / length, uy / length
        radial.append(q[0] * ux + q[1] * uy)
        side = abs(-q[0] * uy + q[1] * ux)
        check(side <= tol, "vertex %d of a regular polygon (n=%d, r=%.3f mm) moves sideways by %.4f", v, case["n"],
              case["r"] / 1000.0, side)
        check(radial[-1] >= -tol, "vertex %d of a regular polygon (n=%d, r=%.3f mm) moves inwards by %.4f", v, case["n"],
              case["r"] / 1000.0, -radial[-1])
    check(max(radial) - min(radial) <= 2 * tol, "the vertices of a regular polygon (n=%d, r=%.3f mm) move by %.4f to %.4f",
          case["n"], case["r"] / 1000.0, min(radial), max(radial))
    rec.nontrivial(min(radial) > 0.005)
    rec.label(case["dialect"])
    rec.label("clockwise", case["sign"] < 0)
    rec.label("clearly outwards", min(radial) > 4 * tol)


@st.composite
def dialect_s(draw):
    return {"job": draw(slicer.job(max_layers=3, max_items=5)), "settings": draw(even_settings())}


def t_dialects(case, rec):
    a = vertices(case["job"], "slic3r", case["settings"])
    b = vertices(case["job"], "cura", case["settings"])
    loops = slicer.job_loops(case["job"])
    ok = {n for n, it in enumerate(loops) if usable(it, case["job"]["width"], case["settings"])}
    compare("Cura against Slic3r", {k: v for k, v in b.items() if k[0] in ok}, {k: v for k, v in a.items() if k[0] in ok}, rec)
    rec.label("several loops", len(loops) > 1)


SUBS = [Sub("context", context_s(), t_context, 1500, rule="programs with a loop that is stretched by more than 0.01 mm"),
        Sub("transform", transform_s(), t_transform, 2000, rule="loops stretched by more than 0.01 mm"),
        Sub("polygon", polygon_s(), t_polygon, 2000, rule="regular polygons pushed outwards by more than 0.005 mm"),
        Sub("dialects", dialect_s(), t_dialects, 1500, rule="programs with a loop that is stretched by more than 0.01 mm")]
ASSUMPTIONS = ["relative extrusion, absolute positioning"]
