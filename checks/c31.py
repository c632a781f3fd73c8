"""C31: stretched points move by the rule the stretch manual documents."""
import math

from hypothesis import strategies as st

from checks.c22 import displacements
from pbt import slicer
from pbt.harness import Sub, check


def along(pts, i, step, dist):
    """Point reached by following a closed loop from vertex i for a distance."""
    n = len(pts)
    k = i
    while True:
        a, b = pts[k % n], pts[(k + step) % n]
        seg = math.hypot(b[0] - a[0], b[1] - a[1])
        if dist <= seg:
            t = dist / seg
            return (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        dist -= seg
        k += step


def limited(v, a, b, limit):
    """The part of v left by the cross limit of the segment from a to b."""
    dx, dy = a[0] - b[0], a[1] - b[1]
    length = math.hypot(dx, dy)
    if length <= limit / 3.0:
        return v
    n = (dx / length, dy / length)
    p = v[0] * n[0] + v[1] * n[1]
    par = (p * n[0], p * n[1])
    if length > limit:
        return par
    k = (limit - length) / (limit - limit / 3.0)
    return (par[0] + k * (v[0] - par[0]), par[1] + k * (v[1] - par[1]))


def rule(pts, i, w, kind, settings):
    """Displacement (mm) of vertex i of a closed loop (pts in mm)."""
    dist = settings.get("stretch_from_distance_over_edge_width", 2.0) * w
    limit = settings.get("cross_limit_distance_over_edge_width", 5.0) * w
    p = pts[i]
    v = [0.0, 0.0]
    if slicer.perimeter(pts) < dist:
        return (0.0, 0.0)
    for step in (1, -1):
        q = along(pts, i, step, dist)
        v[0] += (p[0] - q[0]) / dist
        v[1] += (p[1] - q[1]) / dist
    v = (v[0] * 0.8, v[1] * 0.8)
    n = len(pts)
    v = limited(v, p, pts[(i + 1) % n], limit)
    v = limited(v, p, pts[(i - 1) % n], limit)
    length = math.hypot(*v)
    if length > 1:
        v = (v[0] / length, v[1] / length)
    m = w * settings.get(slicer.RATIO[kind], slicer.DEFAULT[kind]) * settings.get("stretch_strength", 1.0)
    return (v[0] * m, v[1] * m)


@st.composite
def case_s(draw):
    return {"job": draw(slicer.job(max_layers=3, max_items=5)), "dialect": draw(st.sampled_from(["slic3r", "cura"])),
            "settings": draw(slicer.SETTINGS)}


def t_rule(case, rec):
    w = 0.4 if case["job"]["width"] is None else case["job"]["width"] / 1000.0
    s = case["settings"]
    loops = slicer.job_loops(case["job"])
    most, n = 0.0, 0
    for x, y, (loop, vertex, kind), d in displacements(case, s):
        pts = loops[loop]["pts"]
        turns = s.get("stretch_from_distance_over_edge_width", 2.0) * w / (slicer.perimeter(pts) / 1000.0)
        if abs(turns - 1) < 1e-6:
            continue
        rec.label("loop shorter than the distance", turns > 1)
        rec.label("loop shorter than twice the distance", 0.5 < turns < 1)
        pts = [(a / 1000.0, b / 1000.0) for a, b in pts]
        want = rule(pts, max(vertex, 0), w, kind, s)
        check(all(abs(u - v) <= 0.00052 for u, v in zip(d, want)),
              "line %d %r (vertex %d of the %s loop %d, edge width %g) became %r: moved by (%.4f, %.4f) instead of (%.4f, %.4f)",
              x.idx, x.raw, vertex, kind, loop, w, y.raw, d[0], d[1], want[0], want[1])
        most = max(most, abs(want[0]), abs(want[1]))
        n += 1
    rec.nontrivial(most > 0.01)
    rec.label(case["dialect"])
    rec.label("many points", n > 20)
    rec.label("default settings", not s)


SUBS = [Sub("rule", case_s(), t_rule, 5000, rule="slicer programs where a point moves by more than 0.01 mm")]
ASSUMPTIONS = ["relative extrusion, absolute positioning", "coordinates are written to 0.001 mm"]
