"""C22: displacements, extrusion, height and speed of stretched moves stay within bounds."""
import math

from hypothesis import strategies as st

from pbt import lib, machine as M, slicer
from pbt.harness import Sub, check

SC = M.SC
TOL = 0.0009          # two rounded coordinates


@st.composite
def case_s(draw):
    return {"job": draw(slicer.job(max_layers=3, max_items=4)), "dialect": draw(st.sampled_from(["slic3r", "cura", "skeinforge"])),
            "settings": draw(slicer.SETTINGS)}


def displacements(case, settings):
    """[(ev in, ev out, truth, (dx, dy) in mm)] of the stretched lines."""
    d = case["dialect"]
    lines, truth = slicer.render(case["job"], d)
    out = lib.filtered(lines, (d, settings))
    a, b = M.run(lines), M.run(out)
    check(len(a) == len(b), "%d lines became %d", len(a), len(b))
    return [(x, y, t, ((y.end[0] - x.end[0]) / SC, (y.end[1] - x.end[1]) / SC)) for x, y, t in zip(a, b, truth) if t]


def t_bounds(case, rec):
    w = case["job"]["width"]
    most = 0.0
    for x, y, t, (dx, dy) in displacements(case, case["settings"]):
        at = "line %d %r became %r" % (x.idx, x.raw, y.raw)
        r = math.hypot(dx, dy)
        most = max(most, r)
        limit = slicer.bound(t[2], w, case["settings"])
        check(r <= limit + TOL, "%s: moved by %.4f, the limit of this %s loop is %.4f", at, r, t[2], limit)
        check(x.cmd == y.cmd, "%s: another command", at)
        check(x.args.get("z") == y.args.get("z") and x.end[2] == y.end[2], "%s: another height", at)
        check(x.f == y.f, "%s: feed rate %r instead of %r", at, y.f / SC, x.f / SC)
        check(("e" in x.args) == ("e" in y.args), "%s: the E word comes or goes", at)
        if "e" in x.args:
            e = x.args["e"] / SC
            want = e * (1 - r)
            check(abs(y.args["e"] / SC - want) <= abs(e) * TOL + 0.000011, "%s: feeds %.5f instead of %.5f for a displacement of %.4f",
                  at, y.args["e"] / SC, want, r)
    rec.nontrivial(most > 0.01)
    rec.label(case["dialect"])
    rec.label("close to the limit", any(math.hypot(*q[3]) > 0.9 * slicer.bound(q[2][2], w, case["settings"]) > 0.01
                                        for q in displacements(case, case["settings"])))


@st.composite
def prop_s(draw):
    c = draw(case_s())
    c["factor"] = draw(st.sampled_from([2.0, 0.5, 3.0, 0.1, 1.5]))
    return c


def t_strength(case, rec):
    s = dict(case["settings"])
    base = displacements(case, s)
    s["stretch_strength"] = s.get("stretch_strength", 1.0) * case["factor"]
    scaled = displacements(case, s)
    k = case["factor"]
    most = 0.0
    for (x, y, t, p), (_, y2, _, q) in zip(base, scaled):
        for u, v in zip(p, q):
            check(abs(u * k - v) <= 0.00051 * (1 + k), "line %d %r became %r, with %g times the strength %r: not in proportion",
                  x.idx, x.raw, y.raw, k, y2.raw)
            most = max(most, abs(u))
    rec.nontrivial(most > 0.01)
    rec.label(case["dialect"])


SUBS = [Sub("bounds", case_s(), t_bounds, 2500, rule="slicer programs where a point moves by more than 0.01 mm"),
        Sub("strength", prop_s(), t_strength, 1500, rule="slicer programs where a coordinate moves by more than 0.01 mm")]
ASSUMPTIONS = ["relative extrusion, absolute positioning", "coordinates are written to 0.001 mm, extrusion to 0.00001 mm"]
