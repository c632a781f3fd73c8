"""C17: arcs replace segments without moving the toolpath."""
import math

from hypothesis import strategies as st

from pbt import arcs, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC


@st.composite
def case_s(draw):
    return {"lines": draw(arcs.program(inches=draw(st.sampled_from([False] * 7 + [True]))))}


def run(lines):
    out = lib.filtered(lines, ("arcs", {}))
    ins, outs = M.run(lines), M.run(out)
    return arcs.align(ins, outs)


def t_path(case, rec):
    al = run(case["lines"])
    slack = 0.0011
    found = 0
    for item in al:
        if item[0] == "same":
            _, a, b = item
            for k in range(3):
                check(abs(a.end[k] - b.end[k]) <= slack * SC, "line %d %r ends at %s%r instead of %r", a.idx, a.raw,
                      "XYZ"[k], b.end[k] / SC, a.end[k] / SC)
            check(abs(a.f - b.f) <= SC // 500, "line %d %r runs at feed rate %r instead of %r", a.idx, a.raw, b.f / SC,
                  a.f / SC)
            continue
        arc = item[1]
        o, segs = arc.out, arc.segs
        at = "arc %r for lines %d to %d (%r ... %r)" % (o.raw, segs[0].idx, segs[-1].idx, segs[0].raw, segs[-1].raw)
        found += 1
        if o.rel:
            slack += 0.0011      # rounding of relative words adds up
        check(arcs.dist(o.start, segs[0].start) <= slack, "%s starts elsewhere", at)
        check(arcs.dist(o.end, segs[-1].end) <= 1.5 * slack, "%s ends at (%r, %r) instead of (%r, %r)", at,
              o.end[0] / SC, o.end[1] / SC, segs[-1].end[0] / SC, segs[-1].end[1] / SC)
        check(all(s.start[2] == segs[0].start[2] == s.end[2] for s in segs), "%s replaces moves that change height", at)
        check(abs(o.end[2] - o.start[2]) == 0, "%s changes the height", at)
        check(all(s.f == segs[0].f for s in segs), "%s replaces moves of several feed rates", at)
        check(abs(o.f - segs[-1].f) <= SC // 500, "%s runs at feed rate %r instead of %r", at, o.f / SC, segs[-1].f / SC)
        check("f" not in o.args or o.args["f"] > 0, "%s has a feed rate of 0", at)
        _, radii, steps = arcs.geometry(arc)
        mid = (max(radii) + min(radii)) / 2
        check(o.args.get("i") or o.args.get("j"), "%s has no radius", at)
        check((max(radii) - min(radii)) / 2 <= 0.0162 + slack - 0.0011, "%s: the replaced points are up to %.4f mm off any "
              "circle around its centre", at, (max(radii) - min(radii)) / 2)
        if mid < 0.02:
            rec.label("tiny")       # as small as the tolerance: no direction to speak of
            continue
        want = 1 if o.cmd == "G3" else -1
        fuzz = slack / mid
        check(all(s * want > -fuzz for s in steps), "%s: the replaced moves do not all turn its way", at)
        mean = sum(steps) / len(steps)
        check(all(abs(s - mean) <= math.radians(5.1) + 2 * fuzz for s in steps),
              "%s: the replaced moves turn by %s degrees", at, [round(math.degrees(s), 1) for s in steps])
        total = sum(steps) * want
        check(total <= 2 * math.pi + 2 * fuzz, "%s replaces %.1f degrees", at, math.degrees(total))
        executed = sweep(o, want)
        check(abs(executed - total) <= 3 * fuzz + 1e-6, "%s sweeps %.3f degrees instead of %.3f", at,
              math.degrees(executed), math.degrees(total))
        rec.label("clockwise" if want < 0 else "counter-clockwise")
        rec.label("full turn", total > 2 * math.pi - 1e-3)
        rec.label("more than half a turn", total > math.pi)
        rec.label("relative", o.rel)
        rec.label("after G92 XY", bool(o.offs[0] or o.offs[1]))
        rec.label("inch", o.imperial)
        rec.label("noisy", max(radii) - min(radii) > 0.004)
    rec.nontrivial(found >= 1)
    rec.label("refused run", not found)


def sweep(o, want):
    """Angle a machine turns when it executes the arc, the end point taken by its angle."""
    cx, cy = o.start[0] + o.args.get("i", 0), o.start[1] + o.args.get("j", 0)
    if o.start[:2] == o.end[:2]:
        return 2 * math.pi
    a0 = math.atan2(o.start[1] - cy, o.start[0] - cx)
    a1 = math.atan2(o.end[1] - cy, o.end[0] - cx)
    return ((a1 - a0) * want) % (2 * math.pi)


SUBS = [Sub("path", case_s(), t_path, 4000, rule="programs of true, noisy, uneven, overlapping, reversed and spoiled "
                                                 "circular runs in which at least one arc was generated")]
ASSUMPTIONS = ["G2 and G3 are executed with I and J relative to the start point; equal start and end mean a full turn"]
