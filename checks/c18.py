"""C18: arcs extrude what the replaced segments extruded."""
import math

from hypothesis import strategies as st

from checks.c17 import case_s, run
from pbt import arcs, machine as M
from pbt.harness import Sub, check

SC = M.SC


def t_extrusion(case, rec):
    al = run(case["lines"])
    found = 0
    pending = 0             # filament fed in advance, given back by the next absolute E word
    for item in al:
        if item[0] == "same":
            _, a, b = item
            if a.kind == "move":
                want = a.de
                if "e" in a.args and not a.rel_e:
                    want -= pending
                    pending = 0
                check(abs(b.de - want) <= 40000, "line %d %r feeds %r instead of %r", a.idx, a.raw, b.de / SC, want / SC)
            else:
                check(b.de == 0, "line %d %r feeds filament", a.idx, a.raw)
            if a.kind == "set" and 3 in a.set_axes:
                pending = 0
            continue
        arc = item[1]
        o, segs = arc.out, arc.segs
        at = "arc %r for lines %d to %d (%r ... %r)" % (o.raw, segs[0].idx, segs[-1].idx, segs[0].raw, segs[-1].raw)
        total = sum(s.de for s in segs)
        with_e = [s for s in segs if "e" in s.args]
        check(len(with_e) in (0, len(segs)), "%s merges moves with and without extrusion", at)
        check(o.rel_e == segs[0].rel_e, "%s: another extrusion mode", at)
        if not with_e:
            check("e" not in o.args and o.de == 0, "%s extrudes", at)
            check(arc.fix is None, "%s is followed by a change of the extruder position", at)
            found += 1
            rec.label("travel arc")
            continue
        check("e" in o.args, "%s does not extrude", at)
        lens = [arcs.dist(s.start, s.end) for s in segs]
        ratios = [s.de / SC / l if l else 0 for s, l in zip(segs, lens)]
        mean = total / SC / sum(lens)
        check(mean > 0, "%s replaces moves that feed %r", at, total / SC)
        for s, r in zip(segs, ratios):
            check(abs(r / mean - 1) <= 0.1505, "%s: the flow of %r is %.0f %% of the mean", at, s.raw, 100 * r / mean)
        _, radii, steps = arcs.geometry(arc)
        radius = sum(radii) / len(radii)
        # by angle: exact for points on the circle; by length: for points slightly off it
        by_angle = sum(s.de * (abs(al_) / 2) / math.sin(abs(al_) / 2) for s, al_ in zip(segs, steps) if al_)
        by_length = total * sum(abs(s) * radius for s in steps) / sum(lens)
        low, high = min(by_angle, by_length), max(by_angle, by_length)
        slack = 0.002 * total + 0.002 / radius * total + 30000
        if not o.rel_e:
            # an absolute word also takes back what an earlier arc fed in advance
            low, high = low - pending, high - pending
        check(low - slack <= o.de <= high + slack, "%s feeds %r instead of %r", at, o.de / SC, low / SC)
        check(o.de + (0 if o.rel_e else pending) > 0, "%s retracts", at)
        if o.rel_e:
            check(arc.fix is None, "%s is followed by a change of the extruder position", at)
            pending += o.de - total
        else:
            extra = o.de + pending - total
            if arc.fix is not None:
                c = arc.fix
                pos = c.end[3] - c.offs[3]
                want = segs[-1].end[3] - segs[-1].offs[3]
                check(abs(pos - want) <= 20000, "%s is followed by %r, the extruder position is %r", at, c.raw, want / SC)
                pending = 0
                rec.label("corrected by G92")
            else:
                check(extra <= 0.0101 * total + 40000, "%s feeds %.2f %% in advance and is not followed by a correction",
                      at, 100.0 * extra / total)
                pending = extra
        found += 1
        rec.label("clockwise" if o.cmd == "G2" else "counter-clockwise")
        rec.label("relative extrusion" if o.rel_e else "absolute extrusion")
        rec.label("shifted extruder", bool(segs[0].offs[3]) and not o.rel_e)
        rec.label("inch", o.imperial)
    rec.nontrivial(found >= 1)


SUBS = [Sub("extrusion", case_s(), t_extrusion, 4000, rule="programs of circular runs in which at least one arc was generated")]
ASSUMPTIONS = ["the correction of the extruder position after an arc is a G92 E"]
