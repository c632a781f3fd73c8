"""C25: temperature calibration only inserts safe temperature commands."""
import io
import re

from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, Violation, check

SC = M.SC
INSERTED = re.compile(r"^M104 S(-?\d+(?:\.\d+)?)$")


@st.composite
def tower(draw):
    """A print of many layers, with lifts and repeated or lowered heights."""
    zs = draw(st.sampled_from([100, 200, 300, 350, 50, 1000, 254, 127, 333]))          # 0.001 mm
    n = draw(st.integers(0, 40))
    z = draw(st.sampled_from([zs, 300, 200, 50, 80, 254, 306, 0, -200]))
    lines = draw(st.lists(st.sampled_from(["G28", "M109 S200", "G21", "G90", "M82", "; start", "G92 E0", "G1 Z5 F3000",
                                           "G1 X10 Y10 E3", "G1 F1200", "M104 S210"]), max_size=5))
    e = 0
    rel = draw(st.integers(0, 4)) == 0
    if rel:
        lines.append("M83")
    shift = draw(st.integers(0, 9))
    for k in range(n):
        lines.append("G1 Z%s%s" % (gen.dec(z, 3), draw(st.sampled_from(["", "", " F7800", " ; move to next layer (%d)" % k]))))
        for _ in range(draw(st.integers(0, 2))):
            e += 7
            lines.append("G1 X%d Y%d E%s" % (draw(st.integers(0, 60)), draw(st.integers(0, 60)),
                                             "0.07" if rel else gen.dec(e, 2)))
        extra = draw(st.sampled_from([""] * 8 + ["hop", "m", "g92", "back", "z92", "skip"]))
        if extra == "hop":
            lines += ["G1 Z%s" % gen.dec(z + draw(st.sampled_from([500, 1000, 10000])), 3), "G1 X1 Y1 F9000",
                      "G1 Z%s" % gen.dec(z, 3), "G1 X5 Y5 E%s" % ("0.07" if rel else gen.dec(e + 1, 2))]
        elif extra == "m":
            lines.append(draw(st.sampled_from(["M106 S255", "M104 S205", "; comment", "T1", "M107", "(x)"])))
        elif extra == "g92" and not rel:
            lines.append("G92 E0")
            e = 0
        elif extra == "back":
            z = max(zs, z - zs * draw(st.integers(1, 3)))
        elif extra == "z92" and shift == 0:
            z = draw(st.integers(0, 20)) * 100
            lines.append("G92 Z%s" % gen.dec(z, 3))
        elif extra == "skip":
            z += zs * draw(st.integers(1, 20))
        z += zs
    lines += draw(st.lists(st.sampled_from(["M107", "G28 X", "G1 Z200", "M84", "; end", "G92 E0"]), max_size=3))
    return lines


@st.composite
def case_s(draw):
    lines = draw(st.one_of(tower(), tower(), tower(), gen.program(
        layered=True, max_lines=45, zgrid=draw(st.sampled_from([50, 200, 20, 300, 150])))))
    inside = st.integers(1500, 2500)
    anyt = st.one_of(st.sampled_from([1500, 2500, 2000, 2200, 2100, 1490, 2510]), inside, st.integers(1000, 3000))
    start = draw(anyt)
    end = draw(st.one_of(anyt, st.just(start), st.integers(-50, 50).map(lambda d: start + d)))
    if draw(st.booleans()):
        start, end = start // 10 * 10, end // 10 * 10
    return {"lines": lines, "start": start, "end": end,
            "min": draw(st.sampled_from([10, 10, 0, 30, 100, 300, 50, 20, 2000, -10, -100])),
            "steps": draw(st.one_of(st.just(10), st.integers(1, 25))),
            "mode": draw(st.sampled_from(["step", "step", "continuous"]))}


def number(v):
    return v // 10 if v % 10 == 0 else v / 10.0


def calibrate(case):
    """The calibrated program as a list of lines, or None when it is refused."""
    m = lib.mod("gcodeutils.gcode_tempcal")
    g = lib.load(case["lines"])
    cls = {"step": m.GCodeStepTempGradient, "continuous": m.GCodeContinuousTempGradient}[case["mode"]]
    out = io.StringIO()
    try:
        cls(gcode=g, start_temp=number(case["start"]), end_temp=number(case["end"]), min_z_change=case["min"] / 100.0,
            steps=case["steps"]).write(out)
    except RuntimeError:
        check(out.getvalue() == "", "the program is refused after a part of it was written")
        return None
    return out.getvalue().split("\n")[:-1]


def limits(case, evs):
    """(lowest layer above the minimum height, highest printed layer), in 1e-9 mm."""
    low = [ev.height for ev in evs if ev.height is not None and ev.height > case["min"] * SC // 100]
    top = max([0] + [h for h in M.printed_heights(evs) if h is not None])
    return (min(low) if low else None), top


def layers(case, out, evs):
    """[(height, inserted line or None)] per layer; a Violation when the output is anything else."""
    k = 0
    res = []
    for h, s in M.stretches(evs):
        ins = None
        if k < len(out) and out[k] != s[0].raw:
            ins = out[k]
            check(ins == "" or INSERTED.match(ins), "line %d of the output is %r instead of %r", k, ins, s[0].raw)
            k += 1
        for ev in s:
            check(k < len(out), "the output ends before line %d %r", ev.idx, ev.raw)
            check(out[k] == ev.raw, "line %d of the output is %r instead of %r", k, out[k], ev.raw)
            k += 1
        res.append((h, ins))
    check(k == len(out), "the output goes on with %r", out[k] if k < len(out) else "")
    return res


def usable(case, evs):
    # heights are taken to 0.01 mm: it is unclear whether one that rounds to the minimum height is above it
    edge = case["min"] * SC // 100
    unclear = any(ev.height is not None and ev.height != edge and abs(ev.height - edge) <= SC // 200 for ev in evs)
    return gen.separated(evs) and not unclear


def t_insertions(case, rec):
    evs = M.run(case["lines"])
    if not usable(case, evs):
        rec.label("skipped: heights too close")
        return
    low, top = limits(case, evs)
    out = calibrate(case)
    refuse = low is None or low >= top
    check((out is None) == refuse, "the program with layers from %r to %r is %s", M.fl(low), M.fl(top),
          "accepted" if out is not None else "refused")
    rec.label("refused", refuse)
    if refuse:
        return
    lo, hi = min(case["start"], case["end"]) / 10.0, max(case["start"], case["end"]) / 10.0
    last = None
    n = 0
    for h, ins in layers(case, out, evs):
        if ins is None:
            continue
        at = "%r inserted at height %r" % (ins, M.fl(h))
        check(h is not None and low <= h <= top, "%s, outside of %r to %r", at, M.fl(low), M.fl(top))
        if ins == "":
            last = None
            rec.label("unsafe temperature suppressed")
            continue
        t = float(INSERTED.match(ins).group(1))
        check(150 <= t <= 250, "%s is unsafe", at)
        check(lo - 0.0501 <= t <= hi + 0.0501, "%s is not between start and end", at)
        check(t != last, "%s repeats the temperature", at)
        last = t
        n += 1
    rec.nontrivial(n >= 2)
    rec.label("lift above the top", any(ev.height is not None and ev.height > top for ev in evs))
    rec.label("layer below the minimum height", any(ev.height is not None and ev.height < low for ev in evs))


@st.composite
def vase_s(draw):
    return dict(draw(case_s()), lines=draw(gen.vase()), min=draw(st.sampled_from([10, 10, 0, 30, -10, 100])))


def t_vase(case, rec):
    """Prints that rise a little with every move, whatever layers they are cut into."""
    evs = M.run(case["lines"])
    out = calibrate(case)
    if out is None:
        # a print of at least a millimetre above the minimum height is high enough
        low, top = limits(case, evs)
        check(low is None or top < low + SC, "the program with heights from %r to %r is refused", M.fl(low), M.fl(top))
        rec.label("refused")
        return
    own = [ev.raw for ev in evs]
    lo, hi = min(case["start"], case["end"]) / 10.0, max(case["start"], case["end"]) / 10.0
    top = max(h for h in M.printed_heights(evs) if h is not None)
    # slopes are cut into layers as the parser sees fit
    starts, k = {}, 0
    for layer in lib.load(case["lines"]).all_layers:
        if layer:
            starts[k] = layer.z
            k += len(layer)
    k, last, n = 0, None, 0
    for line in out:
        if k < len(own) and line == own[k]:
            k += 1
            continue
        at = "%r inserted before line %d %r" % (line, k, own[k] if k < len(own) else "")
        check(k < len(own), "%s, at the end of the program", at)
        check(line == "" or INSERTED.match(line), "%s", at)
        check(k in starts, "%s, where no layer begins", at)
        z = starts[k]
        check(z is not None and case["min"] / 100.0 - 0.006 <= z <= top / SC + 0.006,
              "%s, a layer at height %r, outside of %r to %r", at, z, case["min"] / 100.0, M.fl(top))
        if line == "":
            last = None
            continue
        t = float(INSERTED.match(line).group(1))
        check(150 <= t <= 250, "%s is unsafe", at)
        check(lo - 0.0501 <= t <= hi + 0.0501, "%s is not between start and end", at)
        check(t != last, "%s repeats the temperature", at)
        last = t
        n += 1
    check(k == len(own), "line %d %r is missing", k, own[k] if k < len(own) else "")
    rec.nontrivial(n >= 2)
    rec.label("many temperatures", n >= 8)


@st.composite
def large_s(draw):
    return dict(draw(case_s()), lines=None, large=draw(gen.large((300, 3000, 20000))))


def t_large(case, rec):
    t_insertions(dict(case, lines=gen.expand(case["large"])), rec)


SUBS = [Sub("large", large_s(), t_large, 24, 300, rule="programs of hundreds or thousands of lines into which two commands were inserted"),
        Sub("vase", vase_s(), t_vase, 1500, rule="prints rising with every move into which at least two commands were inserted"),
        Sub("insertions", case_s(), t_insertions, 4000, rule="programs into which at least two commands were inserted")]
ASSUMPTIONS = ["heights of one program are equal or at least 0.02 mm apart, heights are taken to 0.01 mm"]
