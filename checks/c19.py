"""C19: the arc optimiser leaves everything else exactly as it is."""
import math

from hypothesis import strategies as st

from checks import c17
from pbt import arcs, gen, lib, machine as M
from pbt.harness import Sub, check


@st.composite
def busy_s(draw):
    """Runs with other commands at any place inside and between, and layer changes."""
    lines = draw(arcs.program())
    for _ in range(draw(st.integers(0, 4))):
        at = draw(st.integers(0, len(lines)))
        lines.insert(at, draw(st.sampled_from(arcs.INSERTS + ["G1 Z0.4", "G1 Z2", "G0 X5", "", "G2 X1 Y1 I1 J0", "G0",
                                                              "M101", "G1 F100", "%", "N5 G1 X4", "G1 E5", "G28 Z"])))
    if draw(st.integers(0, 3)) == 0:
        lines = lines[:draw(st.integers(0, len(lines)))]
    return {"lines": lines, "plain": draw(gen.program(max_lines=12, junk=True)) if draw(st.booleans()) else []}


@st.composite
def tail_s(draw):
    """Nothing but moves, on a circle or not, with comments between, ending anywhere."""
    lines = [draw(st.sampled_from(["G90", "G90", "G91"])), "M83", "G1 X30 Y0 F1200"]
    kinds = []
    for _ in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(["on"] * 5 + ["off", ";", "up", "feed", "jump"]))
        kinds += [kind] * (draw(st.integers(1, 14)) if kind == "on" else draw(st.integers(1, 2)))
    x, y, k = 30000, 0, 0
    e = draw(st.booleans())
    for kind in kinds:
        if kind == ";":
            lines.append(draw(st.sampled_from(["; c", "(c)", ";"])))
            continue
        k += 1
        px, py = x, y
        x, y = round(30000 * math.cos(math.radians(9 * k))), round(30000 * math.sin(math.radians(9 * k)))
        if kind == "off":
            x, y = x + draw(st.integers(-9000, 9000)), y + 500
        if kind == "jump":
            k += 10
        at = (x - px, y - py) if lines[0] == "G91" else (x, y)
        lines.append("G1 X%s Y%s" % (gen.dec(at[0]), gen.dec(at[1])) + (" E0.1" if e else "") +
                     {"up": " Z%d" % (1 + k % 2), "feed": " F%d" % (600 + k)}.get(kind, ""))
    return {"lines": lines, "plain": []}


def t_rest(case, rec):
    lines = case["lines"] + case["plain"]
    g = lib.load(lines)
    lib.apply(g, "arcs")
    out = lib.out_lines(g)
    ins, outs = M.run(lines), M.run(out)
    al = arcs.align(ins, outs)
    n = 0
    for item in al:
        if item[0] == "arc":
            n += 1
            arc = item[1]
            check(len(arc.segs) >= 8, "an arc replaces %d moves", len(arc.segs))
            check(arc.fix is None or not arc.out.rel_e, "a correction follows an arc in relative extrusion")
    # tail moves of the program never move to another place: alignment has shown the order; layers keep all lines
    rec.nontrivial(n >= 1 and len(ins) > sum(len(i[1].segs) for i in al if i[0] == "arc") + 3)
    rec.label("unchanged", n == 0)
    rec.label("two arcs", n >= 2)
    rec.label("layers", len([l for l in g.all_layers if l]) >= 2)


@st.composite
def large_s(draw):
    return {"busy": draw(busy_s()), "times": draw(st.sampled_from([10, 40, 150])), "layer": draw(st.booleans())}


def t_large(case, rec):
    lines = []
    for k in range(case["times"]):
        if case["layer"]:
            lines.append("G1 Z%s" % gen.dec(300 + 200 * k))
        lines += case["busy"]["lines"]
    t_rest({"lines": lines, "plain": case["busy"]["plain"]}, rec)


def t_unrelated(case, rec):
    """Programs without circular runs come out unchanged."""
    out = lib.filtered(case, ("arcs", {}))
    arcs.align(M.run(case), M.run(out))
    rec.nontrivial(len(case) >= 12)


SUBS = [Sub("large", large_s(), t_large, 24, 300, rule="long programs in which an arc was generated"),
        Sub("runs", busy_s(), t_rest, 3500, rule="programs in which an arc was generated and at least three other lines stay"),
        Sub("tail", tail_s(), t_rest, 2500, rule="programs in which an arc was generated and at least three other lines stay"),
        Sub("machine", gen.program(junk=True, inches=True, max_lines=40), t_unrelated, 1500,
            rule="arbitrary programs of twelve lines or more")]
ASSUMPTIONS = []
