"""C16: a visitor sees every layer and line once, in order, with true coordinates."""
from hypothesis import strategies as st

from checks.c15 import layers_s, usable
from pbt import gen, lib, machine as M
from pbt.harness import Sub, check, sut


@st.composite
def case_s(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        lines = draw(layers_s())
    elif kind == 1:
        # layers of identical text
        block = draw(st.sampled_from([["G1 Z0.2", "G1 X1 Y1 E1", "G92 E0"], ["G1 Z5", "G1 Z0.2"], ["; a", "G1 Z1", "; a"],
                                      ["G91", "G1 Z0.2", "G90", "M83", "G1 X1 E1"]]))
        lines = block * draw(st.integers(1, 5)) + draw(st.sampled_from([[], ["G1 Z9"], ["; end"]]))
    else:
        lines = draw(gen.program(layered=True, max_lines=24, junk=True))
    return {"lines": lines, "append": draw(st.lists(st.sampled_from(["M84", "G1 X5 E3", "; end", "G28"]), max_size=2)),
            "light": draw(st.sampled_from([False, False, True])), "none": draw(st.sampled_from([0] * 9 + [1])),
            "digits": draw(st.sampled_from([None, None, None, 3, 3, 1, 0, 4]))}


def taken(h, digits):
    """A height to 0.01 mm, then to some digits, as a number of those; None where rounding may go either way."""
    for unit in (M.SC // 100, M.SC // 10 ** digits):
        k, rest = divmod(h + unit // 2, unit)
        if digits < 2 or unit != M.SC // 10 ** digits:
            if min(rest, unit - rest) <= M.SC // 10 ** 6:
                return None
        h = k * unit
    return k


def t_walk(case, rec):
    base = lib.mod("gcodeutils.visit.visitor").GCodeVisitor
    seen = []

    class Recorder(base):
        def will_visit_layer(self, layer, info):
            seen.append(("will", layer, None, info))

        def visit_line(self, line, info):
            seen.append(("line", None, line, info))

        def did_visit_layer(self, layer, info):
            seen.append(("did", layer, None, info))

    lines = [] if case["none"] else case["lines"]
    g = lib.load(lines, "LightGCode" if case["light"] else "GCode")
    for a in case["append"]:
        with sut("append"):
            g.append(a)
    before = lib.text(g)
    it = lib.mod("gcodeutils.visit.iterator").GCodeIterator
    with sut("walking"):
        digits = case.get("digits")
        (it(g) if digits is None else it(g, digits_of_precision=digits)).accept(Recorder())
    check(lib.text(g) == before, "walking changes the program")
    evs = M.run(lines)
    vase = case.get("vase")
    ok = usable(evs) and not vase
    d = 2 if digits is None else min(digits, 2)
    heights = {h: taken(h, d) for h in M.printed_heights(evs) if h is not None}
    ok = ok and None not in heights.values()
    ranks = sorted(set(heights.values())) if ok else []

    k = 0
    n = 0

    def take(kind):
        nonlocal k
        check(k < len(seen), "the walk ends early, expected %s", kind)
        check(seen[k][0] == kind, "call %d is %r instead of %r", k, seen[k][0], kind)
        k += 1
        return seen[k - 1]

    printed = 0
    levels = []
    for li, layer in enumerate(g.all_layers):
        _, l, _, info = take("will")
        check(l is layer, "layer %d: the visitor is given another layer", li)
        check(info.layer_index == li, "layer %d is reported as index %r", li, info.layer_index)
        check(info.gcode is g, "layer %d: another program is reported", li)
        number, is_printed = info.layer_number, info.is_printed
        check(not layer or info.line_number == n, "layer %d is entered at line %r instead of %d", li, info.line_number, n)
        first = n
        if ok:
            run = [e for e in evs[first:first + len(layer)]]
            feeds = [e for e in run if M.extrudes(e) and e.height is not None]
            check(bool(is_printed) == bool(feeds), "layer %d (lines %r) is reported as %s", li,
                  [x.raw for x in layer][:4], "printed" if is_printed else "not printed")
            if feeds:
                printed += 1
                want = ranks.index(heights[feeds[0].height])
                check(number == want, "layer %d at height %r is reported as number %r instead of %r", li,
                      M.fl(feeds[0].height), number, want)
        elif vase:
            # slopes are cut into layers as the parser sees fit
            feeds = any(M.extrudes(e) and e.height is not None for e in evs[first:first + len(layer)])
            check(bool(is_printed) == feeds, "layer %d at height %r (lines %r) is reported as %s", li, layer.z,
                  [x.raw for x in layer][:4], "printed" if is_printed else "not printed")
            if feeds:
                printed += 1
                levels.append((cents(layer.z, d), number))
        for line in layer:
            _, _, x, info = take("line")
            check(x is line, "line %d: the visitor is given another line", n)
            check(info.line_number == n, "line %d is reported as %r", n, info.line_number)
            check((info.layer_index, info.layer_number, info.is_printed) == (li, number, is_printed),
                  "line %d of layer %d is reported with layer %r, number %r, printed %r", n, li, info.layer_index,
                  info.layer_number, info.is_printed)
            n += 1
        _, l, _, info = take("did")
        check(l is layer, "layer %d: the visitor is given another layer at its end", li)
        check((info.layer_index, info.layer_number, info.is_printed) == (li, number, is_printed),
              "layer %d ends with index %r, number %r, printed %r", li, info.layer_index, info.layer_number,
              info.is_printed)
        check(not layer or info.line_number == n - 1, "layer %d is left at line %r instead of %d", li, info.line_number, n - 1)
    ranks2 = sorted({z for z, _ in levels})
    for z, number in levels:
        check(number == ranks2.index(z), "the layer at height %r is reported as number %r instead of %r", z, number, ranks2.index(z))
    check(k == len(seen), "%d more calls after the last layer", len(seen) - k)
    check(n == len(before.split("\n")) - 1, "%d lines are visited of %d written", n, len(before.split("\n")) - 1)
    texts = [tuple(x.raw for x in l) for l in g.all_layers]
    rec.nontrivial(len(texts) >= 3 and n >= 3)
    rec.label("identical layers", len(set(texts)) < len(texts))
    rec.label("printed", printed >= 2)
    rec.label("lift", len([l for l in g.all_layers if l]) > printed)
    rec.label("appended lines", bool(case["append"]))
    rec.label("empty program", not n)
    rec.label("heights merged by fewer digits", ok and len(ranks) < len(heights))
    rec.label("heights in thousandths", ok and any(h % (M.SC // 100) for h in heights))
    rec.label("more digits than layers have", ok and bool(heights) and (digits or 0) > 2)


def cents(z, d):
    return round(round(z, 2), d)


@st.composite
def vase_s(draw):
    return dict(draw(case_s()), lines=draw(gen.vase()), vase=1, none=0)


@st.composite
def large_s(draw):
    return {"large": draw(gen.large((300, 3000, 20000))), "append": [], "light": draw(st.booleans()), "none": 0}


def t_large(case, rec):
    t_walk(dict(case, lines=gen.expand(case["large"])), rec)
    rec.label("%d lines" % case["large"]["size"])


SUBS = [Sub("large", large_s(), t_large, 24, 300, rule="programs of hundreds or thousands of lines in at least 3 layers"),
        Sub("vase", vase_s(), t_walk, 600, rule="programs rising with every move, in three layers"),
        Sub("walk", case_s(), t_walk, 4500, rule="programs with three layers and three lines, walked by a recording visitor")]
ASSUMPTIONS = ["programmed heights are equal or at least 0.02 mm apart where layers are compared with the machine",
               "appended lines stay outside the height layers, as append() documents"]
