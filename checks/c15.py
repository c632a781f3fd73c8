"""C15: a pause is inserted once, at the start of the requested printed layer."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC


@st.composite
def layers_s(draw):
    """Slicer-like output: printed layers, lifts, revisited heights, second objects."""
    lines = []
    rel_e = draw(st.booleans())
    if draw(st.booleans()):
        lines += ["G28"]
    if draw(st.booleans()):
        lines += ["G90"]
    lines += ["M83"] if rel_e else ["M82", "G92 E0"]
    e = 0
    if draw(st.sampled_from([0] * 12 + [1])):
        # many printed heights
        heights = [20 * v for v in range(1, draw(st.integers(10, 40)))]
        h0 = draw(st.sampled_from([0, 40, 10000]))
        for h in heights:
            d = draw(st.integers(0, 3)) * 1000
            e = d if rel_e else e + d
            lines += ["G1 Z%s" % gen.dec(h0 + h), "G1 X%d Y%d E%s" % (h % 7, h % 11, gen.dec(e, 5))]
        return lines
    heights = [20 * v for v in draw(st.lists(st.integers(1, 60), min_size=1, max_size=6, unique=True))]
    if draw(st.booleans()):
        heights.sort()
    offset = draw(st.sampled_from([0, 0, 5, 125, -10])) if min(heights) > 10 else 0
    heights = [h + offset for h in heights]
    if draw(st.booleans()):
        lines.append("G1 Z%s F7800" % gen.dec(draw(st.sampled_from(heights + [5000, 10000]))))
    for _ in range(draw(st.integers(1, 12))):
        h = draw(st.sampled_from(heights))
        kind = draw(st.sampled_from(["layer", "layer", "layer", "hop", "lift", "travel", "note", "rel", "same"]))
        if kind != "note":
            lines.append("G1 Z%s" % gen.dec(h) + draw(st.sampled_from(["", " F7800", " X1 Y1", " ; up"])))
        if kind in ("layer", "same", "rel"):
            for _ in range(draw(st.integers(1, 3))):
                d = draw(st.integers(1, 500)) * 100
                e = d if rel_e else e + d
                lines.append("G1 X%d Y%d E%s" % (draw(st.integers(0, 99)), draw(st.integers(0, 99)), gen.dec(e, 5)))
        elif kind == "hop":
            lines.append("G1 Z%s" % gen.dec(h + 400))
            lines.append("G0 X%d" % draw(st.integers(0, 99)))
            lines.append("G1 Z%s" % gen.dec(h))
        elif kind == "lift":
            lines.append("G1 Z%s" % gen.dec(draw(st.sampled_from(heights))))
        elif kind == "travel":
            lines.append("G0 X%d Y%d" % (draw(st.integers(0, 99)), draw(st.integers(0, 99))))
        elif kind == "note":
            lines.append(draw(st.sampled_from(["; layer", "M106", "M226", "T1"])))
        if kind == "rel":
            lines += ["G91", "G1 Z0.4", "G1 Z-0.4", "G90"] + (["M83"] if rel_e else ["M82"])
    return lines


@st.composite
def case_s(draw):
    if draw(st.integers(0, 3)):
        lines = draw(layers_s())
    else:
        lines = draw(gen.program(layered=True, max_lines=30, zgrid=draw(st.sampled_from([50, 25, 20])), junk=True))
    return {"lines": lines, "layers": draw(st.one_of(st.integers(0, 3).map(lambda n: [n]),
                                                     st.lists(st.integers(-1, 6), max_size=4),
                                                     st.lists(st.integers(-1, 30), max_size=4)))}


def starts(evs):
    """For each printed height in order: the index of the line beginning its first stretch that feeds filament."""
    first = {}
    visits = {}
    for h, run in M.stretches(evs):
        if h is None:
            continue
        visits[h] = visits.get(h, 0) + 1
        if h not in first and any(M.extrudes(ev) for ev in run):
            first[h] = (run[0].idx, visits[h])
    return [first[h] for h in sorted(first)], {h: visits[h] for h in first}


def expected(evs, layers):
    where, _ = starts(evs)
    at = {where[n][0] for n in layers if 0 <= n < len(where)}
    out = []
    for ev in evs:
        if ev.idx in at:
            out.append("M226")
        out.append(ev.raw)
    return out, at


def compare(got, want, what):
    if got == want:
        return
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else "(end)"
        w = want[k] if k < len(want) else "(end)"
        check(g == w, "%s: line %d of the output is %r instead of %r", what, k, g, w)


def note(rec, evs, layers, at):
    where, visits = starts(evs)
    rec.nontrivial(bool(at) and len(where) >= 2)
    rec.label("paused", bool(at))
    rec.label("height visited before it is printed", any(where[n][1] > 1 for n in layers if 0 <= n < len(where)))
    rec.label("height left and visited again", any(v > 1 for v in visits.values()))
    rec.label("no such layer", any(not 0 <= n < len(where) for n in layers))
    rec.label("two pauses", len(at) > 1)


def usable(evs):
    return gen.separated(evs)


def t_library(case, rec):
    evs = M.run(case["lines"])
    if not usable(evs):
        return
    g = lib.load(case["lines"])
    lib.pause(g, case["layers"])
    want, at = expected(evs, case["layers"])
    compare(lib.out_lines(g), want, "pausing at %r" % case["layers"])
    note(rec, evs, case["layers"], at)


def t_cli(case, rec):
    evs = M.run(case["lines"])
    if not usable(evs):
        return
    n = case["layers"][:1] or [0]
    r = lib.cli_ok("gcode_mod", ["-p=%d" % n[0]], "".join(l + "\n" for l in case["lines"]))
    want, at = expected(evs, n)
    compare(r.out.split("\n")[:-1], want, "gcode_mod -p %d" % n[0])
    note(rec, evs, n, at)


def t_visitor_reuse(case, rec):
    """One pause visitor and one iterator per program, the visitor used for two programs."""
    progs = [case["lines"], case["other"]]
    evs = [M.run(p) for p in progs]
    if not all(usable(e) for e in evs):
        return
    pal = lib.mod("gcodeutils.visit.pause_at_layer").PauseAtLayer(case["layers"])
    it = lib.mod("gcodeutils.visit.iterator").GCodeIterator
    for p, e in zip(progs, evs):
        g = lib.load(p)
        it(g).accept(pal)
        want, at = expected(e, case["layers"])
        compare(lib.out_lines(g), want, "pausing at %r" % case["layers"])
        note(rec, e, case["layers"], at)


@st.composite
def two_s(draw):
    c = draw(case_s())
    c["other"] = draw(layers_s())
    return c



@st.composite
def large_s(draw):
    n = draw(st.sampled_from([300, 1000, 4000]))
    return {"n": n, "step": draw(st.sampled_from([20, 50, 75, 200, 305])), "hop": draw(st.sampled_from([0, 0, 7, 400])),
            "twice": draw(st.booleans()), "moves": draw(st.sampled_from([1, 2, 9])), "rel": draw(st.booleans()),
            "layers": draw(st.lists(st.one_of(st.integers(0, n), st.integers(n - 2, n + 1), st.sampled_from([0, 255, 256, 257])),
                                    min_size=1, max_size=9))}


def t_large(case, rec):
    """Very many printed heights."""
    lines = ["G90", "M83" if case["rel"] else "M82"]
    e = 0
    for turn in range(2 if case["twice"] else 1):
        for k in range(case["n"]):
            z = 300 + k * case["step"]
            lines.append("G1 Z%s" % gen.dec(z))
            for m in range(case["moves"]):
                e = 7 if case["rel"] else e + 7
                lines.append("G1 X%d Y%d E%s" % (m, k % 50, gen.dec(e, 2)))
            if case["hop"] and k % case["hop"] == 3:
                lines += ["G1 Z%s" % gen.dec(z + 1000 * case["hop"]), "G0 X0 Y0"]
    t_library({"lines": lines, "layers": case["layers"]}, rec)
    rec.label("%d heights" % case["n"])


@st.composite
def vase_s(draw):
    return {"lines": draw(gen.vase()), "layers": draw(st.lists(st.integers(0, 12), min_size=1, max_size=4))}


def t_vase(case, rec):
    """Slopes are cut into layers as the parser sees fit; the printed ones are those a pause can be requested at."""
    evs = M.run(case["lines"])
    starts, k = {}, 0
    for layer in lib.load(case["lines"]).all_layers:
        if any(M.extrudes(e) and e.height is not None for e in evs[k:k + len(layer)]):
            starts.setdefault(round(layer.z, 2), k)
        k += len(layer)
    firsts = [starts[z] for z in sorted(starts)]
    at = {firsts[n] for n in case["layers"] if 0 <= n < len(firsts)}
    want = []
    for k, ev in enumerate(evs):
        want += ["M226"] * (k in at) + [ev.raw]
    g = lib.load(case["lines"])
    lib.pause(g, case["layers"])
    compare(lib.out_lines(g), want, "pausing at %r" % case["layers"])
    rec.nontrivial(bool(at) and len(firsts) >= 3)
    rec.label("several pauses", len(at) >= 2)


RULE = "a pause at an existing layer of a program with two printed heights"
SUBS = [Sub("vase", vase_s(), t_vase, 600, rule="a pause at a layer of a program rising with every move, of three printed layers"),
        Sub("large", large_s(), t_large, 24, 300, rule=RULE + ", of hundreds or thousands of lines"),
        Sub("library", case_s(), t_library, 4000, rule=RULE), Sub("cli", case_s(), t_cli, 1500, rule=RULE),
        Sub("reuse", two_s(), t_visitor_reuse, 500, rule=RULE)]
ASSUMPTIONS = ["programmed heights are equal or at least 0.02 mm apart",
               "filament fed before any height is programmed belongs to no printed layer"]
