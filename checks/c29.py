"""C29: every tool terminates without crashing on every program, and programs do not influence each other."""
import io

from hypothesis import strategies as st

from checks import c21
from pbt import arcs, gen, lib, pristine, slicer
from pbt.harness import Sub, check, sut
from pbt.lib import FILTERS

NUM = st.one_of(st.integers(-300, 300).map(str), st.integers(-200000, 200000).map(lambda v: gen.dec(v, 3)),
                st.sampled_from(["", "", "0", "-0", ".5", "-.25", "5.", "+3", "00012", "0.000001", "123456789012", "-", "+", ".", "-."]))
WORD = st.one_of(st.tuples(st.sampled_from("XYZEFIJ"), NUM), st.tuples(st.sampled_from("XYEZ"), NUM),
                 st.tuples(st.sampled_from("SPRHQABCDKLOUVWxyzefij"), NUM)).map("".join)
CMD = st.one_of(st.sampled_from(["G0", "G1", "G1", "G1", "G2", "G3", "G28", "G90", "G91", "G92", "G92", "M82", "M83", "G20", "G21", "G4"]),
                st.sampled_from(["g1", "G01", "G1.5", "G", "M", "T", "T0", "T1.5", "T-1", "M104", "M101", "M103", "M226", "G10", "G17",
                                 "M117", "N5", "N7 G1", "N G1", "G29", "M0", "D0", "%", ""]))
TAIL = st.one_of(st.just(""), st.just(""), st.just(""), st.sampled_from(sum(c21.TAGS.values(), []) + gen.COMMENTS), st.sampled_from(
    ["*71", "* 3", "(", ")", "()", "(()", "(a(b)c)", ";;", "; external perimeters extrusion width = 0.5mm", "/x",
     "; external perimeters extrusion width = 0.72mm"]))
META = [slicer.cura_profile(400), slicer.cura_profile(700, ()), "(<edgeWidth> 0.72 </edgeWidth>)", "(</extruderInitialization>)",
        "; external perimeters extrusion width = 0.72mm", ";LAYER:0"] + sum(c21.TAGS.values(), [])


@st.composite
def word_line(draw):
    ws = [draw(CMD)] + draw(st.lists(WORD, max_size=6))
    sep = draw(st.sampled_from([" ", " ", " ", "", "  ", "\t"]))
    return sep.join(ws) + draw(st.sampled_from([" ", "", " "])) + draw(TAIL)


CHARS = st.text(st.one_of(st.sampled_from("GMTXYZEFIJN0123456789.-+*();/% "), st.characters(exclude_categories=["Cs"])), max_size=25)


# few values, so that they meet: moves of no length, in line, back and forth, at no feed
SMALL = ["0", "1", "10", "100", "-1", "-10", "0.01", "2000"]
FEEDS = ["0", "60", "600", "-600", "6000", "1"]


@st.composite
def small(draw):
    values = draw(st.lists(st.sampled_from(SMALL), min_size=1, max_size=4))
    feeds = draw(st.lists(st.sampled_from(FEEDS), min_size=1, max_size=3))
    letters = draw(st.sampled_from(["XF", "XF", "XYF", "XYEF", "XYZEF", "XE", "XYZ", "EF", "ZF"]))
    words = st.sampled_from(letters).flatmap(lambda l: st.sampled_from(feeds if l == "F" else values).map(lambda v: l + v))
    line = st.tuples(st.sampled_from(["G1"] * 8 + ["G0", "G0"] + draw(st.lists(st.sampled_from(
        ["G2", "G92", "G28", "G90", "G91", "M82", "M83", "G4", "G20", "G21"]), max_size=4))),
                     st.lists(words, max_size=3), st.sampled_from([""] * 6 + [" I1", " I5 J0", " P100", " P0", " S3"])).map(
        lambda t: " ".join([t[0]] + t[1]) + t[2])
    return draw(st.lists(line, min_size=1, max_size=25))


@st.composite
def wild(draw):
    kind = draw(st.sampled_from(["words", "words", "small", "small", "heights", "machine", "slicer", "arcs", "cut"]))
    if kind == "heights":
        return draw(gen.heights())
    if kind == "small":
        return draw(small())
    if kind == "words":
        return draw(st.lists(st.one_of(word_line(), word_line(), st.sampled_from(META), st.just("")), max_size=40))
    if kind == "machine":
        return draw(gen.program(junk=True, inches=True, max_lines=40))
    if kind == "arcs":
        return draw(arcs.program())
    lines = slicer.render(draw(slicer.job()), draw(st.sampled_from(["slic3r", "cura", "skeinforge"])), rel_e=draw(st.booleans()))[0]
    if kind == "cut":
        # cut off, shuffled or interleaved with anything
        a, b = draw(st.integers(0, len(lines))), draw(st.integers(0, len(lines)))
        how = draw(st.sampled_from(["slice", "drop", "swap", "mix", "mix"]))
        if how == "slice":
            return lines[min(a, b):max(a, b)]
        if how == "drop":
            return lines[:min(a, b)] + lines[max(a, b):]
        if how == "swap":
            return lines[b:] + lines[:a]
        for _ in range(draw(st.integers(1, 5))):
            lines.insert(draw(st.integers(0, len(lines))), draw(st.one_of(word_line(), st.sampled_from(META))))
    return lines


STRETCHES = ("slic3r", "cura", "skeinforge")


def everything(lines, rec):
    """Run every operation on a program."""
    g = lib.load(lines)
    n = len([l for l in lines if l.strip()])
    text = lib.text(g)
    check(text.count("\n") == n or "\r" in text, "%d lines are written for %d", text.count("\n"), n)
    with sut("summarising"):
        g.estimate_duration()
        [g.width, g.depth, g.height, g.filament_length, g.duration, g.layers_count if hasattr(g, "layers_count") else 0]
        [l.duration for l in g.all_layers]
    with sut("comparing"):
        other = lib.load(lines)
        check(g == other, "a program differs from itself")
        check(not (g != other), "a program differs from itself")
        check(not g.diff(other), "a program has differences from itself: %r", g.diff(other))
        g == lib.load([])
        g.diff(lib.load(["G1 X1", "M84"]))
    light = lib.load(lines, cls="LightGCode")
    lib.text(light)
    changed = set()
    for name in sorted(FILTERS):
        kws = [{}]
        if name == "translate":
            kws = [{"x": 1.5, "y": -2.0}, {"x": None, "y": 3.0}]
        elif name in STRETCHES:
            kws = [{}, {"stretch_strength": 2.0, "cross_limit_distance_over_edge_width": 1.0}]
        for kw in kws:
            out = lib.filtered(lines, (name, kw))
            if out != text.split("\n")[:-1]:
                changed.add(name)
            rec.label(name, name in changed)
            # what a tool writes can be read and processed again
            lib.filtered(out, (name, kw))
    out = lib.filtered(lines, ("translate", {"x": 1.0, "y": 1.0}), ("relative", {}), ("pause", {"layers": [0, 1, 5]}))
    m = lib.mod("gcodeutils.gcode_tempcal")
    for cls in (m.GCodeStepTempGradient, m.GCodeContinuousTempGradient):
        g2 = lib.load(lines)
        with sut("writing a temperature gradient"):
            try:
                cls(gcode=g2, start_temp=200, end_temp=220, min_z_change=0.1, steps=5).write(io.StringIO())
                rec.label("gradient")
            except RuntimeError:
                rec.label("gradient refused")
    rec.nontrivial(n >= 3)


def t_everything(case, rec):
    everything(case, rec)


# ------------------------------------------------- many programs, only loaded and summarised
def t_loading(case, rec):
    g = lib.load(case)
    with sut("summarising"):
        [g.width, g.depth, g.height, g.filament_length, g.duration, g.layers_count, g.estimate_duration()]
    check(lib.out_lines(g) == [l.strip() for l in case if l.strip()], "the program is not written as read")
    rec.nontrivial(len(case) >= 3)


# ------------------------------------------------- arbitrary text
def t_text(case, rec):
    g = lib.load(case)
    text = lib.text(g)
    check(text == "".join(l.strip() + "\n" for l in case if l.strip()), "the text is not written as read")
    lib.text(lib.load(case, cls="LightGCode"))
    h = lib.load([])
    for l in case:
        with sut("appending %r" % l):
            h.append(l)
    with sut("using the program"):
        g.estimate_duration()
        check(g == lib.load(case), "a text differs from itself")
        check(not g.diff(lib.load(case)), "a text differs from itself")
    lib.filtered(case, ("translate", {"x": 1.0, "y": 2.0}), ("relative", {}))
    lib.filtered(case, ("pause", {"layers": [0, 1]}))
    r = lib.cli("gcode_mod", [], "".join(l + "\n" for l in case)) if not any("\n" in l or "\r" in l for l in case) else None
    check(r is None or r.rc == 0, "gcode_mod ends with status %r: %r", r and r.rc, r and r.exc)
    rec.nontrivial(sum(bool(l.strip()) for l in case) >= 2)
    rec.label("non-ASCII", any(ord(c) > 127 for l in case for c in l))


# ------------------------------------------------- one program after another
@st.composite
def order_s(draw):
    d = draw(st.sampled_from(["", "", "", "slic3r", "cura", "skeinforge"]))
    if d:
        # programs of one slicer
        progs = [slicer.render(j, d, rel_e=draw(st.booleans()))[0]
                 for j in draw(st.lists(slicer.job(max_layers=2, max_items=3), min_size=2, max_size=3))]
        return {"programs": progs, "filters": [d], "reuse": draw(st.sampled_from([True, True, False]))}
    progs = draw(st.lists(wild(), min_size=2, max_size=3))
    names = draw(st.lists(st.sampled_from(sorted(FILTERS) + ["slic3r", "cura", "arcs"]), min_size=1, max_size=3))
    return {"programs": progs, "filters": names, "reuse": draw(st.booleans())}


def make(name):
    m, c = FILTERS[name]
    kw = {"x": 1.5, "y": -2.0} if name == "translate" else {}
    return getattr(lib.mod(m), c)(**kw)


def process(objs, names, lines):
    for name in names:
        g = lib.load(lines)
        with sut("applying %s" % name):
            objs[name].filter(g)
        lines = lib.out_lines(g)
    return lines


def order_alone(case, k):
    return process({n: make(n) for n in case["filters"]}, case["filters"], case["programs"][k])


def order_sequence(case):
    """One program after another."""
    objs = {n: make(n) for n in case["filters"]}
    res = []
    for p in case["programs"]:
        if not case["reuse"]:
            objs = {n: make(n) for n in case["filters"]}
        res.append(process(objs, case["filters"], p))
    return res


def order_together(case):
    """With the programs loaded before any of them is processed."""
    texts = case["programs"]
    for name in case["filters"]:
        gs = [lib.load(p) for p in texts]
        objs = {name: make(name)}
        for g in gs:
            with sut("applying %s" % name):
                objs[name].filter(g)
        texts = [lib.out_lines(g) for g in gs]
    return texts


def t_order(case, rec):
    fresh = [pristine.call(__name__, "order_alone", case, k) for k in range(len(case["programs"]))]
    for k, got in enumerate(pristine.call(__name__, "order_sequence", case)):
        check(got == fresh[k], "%s give another result for program %d after processing the previous ones", case["filters"], k)
    for k, t in enumerate(pristine.call(__name__, "order_together", case)):
        check(t == fresh[k], "%s give another result for program %d when processed together with others", case["filters"], k)
    rec.nontrivial(any(f != [l.strip() for l in p if l.strip()] for f, p in zip(fresh, case["programs"])) and
                   len({tuple(p) for p in case["programs"]}) > 1)
    for n in case["filters"]:
        rec.label(n)


# ------------------------------------------------- what is reported for one program after another
@st.composite
def reports_s(draw):
    return {"programs": draw(st.lists(st.one_of(gen.heights(), gen.heights(), wild()), min_size=2, max_size=4)),
            "pause": draw(st.integers(0, 3))}


def report(programs, pause):
    res = []
    for p in programs:
        g = lib.load(p)
        with sut("summarising"):
            r = [g.width, g.depth, g.height, g.zmin, g.zmax, g.filament_length, str(g.duration), g.layers_count]
        r += [[(l.z, l.printed, l.duration, len(l)) for l in g.all_layers if l]]
        r.append(lib.filtered(p, ("pause", {"layers": [pause]})))
        res.append(repr(r))
    return res


def t_reports(case, rec):
    alone = [pristine.call(__name__, "report", [p], case["pause"])[0] for p in case["programs"]]
    for k, r in enumerate(pristine.call(__name__, "report", case["programs"], case["pause"])):
        check(r == alone[k], "after others, program %d is reported as %s instead of %s", k, r[:300], alone[k][:300])
    rec.nontrivial(len(set(alone)) > 1)


# ------------------------------------------------- large programs
@st.composite
def large_s(draw):
    unit = draw(st.one_of(small(), arcs.program(), slicer.job(max_layers=1).map(lambda j: slicer.render(j, "slic3r", True)[0]),
                          slicer.job(max_layers=1).map(lambda j: slicer.render(j, "cura", True)[0])))
    return {"spec": {"unit": unit, "size": draw(st.sampled_from([1000, 6000])), "z": draw(st.sampled_from(["none", "up", "revisit"])),
                     "every": draw(st.sampled_from([1, 10]))}, "filter": draw(st.sampled_from(sorted(FILTERS) + ["pause"]))}


def t_large(case, rec):
    lines = gen.expand(case["spec"])
    f = case["filter"]
    kw = {"x": 1.5, "y": -2.0} if f == "translate" else {"layers": [0, 3, 500]} if f == "pause" else {}
    out = lib.filtered(lines, (f, kw))
    rec.label(f)
    rec.nontrivial(out != [l.strip() for l in lines if l.strip()])


SUBS = [Sub("large", large_s(), t_large, 80, 800, rule="programs of at least 1000 lines that the operation changes"),
        Sub("programs", wild(), t_everything, 1600, rule="programs of at least three lines"),
        Sub("loading", st.one_of(small(), small(), gen.heights(), st.lists(word_line(), max_size=15)), t_loading, 16000,
            rule="programs of at least three lines"),
        Sub("text", st.lists(CHARS, max_size=12), t_text, 2500, rule="texts of at least two lines that are not blank"),
        Sub("order", order_s(), t_order, 1200, rule="different programs of which at least one is changed"),
        Sub("reports", reports_s(), t_reports, 1000, rule="programs that are reported differently")]
ASSUMPTIONS = ["numbers of at most twelve digits before the point", "a temperature gradient may be refused with its error"]
