"""C09: batch, incremental and light loading agree; loading has no memory."""
from hypothesis import strategies as st

from pbt import gen, lib, pristine
from pbt.harness import Sub, check, sut

LINE = ("command", "x", "y", "z", "e", "f", "i", "j", "relative", "relative_e", "current_x", "current_y", "current_z",
        "current_e", "current_f", "current_tool", "extruding", "raw")
STATE = ("imperial", "relative", "relative_e", "current_tool", "current_f", "current_pos", "abs_pos", "current_e",
         "abs_e", "total_e", "max_e")
SUMMARY = ("xmin", "xmax", "ymin", "ymax", "zmin", "zmax", "width", "depth", "height", "filament_length", "duration",
           "layers_count")


def eq(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a is not None and b is not None and abs(a - b) <= 1e-9 * (1 + abs(a))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return bool(a) == bool(b) if (a is None or isinstance(a, bool)) and (b is None or isinstance(b, bool)) else False
    return a == b


def line_snap(l):
    return tuple(getattr(l, n) for n in LINE)


def state(g):
    return {n: getattr(g, n) for n in STATE}


def summary(g):
    return {n: getattr(g, n) for n in SUMMARY}


def layers(g):
    return [(l.z, getattr(l, "duration", None), tuple(x.raw for x in l)) for l in g.all_layers]


def same(a, b, what):
    for k in a:
        check(eq(a[k], b[k]), "%s: %s is %r against %r", what, k, b[k], a[k])


@st.composite
def case_s(draw):
    lines = draw(gen.program(inches=draw(st.sampled_from([False, False, True])), layered=draw(st.booleans()),
                             max_lines=30))
    return {"lines": lines, "cut": draw(st.integers(0, len(lines)))}


def t_incremental(case, rec):
    lines, cut = case["lines"], case["cut"]
    whole = lib.load(lines)
    for k in sorted({0, cut}):
        part = lib.load(lines[:k])
        with sut("appending"):
            for l in lines[k:]:
                part.append(l)
        same(state(whole), state(part), "appended from line %d" % k)
        check(len(part.lines) == len(whole.lines), "%d lines after appending, %d at once", len(part.lines),
              len(whole.lines))
        for a, b in zip(whole.lines, part.lines):
            check(all(eq(x, y) for x, y in zip(line_snap(a), line_snap(b))),
                  "appended from line %d, %r is parsed as %r instead of %r", k, a.raw, line_snap(b), line_snap(a))
    # a command that is not stored has the same effect on the state
    part = lib.load(lines[:cut])
    with sut("appending without storing"):
        got = [part.append(l, store=False) for l in lines[cut:] if l.strip()]
    for a, b in zip(whole.lines[len(whole.lines) - len(got):], got):
        check(b is not None and a.raw == b.raw and all(eq(x, y) for x, y in zip(line_snap(a), line_snap(b))),
              "appended unstored, %r is parsed as %r", a.raw, b and line_snap(b))
    same(state(whole), state(part), "appended unstored")
    check([l.raw for l in part.lines] == [l.strip() for l in lines[:cut] if l.strip()], "unstored lines are stored")
    rec.nontrivial(0 < cut < len(lines) and len(lines) >= 4)
    rec.label("state carried over the cut", any(l.strip()[:3] in ("G91", "M83", "G20", "G92") for l in lines[:cut]))


def snap(g):
    return {"state": tuple(sorted((k, repr(v)) for k, v in state(g).items())),
            "summary": tuple(sorted((k, repr(v)) for k, v in summary(g).items())),
            "layers": repr(layers(g)), "zs": repr(sorted(g.all_zs, key=repr)),
            "lines": tuple(line_snap(l) for l in g.lines)}


def t_light(case, rec):
    lines = case["lines"]
    a, b = lib.load(lines), lib.load(lines, "LightGCode")
    check(layers(a) == layers(b), "layers differ: %r against %r", layers(b), layers(a))
    check(sorted(a.all_zs, key=repr) == sorted(b.all_zs, key=repr), "printed heights differ")
    same(state(a), state(b), "memory-light")
    if any(l.strip() for l in lines):
        same(summary(a), summary(b), "memory-light")
    check([tuple(a.idxs(i)) for i in range(len(a))] == [tuple(b.idxs(i)) for i in range(len(b))], "indexes differ")
    rec.nontrivial(len(layers(a)) >= 3)


@st.composite
def two(draw):
    if draw(st.integers(0, 2)) == 0:
        return {"a": draw(gen.heights()), "b": draw(gen.heights())}
    return {"a": draw(gen.program(max_lines=20)), "b": draw(gen.program(max_lines=20, inches=True))}


def loaded(lines, before):
    """What a program is loaded as, after another one was loaded and appended to."""
    if before is not None:
        g = lib.load(before)
        with sut("appending"):
            for l in before:
                g.append(l)
    return snap(lib.load(lines))


def t_memory(case, rec):
    one = pristine.call(__name__, "loaded", case["a"], None)
    two_ = pristine.call(__name__, "loaded", case["a"], case["b"])
    for k in one:
        check(one[k] == two_[k], "loading the same program again gives another %s: %r, first %r", k, two_[k], one[k])
    rec.nontrivial(len(case["a"]) >= 3 and len(case["b"]) >= 3)


def t_ways(case, rec):
    """Deferred loading, callbacks, and data that can be read only once."""
    lines, way = case["lines"], case["cut"] % 4
    cls = "LightGCode" if case["cut"] % 3 == 2 else "GCode"
    want = lib.load(lines, cls)
    seen, ends = [], []

    def line_callback(line):
        seen.append(line_snap(line))

    def layer_callback(gcode, idx):
        ends.append((idx, [l.raw for l in gcode.all_layers[idx]], gcode.all_layers[idx].z))

    c = getattr(lib.mod("gcodeutils.gcoder"), cls)
    kw = {"line_callback": line_callback, "layer_callback": layer_callback} if way % 2 else {}
    with sut("loading"):
        if way < 2:
            g = c(iter(lines), **kw)
        else:
            g = c(deferred=True)
            g.prepare((l for l in lines), **kw)
    a, b = snap(want), snap(g)
    for k in a:
        check(a[k] == b[k], "loaded in another way, %s is %r instead of %r", k, b[k], a[k])
    if way % 2:
        # the memory-light representation shows parsed lines, too
        check(seen == [line_snap(l) for l in lib.load(lines).lines], "the line callback sees %r", seen)
        check([x[-1] for x in seen] == [l.strip() for l in lines if l.strip()], "the line callback sees %r", [x[-1] for x in seen])
        check([x[0] for x in ends] == list(range(len(ends))), "the layer callback is called for layers %r", [x[0] for x in ends])
        for idx, raws, z in ends:
            check(idx < len(g.all_layers) and raws == [l.raw for l in g.all_layers[idx]] and z == g.all_layers[idx].z,
                  "the layer callback is called for layer %d before it is complete", idx)
    rec.nontrivial(len(layers(want)) >= 3 and way > 0)
    rec.label("callbacks", way % 2 == 1)
    rec.label("deferred", way >= 2)


@st.composite
def large_s(draw):
    return {"spec": draw(gen.large(inches=True)), "cut": draw(st.integers(0, 70000))}


def t_large(case, rec):
    lines = gen.expand(case["spec"])
    t_light({"lines": lines}, rec)
    t_incremental({"lines": lines, "cut": case["cut"] % len(lines)}, rec)
    rec.label("%d lines" % case["spec"]["size"])


SUBS = [
    Sub("large", large_s(), t_large, 16, 300, rule="programs of at least 300 lines"),
    Sub("incremental", case_s(), t_incremental, 1600,
        rule="programs of at least 4 lines loaded up to a point strictly inside and appended from there"),
    Sub("light", case_s(), t_light, 1600, rule="programs with at least 3 layers"),
    Sub("ways", case_s(), t_ways, 1000, rule="programs with at least 3 layers loaded deferred or with callbacks"),
    Sub("memory", two(), t_memory, 1000, rule="two programs of at least 3 lines"),
]
