"""C14: programs in inches are treated like the same program in millimetres."""
import math

from hypothesis import strategies as st

from checks.c10 import AMOUNT
from pbt import arcs, gen, lib, machine as M, slicer
from pbt.harness import Sub, check

SC = M.SC


def millimetres(lines):
    """The same program with every length in millimetres and no G20."""
    res = []
    m = M.Machine()
    for l in lines:
        if not l.strip():
            res.append(l)
            continue
        ev = m.step(l.strip())
        if ev.cmd == "G20":
            res.append(" ".join(["G21"] + [a + t for a, t in ev.words[1:]] + ev.comments))
        elif ev.imperial and ev.cmd and ev.cmd[0] == "G" and any(a.lower() in M.ARGS for a, t in ev.words[1:]):
            ws = [ev.cmd]
            for a, t in ev.words[1:]:
                v = M.number(t)
                if a.lower() in M.ARGS and v is not None:
                    t = gen.dec(v * M.INCH // 10, 9)
                ws.append(a + t)
            res.append(" ".join(ws + ev.comments))
        else:
            res.append(l)
    return res


def inch(lines):
    return any(ev.imperial and ev.is_move for ev in M.run(lines))


@st.composite
def program_s(draw):
    o = dict(inches=True, decorate=draw(st.booleans()), max_lines=35, layered=draw(st.booleans()), start=[["G20", "G20", ""]])
    return draw(gen.program(**o))


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= 1e-6 + 1e-9 * abs(b)


def t_state(case, rec):
    mm = millimetres(case)
    ea, eb = M.run(case), M.run(mm)
    assert all(x.end == y.end and x.f == y.f for x, y in zip(ea, eb))
    if not ea:
        return
    if not gen.separated(ea):
        rec.label("skipped: heights too close")
        return
    a, b = lib.load(case), lib.load(mm)
    for ev, x, y in zip(ea, a.lines, b.lines):
        for n in ("x", "y", "z", "e", "f", "i", "j", "current_x", "current_y", "current_z", "current_e", "current_f"):
            check(close(getattr(x, n), getattr(y, n)), "line %d %r: %s is %r, of %r it is %r", ev.idx, x.raw, n, getattr(x, n),
                  y.raw, getattr(y, n))
        for n in ("relative", "relative_e", "extruding", "is_move"):
            check(bool(getattr(x, n)) == bool(getattr(y, n)), "line %d %r: %s is %r, of %r it is %r", ev.idx, x.raw, n,
                  getattr(x, n), y.raw, getattr(y, n))
    for n in ("xmin", "xmax", "ymin", "ymax", "zmin", "zmax", "width", "depth", "height", "filament_length"):
        check(abs(getattr(a, n) - getattr(b, n)) <= 1e-5, "%s is %r, in millimetres %r", n, getattr(a, n), getattr(b, n))
    check([len(l) for l in a.all_layers] == [len(l) for l in b.all_layers], "layers of %r lines, in millimetres of %r",
          [len(l) for l in a.all_layers], [len(l) for l in b.all_layers])
    for k, (x, y) in enumerate(zip(a.all_layers, b.all_layers)):
        check(close(x.z, y.z), "layer %d is at %r, in millimetres at %r", k, x.z, y.z)
        check(abs(x.duration - y.duration) <= 1e-4 + 1e-6 * abs(y.duration), "layer %d takes %r s, in millimetres %r s", k, x.duration,
              y.duration)
    rec.nontrivial(sum(ev.imperial and ev.is_move for ev in ea) >= 2)
    rec.label("units change", len({ev.imperial for ev in ea if ev.is_move}) == 2)


@st.composite
def modify_s(draw):
    steps = []
    for w in draw(st.lists(st.sampled_from(["translate", "relative", "pause"]), min_size=1, max_size=3, unique=True)):
        steps.append([w, {"translate": {"x": draw(AMOUNT) / 1000.0, "y": draw(AMOUNT) / 1000.0}, "relative": {},
                          "pause": {"layers": draw(st.lists(st.integers(0, 4), min_size=1, max_size=2))}}[w]])
    return {"lines": draw(program_s()), "steps": steps}


def moves_alike(what, xs, ys, tol):
    """The same events, ending at the same places and feeding the same amounts."""
    check(len(xs) == len(ys), "%s: %d lines, in millimetres %d", what, len(xs), len(ys))
    for k, (x, y) in enumerate(zip(xs, ys)):
        check(x.kind == y.kind and (x.cmd == y.cmd or (x.cmd, y.cmd) == ("G20", "G21")), "%s: line %d %r, in millimetres %r", what, k,
              x.raw, y.raw)
        d = max(abs(p - q) for p, q in zip(x.end[:3], y.end))
        check(d <= tol * SC, "%s: line %d %r ends %g mm from where %r does in millimetres", what, k, x.raw, d / SC, y.raw)
        # the roundings of relative amounts add up
        d = abs(x.end[3] - y.end[3])
        check(d <= (tol + 0.00001 * k) * SC, "%s: after line %d %r the extruder is %g mm from where it is after %r in millimetres", what, k,
              x.raw, d / SC, y.raw)
        check(abs(x.f - y.f) <= 0.0011 * SC, "%s: line %d %r has another feed rate than %r in millimetres", what, k, x.raw, y.raw)
        check(set(x.args) == set(y.args), "%s: line %d %r, in millimetres %r", what, k, x.raw, y.raw)
        for l in "ij":
            if l in x.args:
                check(abs(x.args[l] - y.args[l]) <= tol * SC, "%s: line %d %r, in millimetres %r", what, k, x.raw, y.raw)


def t_modify(case, rec):
    lines = case["lines"]
    mm = millimetres(lines)
    ea = M.run(lines)
    if not gen.separated(ea):
        rec.label("skipped: heights too close")
        return
    steps = [(n, kw) for n, kw in case["steps"]]
    a, b = M.run(lib.filtered(lines, *steps)), M.run(lib.filtered(mm, *steps))
    what = "after " + " and ".join(n for n, _ in steps)
    # each rewritten relative move may be rounded by half of 0.001 mm, and what G92 counts from is rounded, too
    moves_alike(what, a, b, 0.0011 * (1 + sum(ev.rel and ev.is_move or ev.kind == "set" for ev in ea)))
    rec.nontrivial(any(x.raw != y.raw and x.imperial for x, y in zip(ea, a)) and len(ea) > 4)
    for n, _ in steps:
        rec.label(n)


@st.composite
def arc_s(draw):
    """Clean runs that turn by clearly less than a full turn, between other moves."""
    pen = arcs.Pen()
    draw(arcs.preamble(pen, True))
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(8, 40))
        step = draw(st.floats(2, min(40, 330.0 / n)))
        r, a = draw(st.floats(2, 120)), draw(st.floats(0, 360))
        cx, cy = draw(st.sampled_from([(0, 0), (100, 100), (-20, 55.5)]))
        sign = draw(st.sampled_from([1, -1]))
        flow = draw(st.sampled_from([0.05, 0.3, 0]))
        for k in range(n + 1):
            t = math.radians(a + sign * step * k)
            x, y = cx + r * math.cos(t), cy + r * math.sin(t)
            if k == 0:
                pen.to(x, y, cmd="G0", f=300)
                pen.raw("G1 F120")
            else:
                pen.to(x, y, e=flow * 2 * r * math.sin(math.radians(step / 2)) or None)
        pen.raw(draw(st.sampled_from(["M107", "G92 E0", "G21", "G20", "G92 X1 Y2", "G91", "G90", "M83"])))
        pen.to(draw(st.integers(-50, 150)), draw(st.integers(-50, 150)), e=draw(st.sampled_from([None, 1])))
    return {"lines": pen.lines}


def t_arcs(case, rec):
    lines = case["lines"]
    mm = millimetres(lines)
    ea = M.run(lines)
    a, b = M.run(lib.filtered(lines, ("arcs", {}))), M.run(lib.filtered(mm, ("arcs", {})))
    moves_alike("with arcs", a, b, 0.0022 * (1 + sum(ev.rel and ev.is_move or ev.kind == "set" for ev in ea)))
    rec.nontrivial(any(ev.cmd in ("G2", "G3") and ev.imperial for ev in a))
    rec.label("arc in absolute positioning", any(ev.cmd in ("G2", "G3") and ev.imperial and not ev.rel for ev in a))


@st.composite
def stretch_s(draw):
    j = draw(slicer.job(max_layers=2, max_items=4))
    for l in j["layers"]:
        for it in l:
            if it["t"] == "loop":
                it["pts"] = slicer.tidy([[x // 25, y // 25] for x, y in it["pts"]])
                if len(it["pts"]) < 3:
                    it["pts"] = [[0, 0], [400, 0], [400, 300]]
            elif it["t"] == "cmd" and it["line"] == "G21":
                it["line"] = "M400"
    return {"job": j, "dialect": draw(st.sampled_from(["slic3r", "cura", "skeinforge"])), "settings": draw(slicer.SETTINGS)}


def t_stretch(case, rec):
    lines, truth = slicer.render(case["job"], case["dialect"])
    lines = [l.replace("G21", "G20") if l == "G21" else l for l in lines]
    mm = millimetres(lines)
    s = (case["dialect"], case["settings"])
    src = M.run(lines)
    a, b = M.run(lib.filtered(lines, s)), M.run(lib.filtered(mm, s))
    moves_alike("stretched", a, b, 0.0013)
    d = max(abs(p - q) for x, y in zip(src, a) for p, q in zip(x.end[:2], y.end[:2]))
    rec.nontrivial(d > SC // 100)
    rec.label(case["dialect"])


SUBS = [Sub("state", program_s(), t_state, 2500, rule="programs with at least two moves in inches"),
        Sub("modify", modify_s(), t_modify, 2500, rule="programs with more than four lines where a line in inches is rewritten"),
        Sub("arcs", arc_s(), t_arcs, 1600, rule="programs in inches where an arc is found"),
        Sub("stretch", stretch_s(), t_stretch, 1200, rule="programs where a point moves by more than 0.01 mm")]
ASSUMPTIONS = ["heights of one program are equal or at least 0.02 mm apart"]
