"""C03: the tracked machine state agrees with executing the program."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC


@st.composite
def case_s(draw):
    lines = draw(gen.finer(draw(gen.program(inches=draw(st.sampled_from([False, False, True])), max_lines=35))))
    home = draw(st.sampled_from([None, None, [0, 0, 0], [10.5, -20.0, 5.25], [100.0, 0, 0], [0, 0, 150.0], [0, -35.0, 0]]))
    return {"lines": lines, "home": home, "cut": draw(st.integers(0, len(lines)))}


def close(a, b):
    b = b / SC
    return a is not None and abs(a - b) <= 1e-6 + 1e-9 * abs(b)


def run(case, lines):
    home = case["home"]
    g = lib.load(lines, home_pos=tuple(home) if home else None)
    evs = M.run(lines, tuple(int(h * SC) for h in home) if home else (0, 0, 0))
    return g, evs


def end_state(g, m, lines):
    where = "after %r" % lines[-1:]
    check(all(close(a, b) for a, b in zip(g.current_pos, m.pos)), "%s the machine is at %r, tracked %r", where,
          [p / SC for p in m.pos[:3]], g.current_pos)
    check(all(close(a, b - o) for a, b, o in zip(g.abs_pos, m.pos, m.offs)),
          "%s the position in the coordinate system is %r, tracked %r", where,
          [(p - o) / SC for p, o in zip(m.pos[:3], m.offs)], g.abs_pos)
    check(close(g.current_e, m.pos[3]), "%s the extruder is at %r, tracked %r", where, m.pos[3] / SC, g.current_e)
    check(close(g.abs_e, m.pos[3] - m.offs[3]), "%s the extruder coordinate is %r, tracked %r", where,
          (m.pos[3] - m.offs[3]) / SC, g.abs_e)
    check(bool(g.relative) == m.rel, "%s relative is %r", where, g.relative)
    check(bool(g.relative_e) == m.rel_e, "%s relative_e is %r", where, g.relative_e)
    check(bool(g.imperial) == m.imperial, "%s imperial is %r", where, g.imperial)
    check(g.current_tool == m.tool, "%s the tool is %r, tracked %r", where, m.tool, g.current_tool)
    check(close(g.current_f, m.f), "%s the feed is %r, tracked %r", where, m.f / SC, g.current_f)


def t_lines(case, rec):
    lines = case["lines"]
    g, evs = run(case, lines)
    if case["home"]:
        check(list(g.home_pos) == case["home"], "the home position is %r, given %r", g.home_pos, case["home"])
    check(len(g.lines) == len(evs), "%d lines read for %d", len(g.lines), len(evs))
    for ev, l in zip(evs, g.lines):
        if ev.cmd is None:
            continue
        for k, n in enumerate(("current_x", "current_y", "current_z", "current_e")):
            check(close(getattr(l, n), ev.end[k]), "after line %d %r %s is tracked as %r, the machine is at %r",
                  ev.idx, ev.raw, n, getattr(l, n), ev.end[k] / SC)
        check(close(l.current_f, ev.f), "at line %d %r the feed is tracked as %r instead of %r", ev.idx, ev.raw,
              l.current_f, ev.f / SC)
        if ev.kind == "move":
            check(bool(l.is_move), "line %d %r is not known to be a move", ev.idx, ev.raw)
            check(bool(l.relative) == ev.rel and bool(l.relative_e) == ev.rel_e,
                  "line %d %r: tracked modes relative=%r relative_e=%r", ev.idx, ev.raw, l.relative, l.relative_e)
            check(l.current_tool == ev.tool, "line %d %r: tracked tool %r instead of %r", ev.idx, ev.raw,
                  l.current_tool, ev.tool)
            check(bool(l.extruding) == M.extrudes(ev), "line %d %r feeds %r mm but extruding is %r", ev.idx,
                  ev.raw, ev.de / SC, l.extruding)
        else:
            check(not l.is_move, "line %d %r is taken for a move", ev.idx, ev.raw)
            check(not l.extruding, "line %d %r is taken for an extrusion", ev.idx, ev.raw)
    note(rec, evs)


def note(rec, evs):
    moves = sum(1 for ev in evs if ev.moves_xy)
    rec.nontrivial(moves >= 2 and any(ev.kind in ("set", "home") or ev.cmd in ("G91", "M83", "G20") for ev in evs))
    rec.label("move after G92", any(a.kind == "set" for a in evs) and moves > 0)
    rec.label("G28 partial", any(0 < len(ev.homed) < 3 for ev in evs))
    rec.label("bare G92", any(len(ev.set_axes) == 4 for ev in evs))
    rec.label("relative move", any(ev.is_move and ev.rel for ev in evs))
    rec.label("inch", any(ev.imperial for ev in evs))
    rec.label("extruding after G92 E", any(M.extrudes(ev) and ev.offs[3] for ev in evs))


def t_state(case, rec):
    lines = case["lines"][:case["cut"]]
    home = case["home"]
    g, evs = run(case, lines)
    m = M.Machine(tuple(int(h * SC) for h in home) if home else (0, 0, 0))
    for l in lines:
        if l.strip():
            m.step(l.strip())
    end_state(g, m, lines)
    # and the state goes on being right when lines are appended
    for l in case["lines"][case["cut"]:]:
        lib.mod("gcodeutils.gcoder")
        g.append(l)
        if l.strip():
            m.step(l.strip())
    end_state(g, m, case["lines"])
    note(rec, evs)


@st.composite
def large_s(draw):
    return dict(draw(case_s()), lines=None, large=draw(gen.large((300, 3000), inches=True)), cut=draw(st.integers(0, 3000)))


def t_large(case, rec):
    case = dict(case, lines=gen.expand(case["large"]))
    t_lines(case, rec)
    t_state(case, rec)


SUBS = [
    Sub("large", large_s(), t_large, 24, 300, rule="the same on programs of hundreds or thousands of lines"),
    Sub("lines", case_s(), t_lines, 3000,
        rule="programs with two moves and a G92, G28, G91, M83 or G20, against a reference machine in exact arithmetic"),
    Sub("state", case_s(), t_state, 2000,
        rule="the end state of a prefix and of the rest appended; prefix with two moves and a mode or position command"),
]
