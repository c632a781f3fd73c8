"""C10: translation moves the whole toolpath by exactly the requested amount."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC
AMOUNT = st.one_of(st.sampled_from([0, 0, 1000, -1000, 10000, 25400, -50000]), st.integers(-150000, 150000),
                   st.sampled_from([1, 5, 999999, -1234567, 250000000]))


@st.composite
def case_s(draw):
    o = gen.Opts(inches=draw(st.sampled_from([False] * 3 + [True])), max_lines=32,
                 start=[["G28", "G28 X0 Y0", "G28 Y", ""], ["G90", "G90", "G91", "", ""]])
    return {"lines": draw(gen.finer(draw(gen.program(o)))), "x": draw(AMOUNT), "y": draw(AMOUNT)}


def pair(ins, outs, t):
    """Match the output events with the input ones; yields (in, out, translation inserted before).

    The single kind of surplus line allowed is one travel in relative mode before the first X/Y move after homing."""
    mode = None
    homed = [False, False]
    k = 0
    res = []
    for a in ins:
        if a.cmd in ("G90", "G91"):
            mode = a.cmd
        inserted = None
        if a.kind == "home":
            for x in a.homed:
                if x < 2:
                    homed[x] = True
        if a.is_move and mode is not None and ("x" in a.args or "y" in a.args):
            if mode == "G91":
                want = [t[x] if homed[x] else 0 for x in (0, 1)]
                if any(want):
                    check(k < len(outs), "the output ends before line %d %r", a.idx, a.raw)
                    inserted = outs[k]
                    check(inserted.cmd in M.LINEAR and inserted.rel and
                          not (set(inserted.args) - {"x", "y"}), "before the first relative move after homing, "
                          "%r, stands %r instead of a travel by the translation", a.raw, inserted.raw)
                    for x in (0, 1):
                        d = inserted.end[x] - inserted.start[x]
                        check(abs(d - want[x]) <= tol(0, a.imperial), "the inserted travel %r moves axis %s by %r "
                              "instead of %r", inserted.raw, "XY"[x], d / SC, want[x] / SC)
                    k += 1
                homed = [False, False]
            else:
                for x, l in enumerate("xy"):
                    if l in a.args:
                        homed[x] = False
        check(k < len(outs), "the output ends before line %d %r", a.idx, a.raw)
        res.append((a, outs[k], inserted))
        k += 1
    check(k == len(outs), "the output goes on after the last line with %r", outs[k].raw if k < len(outs) else "")
    return res


def tol(n, imperial):
    return int((0.0011 + 0.0006 * n) * SC)


def t_translate(case, rec):
    t = (case["x"] * SC // 1000, case["y"] * SC // 1000)
    lines = case["lines"]
    out = lib.filtered(lines, ("translate", {"x": case["x"] / 1000.0, "y": case["y"] / 1000.0}))
    ins, outs = M.run(lines), M.run(out)
    n92 = 0
    mode = None
    moved = [0, 0]
    displaced = [0, 0]
    absolute = 0
    for a, b, inserted in pair(ins, outs, t):
        at = "line %d %r became %r" % (a.idx, a.raw, b.raw)
        if inserted is not None:
            for k in (0, 1):
                displaced[k] += inserted.end[k] - inserted.start[k]
            rec.label("inserted travel")
        if a.cmd in ("G90", "G91"):
            mode = a.cmd
        check(a.cmd == b.cmd, "%s: another command", at)
        if a.kind == "set":
            n92 += 1
        for k in (0, 1):
            da, db = a.end[k] - a.start[k], b.end[k] - b.start[k]
            e = tol(n92, a.imperial)
            if a.kind == "home":
                if k in a.homed:
                    displaced[k] = 0
                    check(b.end[k] == a.end[k], "%s: homes elsewhere", at)
                continue
            if a.is_move and "xy"[k] in a.args and not a.rel and mode is not None:
                displaced[k] = t[k]
                absolute += 1
                check(abs(b.end[k] - a.end[k] - t[k]) <= e, "%s: the original goes to %s %r, the translated program to "
                      "%r instead of %r", at, "XY"[k], a.end[k] / SC, b.end[k] / SC, (a.end[k] + t[k]) / SC)
            elif a.is_move:
                if mode is None and "xy"[k] in a.args:
                    # left alone: it goes where the unchanged word says
                    check(a.args["xy"[k]] == b.args.get("xy"[k]), "%s: a move before any positioning mode is changed", at)
                    displaced[k] = b.end[k] - a.end[k]
                elif a.rel:
                    check(abs(db - da) <= 1000, "%s: a relative move by %s %r is now by %r", at, "XY"[k], da / SC, db / SC)
            else:
                check(db == 0, "%s: moves", at)
            check(abs(b.end[k] - a.end[k] - displaced[k]) <= e, "%s: %s is off by %r instead of %r", at, "XY"[k],
                  (b.end[k] - a.end[k]) / SC, displaced[k] / SC)
        check(abs(a.end[2] - b.end[2]) <= tol(n92, a.imperial), "%s: Z changes from %r to %r", at, a.end[2] / SC,
              b.end[2] / SC)
        check(abs(a.de - b.de) <= 20000, "%s: the extrusion changes from %r to %r", at, a.de / SC, b.de / SC)
        check(abs(a.f - b.f) <= SC // 500, "%s: the feed changes from %r to %r", at, a.f / SC, b.f / SC)
        for l in "ij":
            check((l in a.args) == (l in b.args) and abs(a.args.get(l, 0) - b.args.get(l, 0)) <= SC // 1000,
                  "%s: the arc centre changes", at)
        check((a.rel, a.rel_e, a.tool, a.imperial) == (b.rel, b.rel_e, b.tool, b.imperial), "%s: modes differ", at)
        if a.kind in ("other", "none", "dwell"):
            check(a.raw == b.raw, "%s: it is no move", at)
        if t[0] == t[1] == 0:
            check(a.end[:3] == b.end[:3] or all(abs(p - q) <= tol(0, 0) for p, q in zip(a.end, b.end)),
                  "%s: a zero translation moves it", at)
    note(rec, ins, t, absolute)


def note(rec, ins, t, absolute):
    rec.nontrivial(absolute >= 2 and any(t))
    seen = set()
    for ev in ins:
        if ev.is_move and not ev.rel and ev.cmd and ("x" in ev.args or "y" in ev.args):
            if "g92xy" in seen:
                rec.label("absolute move after G92 XY after an absolute move")
            if "home" in seen:
                rec.label("absolute move after G28")
            seen.add("abs")
        if ev.kind == "set" and (0 in ev.set_axes or 1 in ev.set_axes) and "abs" in seen:
            seen.add("g92xy")
        if ev.kind == "home" and "abs" in seen:
            seen.add("home")
        if ev.kind == "set" and ev.set_axes == (3,):
            rec.label("extruder-only G92")
        if ev.kind == "set" and len(ev.set_axes) == 4:
            rec.label("bare G92")
    rec.label("inch", any(ev.imperial and ev.is_move for ev in ins))
    rec.label("zero", not any(t))


@st.composite
def large_s(draw):
    return {"large": draw(gen.large((300, 3000, 20000))), "x": draw(AMOUNT), "y": draw(AMOUNT)}


def t_large(case, rec):
    t_translate(dict(case, lines=gen.expand(case["large"])), rec)
    rec.label("%d lines" % case["large"]["size"])


SUBS = [Sub("large", large_s(), t_large, 24, 300, rule="programs of hundreds or thousands of lines with two absolute coordinates"),
        Sub("translate", case_s(), t_translate, 5000,
            rule="programs with two absolute X/Y coordinates after a mode command and a non-zero amount, executed before "
                 "and after on the reference machine")]
ASSUMPTIONS = ["the machine follows the parser's documented semantics: G90/G91 switch extruder and axes, a G92 shifts"]
