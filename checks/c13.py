"""C13: modifications compose - additive, invertible, idempotent, commuting."""
from hypothesis import strategies as st

from checks.c10 import AMOUNT
from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC


@st.composite
def case_s(draw):
    o = gen.Opts(max_lines=26, start=[["G28", "G28 X0 Y0", ""], ["M82", "M83", "", ""], ["G90", "G90", "G91", ""]],
                 layered=True)
    return {"lines": draw(gen.program(o)), "a": [draw(AMOUNT), draw(AMOUNT)], "b": [draw(AMOUNT), draw(AMOUNT)],
            "p": draw(st.integers(0, 4))}


def mm(v):
    return {"x": v[0] / 1000.0, "y": v[1] / 1000.0}


def original(outs, ins):
    """The events of the output that stand for an input line: travels inserted by a translation and M83 lines are
    recognised as lines the input does not have at that place."""
    res = []
    k = 0
    for n, a in enumerate(ins):
        while k < len(outs) and (not stands_for(a, outs[k]) or
                                 travel(a) and repeats(outs, k) > repeats(ins, n)):
            check(outs[k].cmd in ("G0", "M83"), "unexpected line %r before %r", outs[k].raw, a.raw)
            k += 1
        check(k < len(outs), "the output ends before line %d %r", a.idx, a.raw)
        res.append(outs[k])
        k += 1
    for o in outs[k:]:
        check(False, "the output goes on with %r", o.raw)
    return res


def stands_for(a, b):
    if a.cmd == "M82":
        return b.cmd in ("M82", "M83")
    if a.cmd != b.cmd:
        return False
    if a.kind != "move":
        return a.raw == b.raw
    if set(a.args) != set(b.args):
        return False
    if travel(a):
        # an inserted travel looks like a move of the program: in relative mode those keep their text
        return a.raw == b.raw
    return True


def travel(ev):
    return ev.cmd == "G0" and ev.rel and not set(ev.args) - {"x", "y"}


def repeats(evs, k):
    n = 1
    while k + n < len(evs) and evs[k + n].raw == evs[k].raw:
        n += 1
    return n


def same(xs, ys, ins, what, e=3 * SC // 1000):
    n92 = 0
    for a, x, y in zip(ins, xs, ys):
        n92 += a.kind == "set"
        at = "%s: line %d %r is %r in one program and %r in the other" % (what, a.idx, a.raw, x.raw, y.raw)
        for k in range(3):
            check(abs(x.end[k] - y.end[k]) <= e + n92 * SC // 500, "%s: positions %s %r and %r", at, "XYZ"[k],
                  x.end[k] / SC, y.end[k] / SC)
        check(abs(x.de - y.de) <= 40000, "%s: extrusions %r and %r", at, x.de / SC, y.de / SC)
        check(abs(x.f - y.f) <= SC // 250, "%s: feed rates %r and %r", at, x.f / SC, y.f / SC)


def note(rec, ins, *amounts):
    moves = [a for a in ins if a.is_move and not a.rel and ("x" in a.args or "y" in a.args)]
    rec.nontrivial(len(moves) >= 2 and any(any(v) for v in amounts))
    rec.label("G92 or G28 after a move", any(b.kind in ("set", "home") for b in ins if moves and b.idx > moves[0].idx))


def t_add(case, rec):
    a, b = case["a"], case["b"]
    ins = M.run(case["lines"])
    one = lib.filtered(case["lines"], ("translate", mm([a[0] + b[0], a[1] + b[1]])))
    two = lib.filtered(lib.filtered(case["lines"], ("translate", mm(a))), ("translate", mm(b)))
    same(original(M.run(one), ins), original(M.run(two), ins), ins, "translating by the sum and twice")
    note(rec, ins, a, b)


def t_invert(case, rec):
    a = case["a"]
    ins = M.run(case["lines"])
    back = lib.filtered(lib.filtered(case["lines"], ("translate", mm(a))), ("translate", mm([-a[0], -a[1]])))
    same(ins, original(M.run(back), ins), ins, "translating there and back")
    note(rec, ins, a)


def t_idempotent(case, rec):
    ins = M.run(case["lines"])
    once = lib.filtered(case["lines"], ("relative", {}))
    twice = lib.filtered(once, ("relative", {}))
    x, y = original(M.run(once), ins), original(M.run(twice), ins)
    same(x, y, ins, "converting once and twice")
    for p, q in zip(x, y):
        if "e" in p.args:
            check(abs(p.args["e"] - q.args["e"]) <= 20000, "converting again changes %r to %r", p.raw, q.raw)
    check(len(once) == len(M.run(once)), "converting once and twice")
    rec.nontrivial(len([a for a in ins if a.is_move and "e" in a.args and not a.rel_e]) >= 2)


def t_commute(case, rec):
    a = case["a"]
    ins = M.run(case["lines"])
    one = M.run(lib.filtered(lib.filtered(case["lines"], ("translate", mm(a))), ("relative", {})))
    two = M.run(lib.filtered(lib.filtered(case["lines"], ("relative", {})), ("translate", mm(a))))
    check([e.cmd for e in one] == [e.cmd for e in two], "the order of translation and conversion changes the commands")
    same(one, two, one, "translation and conversion in either order")
    for p, q in zip(one, two):
        check(set(p.args) == set(q.args) and all(abs(p.args[l] - q.args[l]) <= SC // 500 for l in p.args),
              "translation and conversion in either order give %r and %r", p.raw, q.raw)
    note(rec, ins, a)


def t_together(case, rec):
    """One run of gcode_mod with several options, and one run per option."""
    a = case["a"]
    text = "".join(l + "\n" for l in case["lines"])
    args = ["-x=%r" % (a[0] / 1000.0), "-y=%r" % (a[1] / 1000.0)]
    pause = ["-p", str(case["p"])]
    one = lib.cli_ok("gcode_mod", args + ["-e"] + pause, text).out
    two = text
    for step in (args, ["-e"], pause):
        two = lib.cli_ok("gcode_mod", step, two).out
    one, two = M.run(one.split("\n")), M.run(two.split("\n"))
    p1, p2 = pauses(one), pauses(two)
    check(p1 == p2, "the pauses stand in layers %r when requested together and %r one after the other", p1, p2)
    one, two = [[e for e in x if e.cmd != "M226"] for x in (one, two)]
    check([e.cmd for e in one] == [e.cmd for e in two], "requesting modifications together changes the commands")
    same(one, two, one, "together and one after the other")
    rec.nontrivial(any(a) and len(p1) > 0)
    rec.label("paused", len(p1) > 0)
    rec.label("programs with a pause of their own", any(e.cmd == "M226" for e in M.run(case["lines"])))


def pauses(evs):
    """For each M226, how many lines changed the height before it."""
    res = []
    n = 0
    last = None
    for e in evs:
        if e.height != last:
            n += 1
            last = e.height
        if e.cmd == "M226":
            res.append(n)
    return res


SUBS = [Sub("additive", case_s(), t_add, 1500, rule="two absolute moves and a non-zero amount"),
        Sub("invertible", case_s(), t_invert, 1500, rule="two absolute moves and a non-zero amount"),
        Sub("idempotent", case_s(), t_idempotent, 1500, rule="two absolute extrusions"),
        Sub("commuting", case_s(), t_commute, 1500, rule="two absolute moves and a non-zero amount"),
        Sub("together", case_s(), t_together, 1000, rule="a non-zero translation and an existing layer to pause at")]
ASSUMPTIONS = ["compared by execution on the reference machine, to accumulated rounding"]
