"""C12: rewriting a line keeps everything the modification does not concern."""
from hypothesis import strategies as st

from checks.c10 import AMOUNT
from checks import c10, c11
from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC
WORDS = st.sampled_from(["S255", "P100", "R2.5", "A1", "K-1", "S0.5", "Q7", "H0", "D3", "L.5", "B-2.", "S", "h", "P",
                         "U10.5", "v-3", "W0", "C7.", "O5", "S+5", "S-.5", "T1", "M5", "G4"])


@st.composite
def case_s(draw):
    o = gen.Opts(inches=draw(st.sampled_from([False] * 5 + [True])), max_lines=28, junk=True,
                 start=[["G28", ""], ["M82", "M83", ""], ["G90", "G90", "G91"]])
    lines = draw(gen.finer(draw(gen.program(o))))
    for k in range(len(lines)):
        # more surplus words, comments and digits on moves than the generator puts there
        l = lines[k].strip()
        if l[:2] in ("G1", "G0") and ";" not in l and "(" not in l and "*" not in l and draw(st.integers(0, 2)) == 0:
            l += " " + draw(WORDS)
            if draw(st.booleans()):
                l += " " + draw(WORDS)
            c = draw(st.sampled_from(["", "", " ; S1 P2", "; X9", " (note) ; more", " (F1)"]))
            lines[k] = l + c
        elif l == "M82":
            lines[k] = draw(st.sampled_from(["M82", "M82", "M82 ; absolute (really)", "m82 (x) ; y", "N5 M82", "M82 S1", "M82;E"]))
    return {"lines": lines, "x": draw(AMOUNT), "y": draw(AMOUNT)}


def others(ev):
    """Words after the command that are no parsed argument."""
    return [(l, t) for l, t in ev.words[1:] if l.lower() not in M.ARGS]


def kept(a, b, skip):
    at = "line %d %r became %r" % (a.idx, a.raw, b.raw)
    check(others(a) == others(b), "%s: the other words change", at)
    check(a.comments == b.comments, "%s: the comments change", at)
    check(set(a.args) == set(b.args), "%s: the arguments are other ones", at)
    for l in a.args:
        if l not in skip:
            check(abs(a.args[l] - b.args[l]) <= (11000 if l == "e" else SC // 1000), "%s: %s changes from %r to %r", at,
                  l.upper(), a.args[l] / SC, b.args[l] / SC)


def note(rec, pairs):
    changed = [a for a, b in pairs if a.raw != b.raw]
    rec.nontrivial(any(others(a) or a.comments or len(a.args) > 2 for a in changed))
    rec.label("surplus words on a rewritten line", any(others(a) for a in changed))
    rec.label("comment on a rewritten line", any(a.comments for a in changed))
    rec.label("line number on a rewritten line", any(a.raw[:1] in "nN" for a in changed))
    rec.label("inch", any(a.imperial for a in changed))


def t_translate(case, rec):
    t = (case["x"] * SC // 1000, case["y"] * SC // 1000)
    out = lib.filtered(case["lines"], ("translate", {"x": case["x"] / 1000.0, "y": case["y"] / 1000.0}))
    pairs = [(a, b) for a, b, _ in c10.pair(M.run(case["lines"]), M.run(out), t)]
    for a, b in pairs:
        check(a.cmd == b.cmd, "line %d %r became %r: another command", a.idx, a.raw, b.raw)
        if a.is_move and not a.rel and ("x" in a.args or "y" in a.args) and any(t):
            kept(a, b, "xy")
        else:
            check(a.raw == b.raw, "line %d %r became %r without need", a.idx, a.raw, b.raw)
    note(rec, pairs)


def t_relative(case, rec):
    out = lib.filtered(case["lines"], ("relative", {}))
    pairs = c11.pair(M.run(case["lines"]), M.run(out))
    for a, b in pairs:
        check(b.cmd == ("M83" if a.cmd == "M82" else a.cmd), "line %d %r became %r: another command", a.idx, a.raw, b.raw)
        if a.is_move and not a.rel_e and "e" in a.args or a.cmd == "M82":
            kept(a, b, "e")
        else:
            check(a.raw == b.raw, "line %d %r became %r without need", a.idx, a.raw, b.raw)
    note(rec, pairs)


RULE = "programs with a rewritten line carrying surplus words, comments or other arguments"


@st.composite
def large_s(draw):
    return {"large": draw(gen.large((300, 3000))), "x": draw(AMOUNT), "y": draw(AMOUNT)}


def t_large(case, rec):
    case = dict(case, lines=gen.expand(case["large"]))
    t_translate(case, rec)
    t_relative(case, rec)


SUBS = [Sub("large", large_s(), t_large, 16, 300, rule=RULE + ", of hundreds or thousands of lines"),
        Sub("translate", case_s(), t_translate, 3000, rule=RULE), Sub("relative", case_s(), t_relative, 3000, rule=RULE)]
ASSUMPTIONS = ["line numbers and checksums are not part of what a line says"]
