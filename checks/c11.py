"""C11: conversion to relative extrusion preserves every extrusion."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC


@st.composite
def case_s(draw):
    o = gen.Opts(inches=draw(st.sampled_from([False] * 4 + [True])), max_lines=36,
                 start=[["M82", "M83", "", ""], ["G90", "G91", "", ""]])
    return {"lines": draw(gen.finer(draw(gen.program(o))))}


def pair(ins, outs):
    """(in, out) events; surplus M83 lines are allowed before a move."""
    res = []
    k = 0
    for a in ins:
        if a.is_move and "e" in a.args and k < len(outs) and outs[k].raw == "M83":
            k += 1
        check(k < len(outs), "the output ends before line %d %r", a.idx, a.raw)
        res.append((a, outs[k]))
        k += 1
    check(k == len(outs), "the output goes on after the last line with %r", outs[k].raw if k < len(outs) else "")
    return res


def same_extrusions(ins, outs):
    for a, b in pair(ins, outs):
        at = "line %d %r became %r" % (a.idx, a.raw, b.raw)
        check(b.cmd == ("M83" if a.cmd == "M82" else a.cmd), "%s: another command", at)
        for k, l in enumerate("XYZ"):
            check(abs(a.end[k] - b.end[k]) <= SC // 500, "%s: ends at %s%r instead of %r", at, l, b.end[k] / SC,
                  a.end[k] / SC)
        check(abs(a.f - b.f) <= SC // 500, "%s: feed rate %r instead of %r", at, b.f / SC, a.f / SC)
        check(set(a.args) == set(b.args), "%s: other arguments", at)
        for l in "ij":
            check(abs(a.args.get(l, 0) - b.args.get(l, 0)) <= SC // 500, "%s: %s changes", at, l)
        if not a.is_move:
            check(b.de == 0, "%s: feeds filament", at)
            continue
        check(abs(a.de - b.de) <= 20000, "%s: feeds %r instead of %r", at, b.de / SC, a.de / SC)
        if "e" in b.args:
            check(abs(b.args["e"] - a.de) <= 20000, "%s: the E word is not the amount fed, %r", at, a.de / SC)


def t_convert(case, rec):
    lines = case["lines"]
    out = lib.filtered(lines, ("relative", {}))
    ins, outs = M.run(lines), M.run(out)
    same_extrusions(ins, outs)
    absolute = [a for a in ins if a.is_move and "e" in a.args and not a.rel_e]
    rec.nontrivial(len([a for a in absolute if a.args["e"] != a.de]) >= 2)
    seen = set()
    for a in ins:
        if a.is_move and "e" in a.args:
            if a.rel_e and "abs" in seen:
                seen.add("absrel")
            if not a.rel_e and "absrel" in seen:
                rec.label("absolute, relative and absolute again")
            if not a.rel_e and "g92" in seen:
                rec.label("absolute after G92 E after absolute")
            if not a.rel_e:
                seen.add("abs")
        if a.kind == "set" and 3 in a.set_axes and "abs" in seen:
            seen.add("g92")
            if len(a.set_axes) == 4:
                rec.label("bare G92")
        if a.kind == "set" and 3 not in a.set_axes and "abs" in seen:
            rec.label("G92 without E")
    rec.label("never selects a mode", bool(absolute) and not any(a.cmd in ("M82", "M83", "G90", "G91") for a in ins))
    rec.label("inch", any(a.imperial and a.is_move for a in ins))


def t_large(spec, rec):
    t_convert({"lines": gen.expand(spec)}, rec)
    rec.label("%d lines" % spec["size"])


SUBS = [Sub("large", gen.large((300, 3000, 20000)), t_large, 24, 300, rule="programs of hundreds or thousands of lines with two absolute "
            "extrusions"),
        Sub("convert", case_s(), t_convert, 6000,
            rule="programs with two absolute extrusions that need rewriting, executed before and after on the reference "
                 "machine")]
ASSUMPTIONS = ["G90 and G91 switch axes and extruder, as the parser under test documents"]
