"""C21: stretching touches nothing but the moves of visible shells."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M, slicer
from pbt.harness import Sub, check

SC = M.SC
DIALECTS = ["slic3r", "cura", "skeinforge"]


@st.composite
def case_s(draw):
    j = draw(slicer.job(max_layers=4, max_items=6))
    return {"job": j, "dialect": draw(st.sampled_from(DIALECTS)), "settings": draw(slicer.SETTINGS),
            "eol": draw(st.booleans())}


def others(ev):
    return [(l, t) for l, t in ev.words[1:] if l.lower() not in M.ARGS]


def same_but_point(a, b):
    """A stretched line keeps everything but the values of its arguments."""
    at = "line %d %r became %r" % (a.idx, a.raw, b.raw)
    check(a.cmd == b.cmd, "%s: another command", at)
    check(others(a) == others(b), "%s: other words", at)
    check(a.comments == b.comments, "%s: other comments", at)
    check(set(b.args) - set("xy") == set(a.args) - set("xy"), "%s: other arguments", at)


def t_select(case, rec):
    d = case["dialect"]
    lines, truth = slicer.render(case["job"], d)
    src = [l + "\n" for l in lines] if case["eol"] else lines
    out = lib.filtered(src, (d, case["settings"]))
    a, b = M.run(lines), M.run(out)
    check(len(a) == len(b), "%d lines became %d", len(a), len(b))
    for x, y, t in zip(a, b, truth):
        if t is None:
            check(x.raw == y.raw, "line %d %r is in no visible shell, but became %r", x.idx, x.raw, y.raw)
        else:
            same_but_point(x, y)
    loops = {t[0] for t in truth if t}
    moved = [x for x, y in zip(a, b) if x.raw != y.raw]
    rec.nontrivial(len(moved) >= 3 and any(it["t"] == "fill" for l in case["job"]["layers"] for it in l) or len(loops) > 1)
    rec.label(d)
    rec.label("several loops", len(loops) > 1)
    rec.label("lift inside a layer", any(it.get("travel") == "lift" for it in slicer.job_loops(case["job"])))
    rec.label("command inside a loop", any(it["in"] for it in slicer.job_loops(case["job"])))


def t_zero(case, rec):
    d = case["dialect"]
    lines, truth = slicer.render(case["job"], d)
    s = dict(case["settings"])
    s["stretch_strength"] = 0.0
    out = lib.filtered(lines, (d, s))
    a, b = M.run(lines), M.run(out)
    check(len(a) == len(b), "%d lines became %d", len(a), len(b))
    for x, y in zip(a, b):
        check(x.cmd == y.cmd, "without strength line %d %r became %r", x.idx, x.raw, y.raw)
        for l in set(x.args) | set(y.args):
            if l in "xy" and l not in x.args:
                continue
            check(l in x.args and l in y.args and abs(x.args[l] - y.args[l]) <= SC // 2000,
                  "without strength line %d %r became %r", x.idx, x.raw, y.raw)
        for k in range(3):
            check(abs(x.end[k] - y.end[k]) <= SC // 2000, "without strength line %d %r became %r", x.idx, x.raw, y.raw)
    rec.nontrivial(any(truth))
    rec.label(d)


# ------------------------------------------------- arbitrary programs with slicer comments sprinkled over them
TAGS = {"slic3r": ["; perimeter", "; perimeter external", "; perimeter external", "; move to first perimeter point",
                   "; infill", "; move inwards before travel", "; support material", "; skirt"],
        "cura": [";TYPE:WALL-OUTER", ";TYPE:WALL-INNER", ";TYPE:SKIN", ";TYPE:FILL", ";TYPE:SUPPORT", ";TYPE:SKIRT", ";LAYER:3"],
        "skeinforge": ["(<edge> outer )", "(<edge> inner )", "(<loop> inner )", "(</edge>)", "(</loop>)", "M101", "M103",
                       "(<perimeterPath>)", "(<layer> 0.4 )"]}


@st.composite
def wild_s(draw):
    d = draw(st.sampled_from(DIALECTS))
    o = gen.Opts(max_lines=45, min_lines=5, comments=False, decorate=draw(st.booleans()), layered=True,
                 start=[["G90", ""], ["M83", "M83", "M82", ""]], g92=draw(st.booleans()), rel=draw(st.booleans()))
    res = []
    for l in draw(gen.program(o)):
        k = draw(st.integers(0, 9))
        if d == "slic3r":
            if k < 7:
                l = l + " " + draw(st.sampled_from(TAGS[d][:4] if k < 5 else TAGS[d]))
        elif k < 3:
            res.append(draw(st.sampled_from(TAGS[d][:3] if k < 2 else TAGS[d])))
        res.append(l)
    return {"dialect": d, "lines": res, "settings": draw(slicer.SETTINGS)}


def visible(raws, d):
    """For each line, whether the comments put it in a visible shell."""
    res, state = [], False
    for raw in raws:
        if d == "slic3r":
            res.append("; perimeter" in raw or "; move to first perimeter point" in raw)
            continue
        if d == "cura":
            if ";TYPE:" in raw or ";LAYER:" in raw:
                state = any("TYPE:" + t in raw for t in ("WALL-OUTER", "WALL-INNER", "SKIN")) and "SKIRT" not in raw
        elif raw.startswith(("(<edge>", "(<loop>")):
            state = True
        elif raw.startswith(("(</edge>)", "(</loop>)")):
            state = False
        res.append(state)
    return res


def t_wild(case, rec):
    d = case["dialect"]
    out = lib.filtered(case["lines"], (d, case["settings"]))
    a, b = M.run(case["lines"]), M.run(out)
    check(len(a) == len(b), "%d lines became %d", len(a), len(b))
    n = 0
    for x, y, v in zip(a, b, visible([x.raw for x in a], d)):
        if x.cmd in M.LINEAR and ("x" in x.args or "y" in x.args) and not x.rel and v:
            same_but_point(x, y)
            n += x.raw != y.raw
        else:
            check(x.raw == y.raw, "line %d %r is no absolute X/Y move of a visible shell, but became %r", x.idx, x.raw, y.raw)
    rec.nontrivial(0 < n < len(a))
    rec.label(d)
    rec.label("stretched", n > 0)
    rec.label("relative", any(x.rel for x in a))


SUBS = [Sub("select", case_s(), t_select, 3000, rule="slicer programs with stretched moves next to infill or other loops"),
        Sub("zero", case_s(), t_zero, 1200, rule="slicer programs with loops"),
        Sub("wild", wild_s(), t_wild, 3000, rule="arbitrary programs with sprinkled slicer comments where some lines are stretched")]
ASSUMPTIONS = ["Cura keeps commands other than moves out of the middle of its sections or leaves them where they are; both are generated"]
