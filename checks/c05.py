"""C05: the program summary matches what the program does."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC


@st.composite
def case_s(draw):
    back = []
    if draw(st.integers(0, 9)) == 0:
        # wound back, and fed again in parts that add up to nothing
        n, part = draw(st.integers(2, 9)), draw(st.sampled_from([10000, 33333, 7, 100000, 20000]))
        back = ["M83", "G1 X7 Y-3", "G1 E" + gen.dec(-n * part, 5)] + ["G1 X%d E%s" % (k, gen.dec(part, 5)) for k in range(n)]
        if draw(st.booleans()):
            return back + ["G1 X%d Y9" % draw(st.integers(-9, 99))]
    lines = draw(gen.program(layered=draw(st.booleans()), extrude=draw(st.sampled_from([True] * 5 + [False])),
                             inches=draw(st.sampled_from([False] * 3 + [True])), max_lines=35))
    return back + draw(gen.finer(lines))


def near(name, got, want):
    check(got is not None and abs(got - want) <= 1e-5 + 1e-9 * abs(want), "%s is %r, should be %r", name, got, want)


def t_summary(case, rec, slope=False):
    evs = M.run(case)
    g = lib.load(case)
    if not any(l.strip() for l in case):
        return
    total = best = 0
    for ev in evs:
        if ev.is_move and "e" in ev.args:
            total += ev.de
            best = max(best, total)
    fed = best > 0
    moves = [ev for ev in evs if ev.is_move and (not fed or M.extrudes(ev))]
    for k, a in enumerate("xy"):
        v = [ev.end[k] / SC for ev in moves]
        near(a + "min", getattr(g, a + "min"), min(v) if v else 0.0)
        near(a + "max", getattr(g, a + "max"), max(v) if v else 0.0)
    near("filament_length", g.filament_length, best / SC)
    if slope or gen.separated(evs):
        hs = [h / SC for h in M.printed_heights(evs) if h is not None] + [0.0]
        check(abs(g.zmax - max(hs)) <= 0.006, "zmax is %r, should be %r", g.zmax, max(hs))
        check(abs(g.zmin - min(hs)) <= 0.006, "zmin is %r, should be %r", g.zmin, min(hs))
    near("width", g.width, g.xmax - g.xmin)
    near("depth", g.depth, g.ymax - g.ymin)
    near("height", g.height, g.zmax - g.zmin)
    rec.nontrivial(len(moves) >= 2)
    rec.label("no extrusion", not fed)
    rec.label("travel outside the extruded box", fed and any(
        ev.is_move and not M.extrudes(ev) and (ev.end[0] / SC > g.xmax or ev.end[0] / SC < g.xmin) for ev in evs))
    rec.label("retraction after the maximum", best > total)
    rec.label("shifted coordinates", any(M.extrudes(ev) and any(ev.offs[:2]) for ev in evs))
    rec.label("inch", any(ev.imperial and ev.is_move for ev in evs))



def t_vase(case, rec):
    """Rising with every move: the top is the one where printing ends, whatever the layers."""
    t_summary(case, rec, slope=True)


def t_large(spec, rec):
    t_summary(gen.expand(spec), rec)
    rec.label("%d lines" % spec["size"])


SUBS = [
    Sub("large", gen.large((300, 3000, 20000)), t_large, 24, 300, rule="programs of hundreds or thousands of lines with two moves"),
    Sub("vase", gen.vase(), t_vase, 500, rule="programs rising with every move with two moves that determine the box"),
    Sub("summary", case_s(), t_summary, 3600,
        rule="programs with two moves that determine the box, against the reference machine"),
]
ASSUMPTIONS = ["where the Z extent is compared, heights of one program are equal or at least 0.02 mm apart, or rise with every move"]
