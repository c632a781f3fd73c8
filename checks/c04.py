"""C04: layers partition the program and follow the printing height."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC


@st.composite
def case_s(draw):
    return draw(gen.program(layered=draw(st.booleans()), max_lines=45, inches=draw(st.sampled_from([False] * 4 + [True])),
                            zgrid=draw(st.sampled_from([50, 50, 200, 20, 300]))))


def t_partition(case, rec):
    lines = [l.strip() for l in case if l.strip()]
    g = lib.load(case)
    flat = [l for layer in g.all_layers for l in layer]
    check([l.raw for l in flat] == lines, "the layers concatenated are not the program")
    check(len(g) == len(lines), "len() is %d for %d lines", len(g), len(lines))
    check(len(g.lines) == len(lines), "%d lines in the line list for %d", len(g.lines), len(lines))
    check([l.raw for l in g] == lines, "iterating does not give the program")
    i = 0
    for li, layer in enumerate(g.all_layers):
        for k, l in enumerate(layer):
            check(g.lines[i] is l, "line %d of the list is not line %d of layer %d", i, k, li)
            check(tuple(g.idxs(i)) == (li, k), "index of line %d is %r instead of %r", i, tuple(g.idxs(i)), (li, k))
            i += 1
    rec.nontrivial(sum(1 for l in g.all_layers if l) >= 3)


def t_heights(case, rec):
    evs = M.run(case)
    if not gen.separated(evs):
        rec.label("skipped: heights closer than 0.02 mm")
        return
    g = lib.load(case)
    want = [(h, [ev.raw for ev in s]) for h, s in M.stretches(evs)]
    got = [(l.z, [x.raw for x in l]) for l in g.all_layers if l]
    for (h, ws), (z, gs) in zip(want, got):
        check(ws == gs, "layer at height %r holds %d lines from %r to %r instead of %d lines from %r to %r", z,
              len(gs), gs[0], gs[-1], len(ws), ws[0], ws[-1])
        check(lib.near(z, M.fl(h), 0.006), "layer at height %r reports %r", M.fl(h), z)
    check(len(got) == len(want), "%d layers instead of %d", len(got), len(want))
    rec.nontrivial(len(want) >= 3)
    rec.label("height before first Z", bool(want) and want[0][0] is None)
    rec.label("revisited height", len({h for h, _ in want}) < len(want))
    rec.label("relative Z", any(ev.rel and "z" in ev.args and ev.is_move for ev in evs))
    rec.label("G92 Z", any(ev.kind == "set" and "z" in ev.args for ev in evs))
    rec.label("inch", any(ev.imperial for ev in evs))
    heights = sorted(h / SC for h in M.printed_heights(evs) if h is not None)
    zs = list(g.all_zs)
    check(None not in zs, "a printed layer without a height is reported")
    zs.sort()
    check(len(zs) == len(heights) and all(abs(a - b) <= 0.006 for a, b in zip(zs, heights)),
          "printed heights are %r, reported %r", heights, zs)
    check(g.layers_count == len(heights), "layers_count is %r for %d printed heights", g.layers_count, len(heights))
    rec.label(">=2 printed heights", len(heights) >= 2)
    rec.label("height travelled but not printed", len({h for h, _ in want if h is not None}) > len(heights))
    rec.label("extruding while changing height", any(
        M.extrudes(b) and a.height != b.height for a, b in zip(evs, evs[1:])))


def t_large(case, rec):
    lines = gen.expand(case)
    t_partition(lines, rec)
    t_heights(lines, rec)
    rec.label("%d lines" % case["size"])


def t_slopes(case, rec):
    """Programs that rise a little with every move: cut as the parser sees fit, but at every lift."""
    t_partition(case, rec)
    evs = M.run(case)
    g = lib.load(case)
    n = 0
    for i in range(1, len(evs)):
        a, b = evs[i - 1].height, evs[i].height
        if b is not None and a != b and (a is None or abs(a - b) >= SC // 50):
            check(g.idxs(i)[1] == 0, "line %d %r changes the height from %r to %r, in the middle of layer %d", i, evs[i].raw,
                  M.fl(a), M.fl(b), g.idxs(i)[0])
            n += 1
    top = max([0] + [h for h in M.printed_heights(evs) if h is not None])
    check(abs(max(g.all_zs) - top / SC) <= 0.006, "the highest printed height is %r instead of %r", max(g.all_zs), M.fl(top))
    rec.label(">=3 lifts", n >= 3)


SUBS = [
    Sub("slopes", gen.vase(), t_slopes, 800, rule="programs rising with every move with at least 3 non-empty layers"),
    Sub("large", gen.large(), t_large, 32, 400, rule="programs of at least 300 lines in at least 3 layers"),
    Sub("partition", case_s(), t_partition, 2000, rule="programs with at least 3 non-empty layers"),
    Sub("heights", case_s(), t_heights, 2600,
        rule="programs with at least 3 stretches of constant height, heights at least 0.02 mm apart"),
]
ASSUMPTIONS = ["heights of one program are equal or at least 0.02 mm apart (slopes are cut into layers as the parser sees fit)"]
