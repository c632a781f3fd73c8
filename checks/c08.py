"""C08: editing a loaded program keeps lines, layers and indexes consistent."""
from hypothesis import strategies as st

from pbt import gen, lib
from pbt.harness import Sub, check, sut

CMD = st.sampled_from(["M226", "G1 X1 Y1", "; note", "M104 S200", "  M106 ", "G1 Z5", "", "   ", "T1", "(c)", "G92 E0",
                       "G1 Z0.3 E5", "M117 x"])


@st.composite
def case_s(draw):
    lines = draw(gen.program(layered=True, max_lines=16, blank=False))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["prepend", "prepend", "rewrite", "append", "append", "pause"]))
        if kind == "pause":
            ops.append([kind, 0, draw(st.lists(st.integers(0, 4), min_size=1, max_size=3))])
        elif kind == "append":
            ops.append([kind, 0, [draw(CMD)]])
        else:
            ops.append([kind, draw(st.integers(0, 30)), draw(st.lists(CMD, max_size=4))])
    return {"lines": lines, "ops": ops, "light": draw(st.sampled_from([False, False, True]))}


def agree(g, model, what):
    got = [[l.raw for l in layer] for layer in g.all_layers]
    check(got == model, "%s the layers hold %r instead of %r", what, got, model)
    flat = [r for layer in model for r in layer]
    check([l.raw for l in g.lines] == flat, "%s the line list is %r instead of %r", what, [l.raw for l in g.lines], flat)
    check(len(g) == len(flat), "%s len() is %d for %d lines", what, len(g), len(flat))
    i = 0
    for li, layer in enumerate(g.all_layers):
        for k, l in enumerate(layer):
            with sut("idxs"):
                ix = tuple(g.idxs(i))
            check(ix == (li, k), "%s the index of line %d (%r) is %r instead of %r", what, i, l.raw, ix, (li, k))
            check(g.lines[i] is l, "%s line %d of the list is another object than line %d of layer %d", what, i, k, li)
            i += 1
    check(lib.out_lines(g) == flat, "%s the written program is not the concatenation of the layers", what)


def t_history(case, rec):
    g = lib.load(case["lines"], "LightGCode" if case["light"] else "GCode")
    model = [[l.raw for l in layer] for layer in g.all_layers]
    agree(g, model, "after loading")
    done = 0
    for n, (kind, li, cmds) in enumerate(case["ops"]):
        if kind == "pause" and not all(model[:-1]):
            continue        # a layer emptied by a rewriting can't be addressed
        if kind == "pause":
            with sut("pausing at %r" % cmds):
                lib.mod("gcodeutils.visit.iterator").GCodeIterator(g).accept(
                    lib.mod("gcodeutils.visit.pause_at_layer").PauseAtLayer(list(cmds)))
            got = [[l.raw for l in layer] for layer in g.all_layers]
            check(len(got) == len(model) and all(a in (b, ["M226"] + b) for a, b in zip(got, model)),
                  "pausing turned the layers %r into %r", model, got)
            rec.label("paused", got != model)
            model = got
            agree(g, model, "after edit %d (%s)" % (n, kind))
            done += 1
            continue
        clean = [c.strip() for c in cmds if c.strip()]
        if kind == "append":
            with sut("append %r" % cmds[0]):
                g.append(cmds[0])
            model[-1] += clean
        else:
            full = [k for k, l in enumerate(model) if l]
            if not full:
                continue
            li = full[li % len(full)]
            if kind == "prepend":
                with sut("prepend_to_layer %r %d" % (cmds, li)):
                    r = g.prepend_to_layer(list(cmds), li)
                model[li] = clean + model[li]
            else:
                with sut("rewrite_layer %r %d" % (cmds, li)):
                    r = g.rewrite_layer(list(cmds), li)
                model[li] = list(clean)
            check(list(r) == clean, "%s returned %r instead of %r", kind, r, clean)
        done += 1
        agree(g, model, "after edit %d (%s)" % (n, kind))
        rec.label(kind)
    rec.nontrivial(done >= 2 and sum(1 for l in model if l) >= 2)
    rec.label("append then prepend to the appended layer", any(a[0] == "append" for a in case["ops"]) and
              any(a[0] == "prepend" for a in case["ops"]))


@st.composite
def large_s(draw):
    c = draw(case_s())
    c["spec"] = draw(gen.large())
    for op in c["ops"]:
        op[1] = draw(st.integers(0, 70000))
    return c


def t_large(case, rec):
    t_history(dict(case, lines=gen.expand(case["spec"])), rec)
    rec.label("%d lines" % case["spec"]["size"])


SUBS = [Sub("large", large_s(), t_large, 24, 300, rule="the same on programs of 300 to 70000 lines"),
        Sub("history", case_s(), t_history, 3600,
            rule="histories of prepend, rewrite and append against a model of lists; two edits on at least two layers")]
ASSUMPTIONS = ["prepend and rewrite address a layer that holds at least one line"]
