"""C20: every clean circular run is turned into an arc."""
import math

from hypothesis import strategies as st

from pbt import arcs, gen, lib, machine as M
from pbt.harness import Sub, check
from checks.c17 import sweep

SC = M.SC


def spelled(line, style, k, pen, was):
    """The same move in another form."""
    code, _, tail = line.partition(" ;")
    tail = " ;" + tail if tail else ""
    ws = code.split()
    if style == "lower":
        return code.lower() + tail
    if style in ("number", "sum"):
        code = "N%d %s" % (k, code)
        return code + ("*%d" % (k % 97) if style == "sum" else tail)
    if style == "nospace":
        return "".join(ws) + tail
    if style == "height":
        z = 0 if pen.m.rel else pen.m.pos[2] - pen.m.offs[2]
        return " ".join(ws[:3] + ["Z" + gen.dec(z // (SC // 1000))] + ws[3:]) + tail
    if style == "swap":
        return " ".join(ws[:1] + ws[:0:-1]) + tail
    if style == "omit":
        now = pen.here()
        same = [l for l, a, b in zip("XY", was, now) if a == b]
        return " ".join(w for w in ws if w[0] not in same) + tail
    return line


@st.composite
def run_s(draw, pen):
    r = draw(st.one_of(st.sampled_from([1, 2, 5, 10, 25, 100, 150]), st.floats(1, 150)))
    cx, cy = draw(st.one_of(st.just((0, 0)), st.tuples(st.floats(-150, 150), st.floats(-150, 150)), st.sampled_from([(5000, -3000), (-123.4567, 0)])))
    start = draw(st.one_of(st.sampled_from([0, 90, 180, 270]), st.floats(0, 360)))
    full = draw(st.sampled_from([False, False, False, True]))
    if full:
        n = draw(st.integers(9, 60))
        step = 360.0 / n
    else:
        step = draw(st.floats(2, 40))
        n = draw(st.integers(8, max(8, min(60, int(355 / step)))))
    sign = draw(st.sampled_from([1, -1]))
    ext = draw(st.booleans())
    f = draw(st.sampled_from(arcs.FEEDS + [1, 59, 12345]))
    before = len(pen.lines)
    if draw(st.booleans()):
        pen.to(cx + r + draw(st.integers(3, 40)), cy - 2, cmd="G0", f=9000)
    if draw(st.integers(0, 2)) == 0:
        # something printed just before
        for k in range(draw(st.integers(1, 6))):
            pen.to(cx + draw(st.integers(-40, 40)), cy + draw(st.integers(-40, 40)), e=draw(st.sampled_from([0.5, 2, 0])), f=draw(st.sampled_from([None, 2222])))
            if draw(st.integers(0, 4)) == 0:
                pen.raw("; fill")
    flow = draw(st.sampled_from([0.1, 0.5, 1, 0.03, 0.25, 20]))
    pts = []
    for k in range(n + 1):
        t = math.radians(start + sign * step * (k % n if full else k))
        pts.append((cx + r * math.cos(t), cy + r * math.sin(t)))
    pen.to(pts[0][0], pts[0][1], cmd="G0", f=7800)
    if draw(st.integers(0, 3)) == 0:
        pen.raw("G1 F%d" % f)
        f1 = None
    else:
        f1 = f
    between = draw(st.lists(st.sampled_from(["; perimeter", "(note)", ";TYPE:WALL-OUTER", ";"]),
                            max_size=2)) if draw(st.integers(0, 2)) == 0 else []
    for l in between:
        pen.raw(l)
    at = len(pen.lines)
    chord = 2 * r * math.sin(math.radians(step) / 2)
    style = draw(st.sampled_from(["", "", "", "lower", "number", "nospace", "feed", "height", "swap", "omit", "g0", "sum", "layer"]))
    every = draw(st.integers(1, 3))
    if style == "layer":
        # a new layer begins with the travel to the run
        pen.lines[before:] = []
        pen.m = M.Machine()
        for l in pen.lines:
            if l.strip():
                pen.m.step(l)
        pen.raw("G90")
        pen.raw("G0 %s %s Z%s F7800" % (pen.word(0, pts[0][0]), pen.word(1, pts[0][1]), gen.dec(draw(st.integers(1, 50)) * 200)))
        for l in between:
            pen.raw(l)
        at, f1 = len(pen.lines), f
    for k, (x, y) in enumerate(pts[1:]):
        f2 = f if style == "feed" and k % every == 0 else f1 if k == 0 else None
        was = pen.here()
        mark = len(pen.lines)
        pen.to(x, y, e=flow * chord if ext else None, f=f2, cmd="G0" if style == "g0" and k % every == 0 else "G1",
               tail=draw(st.sampled_from(["", " ; perimeter"])) if k % 5 == 0 else "")
        pen.lines[mark] = spelled(pen.lines[mark], style if k % every == 0 else "", k, pen, was)
    end = draw(st.sampled_from(["M107", "G92 E0", "; end", "G1 F9999", "G0 X500 Y500 F9999", "G1 Z9", "(end)", "G28",
                                "T1", "e"]))
    if end == "e":
        pen.raw("G1 " + pen.e_word(-2.5) + " F1800")
    else:
        pen.raw(end)
    pen.raw("G92 E0")
    return {"first": at, "n": n, "sign": sign, "r": r}


@st.composite
def case_s(draw):
    pen = arcs.Pen()
    draw(arcs.preamble(pen))
    for l in draw(gen.program(max_lines=8, inches=False)):
        pen.raw(l)
    pen.raw("M400")
    runs = [draw(run_s(pen)) for _ in range(draw(st.integers(1, 2)))]
    return {"lines": pen.lines, "runs": runs}


def t_complete(case, rec):
    lines = [l for l in case["lines"]]
    idx = {}
    n = 0
    for k, l in enumerate(lines):
        idx[k] = n
        if l.strip():
            n += 1
    out = lib.filtered(lines, ("arcs", {}))
    al = arcs.align(M.run(lines), M.run(out))
    got = {item[1].segs[0].idx: item[1] for item in al if item[0] == "arc"}
    for r in case["runs"]:
        first = idx[r["first"]]
        arc = got.get(first)
        check(arc is not None, "the run of %d segments from line %d on (%r, radius %g) is no arc", r["n"], r["first"],
              lines[r["first"]], r["r"])
        check(len(arc.segs) == r["n"], "the arc %r replaces %d of %d segments", arc.out.raw, len(arc.segs), r["n"])
        check(arc.out.cmd == ("G3" if r["sign"] > 0 else "G2"), "the arc %r turns the wrong way", arc.out.raw)
        rec.label("full turn", abs(sweep(arc.out, r["sign"]) - 2 * math.pi) < 1e-6)
        rec.label("clockwise", r["sign"] < 0)
        rec.label("extruding", "e" in arc.out.args)
        rec.label("relative", arc.out.rel)
        rec.label("radius below 3 mm", r["r"] < 3)
    rec.nontrivial(True)


SUBS = [Sub("complete", case_s(), t_complete, 3500, rule="every case is a clean run of equal segments placed in another program")]
ASSUMPTIONS = ["coordinates have three decimals",
               "the run is reached by a travel at another feed rate and left by another command, feed rate or height"]
