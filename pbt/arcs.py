"""Generators of circular tool paths, and matching of an arc-optimised program with its input."""
import math

from hypothesis import strategies as st

from pbt import gen, machine as M
from pbt.harness import Violation, check

SC = M.SC
MIN = 8


def r3(v, places=3):
    return int(round(v * 10 ** places))


class Pen(object):
    """Writes moves of a program from absolute target points, in any mode, with a shifted coordinate system."""

    def __init__(self, rel=False, rel_e=False, places=3):
        self.m = M.Machine()
        self.lines = []
        self.places = places
        self.x = self.y = 0.0

    def raw(self, line):
        self.lines.append(line)
        if line.strip():
            self.m.step(line)

    def here(self):
        return self.m.pos[0] / SC, self.m.pos[1] / SC

    def word(self, l, target):
        """Word bringing axis l (0 or 1) to the machine coordinate target."""
        m = self.m
        v = target - m.pos[l] / SC if m.rel else target - m.offs[l] / SC
        if m.imperial:
            return "XY"[l] + gen.dec(r3(v / 25.4, 5), 5)
        return "XY"[l] + gen.dec(r3(v, self.places), self.places)

    def e_word(self, amount):
        m = self.m
        k = 25.4 if m.imperial else 1.0
        if m.rel_e:
            return "E" + gen.dec(r3(amount / k, 6), 6) if m.imperial else "E" + gen.dec(r3(amount, 5), 5)
        v = (m.pos[3] - m.offs[3]) / SC + amount
        return "E" + gen.dec(r3(v / k, 6), 6) if m.imperial else "E" + gen.dec(r3(v, 5), 5)

    def to(self, x, y, e=None, cmd="G1", f=None, tail=""):
        ws = [cmd, self.word(0, x), self.word(1, y)]
        if e is not None:
            ws.append(self.e_word(e))
        if f:
            ws.append("F%d" % f)
        self.raw(" ".join(ws) + tail)


STEP = st.one_of(st.sampled_from([5, 10, 15, 30, 36, 40, 45]), st.floats(2, 45), st.floats(0.2, 60))
RADIUS = st.one_of(st.sampled_from([1, 2, 5, 10, 50, 150]), st.floats(0.3, 150), st.floats(100, 260))
FEEDS = [300, 600, 1200, 1800]
INSERTS = ["M106 S255", "; perimeter", "G92 E0", "T1", "M104 S210", "G4 P10", "(note)", "hello", "G21", "M82", "M83",
           "G90", "G91", "G92 X5 Y5", "G92", "G28 X", "G92 Z1", "M117 X1 Y2"]


@st.composite
def preamble(draw, pen, inches=False, f=True):
    if draw(st.booleans()):
        pen.raw("G28")
    if inches:
        pen.raw("G20")
    pen.raw(draw(st.sampled_from(["G90", "G90", "G91"])))
    pen.raw(draw(st.sampled_from(["M82", "M83"])))
    if draw(st.booleans()):
        pen.raw(draw(st.sampled_from(["G92 E0", "G92 E0", "G92 E0", "G92 E12345.67891", "G92 E-250.5"])))
    if draw(st.integers(0, 3)) == 0:
        pen.to(12.5, -3.25)
        pen.raw(draw(st.sampled_from(["G92 X0 Y0", "G92 X-20.5", "G92", "G92 X1 Y2 E5"])))
    if draw(st.booleans()):
        pen.raw("G1 Z0.3" + (" F1200" if f else ""))
    elif f and draw(st.integers(0, 5)):
        pen.raw("G1 F%d" % draw(st.sampled_from(FEEDS)))


@st.composite
def curve(draw, pen):
    """One run of segments, clean or spoiled in some way."""
    r = draw(RADIUS)
    kind = draw(st.sampled_from(["clean"] * 6 + ["noise", "noise", "turn", "uneven", "reverse", "line", "polygon", "eonly",
                                                 "spiral", "over", "repeat"]))
    cx, cy = draw(st.sampled_from([(0, 0), (100, 100), (-20, 55.5), (3.333, 77.125)]))
    a = draw(st.one_of(st.sampled_from([0, 90, 180, 270, 45]), st.floats(0, 360)))
    step = draw(STEP)
    sign = draw(st.sampled_from([1, -1]))
    n = draw(st.one_of(st.integers(8, 16), st.integers(1, 40), st.just(max(3, int(round(360 / step))))))
    n = min(n, 60)
    if draw(st.sampled_from([0] * 30 + [1])):
        # fine and long
        n = draw(st.integers(61, 180))
        step = min(step, 359.0 / n)
    ext = draw(st.sampled_from(["e", "e", "e", "e", "", "vary", "mixed", "retract", "still"]))
    flow = draw(st.sampled_from([0.03, 0.05, 0.3]))
    cmd = draw(st.sampled_from(["G1", "G1", "G1", "G0"]))
    rnd = draw(st.randoms(use_true_random=False))
    spoil_at = draw(st.one_of(st.integers(1, max(1, n - 1)), st.integers(1, max(1, min(8, n - 1)))))
    spoil = draw(st.sampled_from([""] * 6 + ["insert", "insert", "feed", "z", "e", "comment", "arc", "fline", "words",
                                             "hop", "hop", "burst"]))
    spoil_for = draw(st.integers(1, 3))
    noise = {"noise": draw(st.sampled_from([0.002, 0.008, 0.014, 0.017, 0.019, 0.02, 0.05, 0.2]))}.get(kind, 0)
    if kind == "turn":
        step, n = 360.0 / max(8, n), max(8, n)
    if kind == "over":
        n = max(10, int(360 / max(step, 10)) + draw(st.integers(1, 12)))
        step = max(step, 10)

    def at(k):
        ang = a + sign * step * k
        if kind == "uneven":
            ang += sign * step * draw_noise[k] * 0.9
        if kind == "reverse" and k > spoil_at:
            ang = a + sign * step * (2 * spoil_at - k)
        rr = r + (rnd.uniform(-noise, noise) if noise else 0)
        if kind == "spiral":
            rr = r * (1 + 0.01 * k)
        if kind == "polygon":
            ang = round(ang / 45.0) * 45
        t = math.radians(ang)
        if kind == "line":
            return cx + step * k, cy + (0.5 * step * k if sign > 0 else 0)
        return cx + rr * math.cos(t), cy + rr * math.sin(t)

    draw_noise = [rnd.uniform(-1, 1) for _ in range(n + 1)]
    x0, y0 = at(0)
    lead = draw(st.sampled_from(["travel", "travel", "feed", "none", "ext", "zmove"]))
    f = draw(st.sampled_from(FEEDS))
    if lead == "travel":
        pen.to(x0, y0, cmd="G0")
    elif lead == "feed":
        pen.to(x0, y0, f=draw(st.sampled_from([7800, 9000])))
    elif lead == "ext":
        pen.to(x0, y0, e=1)
    elif lead == "zmove":
        pen.to(x0, y0)
        pen.raw("G1 Z%s" % draw(st.sampled_from(["0.5", "2", "0.3"])))
    px, py = pen.here()
    first = None
    for k in range(1, n + 1):
        x, y = at(k)
        if kind == "turn" and k == n:
            x, y = x0, y0
        if kind == "eonly":
            pen.raw("G1 " + pen.e_word(0.5))
            continue
        if kind == "repeat" and k == spoil_at:
            x, y = px, py
        d = math.hypot(x - px, y - py)
        e = None
        if ext:
            e = flow * d
            if ext == "vary":
                e *= 1 + rnd.uniform(-0.14, 0.14) * (1 if rnd.random() < 0.95 else 3)
            if ext == "still":
                e = 0
            if ext == "retract":
                e = -e
            if ext == "mixed" and rnd.random() < 0.08:
                e = None
        tail = ""
        if spoil == "hop" and k == spoil_at:
            hop_from = pen.m.pos[2] - pen.m.offs[2]
            tail = " Z" + gen.dec(1 if pen.m.rel else r3(hop_from / SC, 1) + 7, 1)
        elif spoil == "hop" and k == spoil_at + spoil_for:
            # back to the height of the run
            tail = " Z-0.1" if pen.m.rel else " Z" + gen.dec(r3(hop_from / SC / (25.4 if pen.m.imperial else 1), 5), 5)
        elif spoil == "burst" and k == spoil_at:
            burst_from = pen.m.f
            tail = " F%d" % draw(st.sampled_from([100, 4000]))
        elif spoil == "burst" and k == spoil_at + spoil_for and burst_from:
            # back to the feed rate of the run
            tail = " F" + gen.dec(r3(burst_from / SC / (25.4 if pen.m.imperial else 1), 5), 5)
        elif k == spoil_at and spoil:
            if spoil == "insert":
                pen.raw(draw(st.sampled_from(INSERTS)))
            elif spoil == "feed":
                tail = " F%d" % draw(st.sampled_from([100, 4000]))
            elif spoil == "z":
                tail = " Z%s" % draw(st.sampled_from(["0.4", "1", "0.3"]))
            elif spoil == "e":
                e = (e or 0) + 0.5
            elif spoil == "comment":
                pen.raw(draw(st.sampled_from(["; note", "(x)", ";G1 X1"])))
            elif spoil == "fline":
                pen.raw("G1 F2222")
            elif spoil == "words":
                tail = " S100 ; laser"
            elif spoil == "arc":
                t = math.radians(sign * step)
                vx, vy = cx - px, cy - py
                pen.to(x, y, e=e, cmd="G3" if sign > 0 else "G2", tail=" I%s J%s" % (gen.dec(r3(vx)), gen.dec(r3(vy))))
                px, py = pen.here()
                continue
        ff = f if k == 1 and lead == "feed" else None
        pen.to(x, y, e=e, cmd=cmd, f=ff, tail=tail)
        px, py = pen.here()


@st.composite
def program(draw, inches=False, max_runs=3):
    pen = Pen(places=draw(st.sampled_from([3, 3, 3, 4, 5])))
    draw(preamble(pen, inches, draw(st.booleans())))
    for _ in range(draw(st.integers(1, max_runs))):
        draw(curve(pen))
        for _ in range(draw(st.integers(0, 2))):
            what = draw(st.sampled_from(["insert", "insert", "travel", "ext", "retract", "z", "comment", "f"]))
            if what == "insert":
                pen.raw(draw(st.sampled_from(INSERTS)))
            elif what == "travel":
                pen.to(draw(st.integers(-50, 150)), draw(st.integers(-50, 150)), cmd="G0")
            elif what == "ext":
                pen.to(draw(st.integers(-50, 150)), draw(st.integers(-50, 150)), e=2)
            elif what == "retract":
                pen.raw("G1 " + pen.e_word(-1.5) + " F1800")
            elif what == "z":
                pen.raw("G1 Z%s" % draw(st.sampled_from(["0.6", "1.2", "5"])))
            elif what == "f":
                pen.raw("G1 F%d" % draw(st.sampled_from(FEEDS)))
            else:
                pen.raw(draw(st.sampled_from(["; layer", "(end)"])))
    return pen.lines


class Arc(object):
    """One arc of the output and the input moves it stands for."""

    def __init__(self, out, segs, fix):
        self.out, self.segs, self.fix = out, segs, fix


def dist(p, q):
    return math.hypot((p[0] - q[0]) / SC, (p[1] - q[1]) / SC)


def correction(ev):
    return ev.kind == "set" and ev.set_axes == (3,)


def align(ins, outs):
    """[('same', in, out) | ('arc', Arc)] explaining the output; a Violation when there is no explanation."""
    import sys
    sys.setrecursionlimit(10000)
    dead = set()
    far = [0, 0]

    def linear(e):
        return e.kind == "move" and e.cmd in M.LINEAR

    def go(i, k):
        todo = []
        while True:
            if (i, k) in dead:
                return None
            if i + k > sum(far):
                far[:] = [i, k]
            if i == len(ins) and k == len(outs):
                return todo
            if i < len(ins) and k < len(outs) and ins[i].raw == outs[k].raw:
                todo.append(("same", ins[i], outs[k]))
                i, k = i + 1, k + 1
                continue
            break
        if k < len(outs) and outs[k].cmd in ("G2", "G3"):
            o = outs[k]
            cands = []
            j = i
            while j < len(ins) and linear(ins[j]):
                j += 1
                if j - i >= MIN:
                    cands.append(j)
            cands.sort(key=lambda j: (dist(ins[j - 1].end, o.end) > 0.01, -j if False else j))
            for j in cands:
                opts = [k + 1]
                if k + 1 < len(outs) and correction(outs[k + 1]):
                    opts = [k + 2, k + 1]
                for k2 in opts:
                    rest = go(j, k2)
                    if rest is not None:
                        return todo + [("arc", Arc(o, ins[i:j], outs[k + 1] if k2 == k + 2 else None))] + rest
        dead.add((i, k))
        return None

    res = go(0, 0)
    if res is None:
        i, k = far
        raise Violation("the output is not the input with runs of moves replaced by arcs: after %d input and %d output "
                        "lines it goes on with %r while the input goes on with %r" % (
                            i, k, [e.raw for e in outs[k:k + 3]], [e.raw for e in ins[i:i + 10]]))
    return res


def geometry(arc):
    """(centre, radii of all replaced vertices, angle steps in radian) in mm, from the arc as it is written."""
    o = arc.out
    cx = o.start[0] + o.args.get("i", 0)
    cy = o.start[1] + o.args.get("j", 0)
    pts = [arc.segs[0].start] + [s.end for s in arc.segs]
    vs = [((p[0] - cx) / SC, (p[1] - cy) / SC) for p in pts]
    radii = [math.hypot(*v) for v in vs]
    ang = [math.atan2(v[1], v[0]) for v in vs]
    steps = []
    for p, q in zip(ang, ang[1:]):
        d = q - p
        while d > math.pi:
            d -= 2 * math.pi
        while d < -math.pi:
            d += 2 * math.pi
        steps.append(d)
    return (cx, cy), radii, steps
