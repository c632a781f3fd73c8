"""C06: the duration estimate is additive and follows distance, feed and dwells."""
import math
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check

SC = M.SC
ACC = 2000.0


def model(evs):
    """Seconds of each line by the documented acceleration model; None when a direction change is
    nearly, but not exactly, perpendicular."""
    res = []
    last_f = 0.0
    last_d = (0, 0)
    for ev in evs:
        t = 0.0
        if ev.cmd in M.LINEAR:
            d = (ev.end[0] - ev.start[0], ev.end[1] - ev.start[1])
            p, q = d[0] * last_d[0], d[1] * last_d[1]
            if 0 < abs(p + q) <= 1e-9 * (abs(p) + abs(q)):
                return None
            if p + q <= 0:
                last_f = 0.0
            f = ev.f / SC / 60.0
            dist = math.hypot(d[0] / SC, d[1] / SC)
            if dist == 0:
                dist = abs(ev.end[2] - ev.start[2]) / SC or abs(ev.end[3] - ev.start[3]) / SC
            if f == last_f:
                t = dist / f if f else 0.0
            else:
                ramp = abs(f * f - last_f * last_f) / ACC        # there and back
                if ramp <= dist and f:
                    t = 2 * ramp / (last_f + f) + (dist - ramp) / f
                else:
                    t = 2 * dist / (last_f + f)
            last_f, last_d = f, d
        elif ev.cmd == "G4":
            t = ev.dwell_ms / SC / 1000.0
        res.append(t)
    return res


def total(g):
    return sum(l.duration for l in g.all_layers)


def ok(a, b):
    return abs(a - b) <= 1e-6 + 1e-6 * max(abs(a), abs(b))


def seconds(td):
    return td.days * 86400 + td.seconds


def load(lines):
    g = lib.load(lines)
    for l in g.all_layers:
        check(l.duration is not None and l.duration >= -1e-9, "a layer lasts %r s", l.duration)
    t = total(g)
    check(seconds(g.duration) in (int(t - 1e-6) if t > 1e-6 else 0, int(t + 1e-6)) and g.duration.microseconds == 0,
          "the total is %r, the layers sum up to %r s", g.duration, t)
    check(g.estimate_duration()[1] == g.duration, "estimate_duration() differs from duration")
    return g


@st.composite
def case_s(draw):
    lines = draw(gen.program(inches=draw(st.sampled_from([False] * 5 + [True])), max_lines=30, layered=True,
                             start=[["G1 F1800", "G1 F600", ""]]))
    lines = draw(gen.finer(lines))
    n = draw(st.integers(0, 3))
    for _ in range(n):
        lines.insert(draw(st.integers(0, len(lines))), draw(st.sampled_from(
            ["G4 P100", "G4 P1500", "g4 p20", "G4 P0", "G4 P250 ; P9", "N3 G4 P40", "G4 S2 P10", "G4"])))
    return lines


def usable(lines):
    return any(l.strip() for l in lines)


def t_model(case, rec):
    if not usable(case):
        return
    evs = M.run(case)
    want = model(evs)
    g = load(case)
    if want is None:
        rec.label("skipped: nearly perpendicular")
        return
    check(ok(total(g), sum(want)), "the estimate is %r s, the model gives %r s", total(g), sum(want))
    timed = [ev for ev, t in zip(evs, want) if t > 0]
    rec.nontrivial(len(timed) >= 3)
    rec.label("dwell", any(ev.cmd == "G4" for ev in timed))
    rec.label("Z-only or E-only", any(ev.is_move and not ev.moves_xy for ev in timed))
    rec.label("relative", any(ev.rel for ev in timed))
    rec.label("after G92", any(any(ev.offs) for ev in timed))
    rec.label("continues at the same feed", any(
        a.is_move and b.is_move and a.f == b.f and a.end != a.start and
        (a.end[0] - a.start[0]) * (b.end[0] - b.start[0]) + (a.end[1] - a.start[1]) * (b.end[1] - b.start[1]) > 0
        for a, b in zip(timed, timed[1:])))
    # the estimate is additive: a program cut where the next move starts from rest
    # (a Z-only move ends every direction) takes the time of its parts
    for k, (ev, t) in enumerate(zip(evs, want)):
        if k > 4:
            break
        gk = load([e.raw for e in evs[:k + 1]])
        check(ok(total(gk), sum(want[:k + 1])), "the first %d lines take %r s, the model gives %r s", k + 1, total(gk),
              sum(want[:k + 1]))


@st.composite
def path(draw):
    """A sequence of displacements with feeds, in thousandths; to be written in several coordinate systems."""
    n = draw(st.integers(2, 14))
    res = []
    d = (1000, 0)
    for _ in range(n):
        k = draw(st.sampled_from(["same", "same", "any", "any", "turn", "z", "e", "dwell"]))
        if k == "turn":
            # a right angle
            m = draw(st.integers(-33, 33)) if d[0] % 10 == d[1] % 10 == 0 else draw(st.sampled_from([10, -10]))
            d = (-d[1] * m // 10, d[0] * m // 10)
        if k == "any":
            d = (draw(st.integers(-20, 20)) * 500, draw(st.integers(-20, 20)) * 500)
        f = draw(st.sampled_from([None, None, 600, 1200, 3000, 6000]))
        res.append([k, d[0], d[1], f if res else 1200, draw(st.integers(1, 100))])
    return {"path": res, "noise": draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(
        ["; c", "M106 S200", "M104 S200", "(x)", "M117 X1", "M400"])), max_size=4)),
        "shift": [draw(st.integers(-50, 50)) * 1000, draw(st.integers(-50, 50)) * 1000],
        "shift_at": draw(st.integers(0, n))}


def build(case, mode):
    out = ["G90", "M83"]
    x = y = z = 0
    ox = oy = 0
    if mode == "relative":
        out = ["G91"]
    for k, (kind, dx, dy, f, a) in enumerate(case["path"]):
        if mode == "shifted" and k == case["shift_at"]:
            sx, sy = case["shift"]
            out.append("G92 X%s Y%s" % (gen.dec(x - ox + sx), gen.dec(y - oy + sy)))
            ox, oy = ox - sx, oy - sy
        if mode == "noisy":
            out += [t for i, t in case["noise"] if i == k]
        fw = " F%d" % f if f else ""
        if kind == "dwell":
            out.append("G4 P%d" % (a * 10))
        elif kind == "z":
            z += 50 * a
            out.append("G1 Z%s%s" % (gen.dec(50 * a if mode == "relative" else z), fw))
        elif kind == "e":
            out.append("G1 E%s%s" % (gen.dec(a * 100), fw))
        else:   # "any", "same", "turn"
            x, y = x + dx, y + dy
            if mode == "relative":
                out.append("G1 X%s Y%s%s" % (gen.dec(dx), gen.dec(dy), fw))
            else:
                out.append("G1 X%s Y%s%s" % (gen.dec(x - ox), gen.dec(y - oy), fw))
    return out


def t_same_motion(case, rec):
    want = model(M.run(build(case, "plain")))
    if want is None:
        return
    base = total(load(build(case, "plain")))
    check(ok(base, sum(want)), "the estimate is %r s, the model gives %r s", base, sum(want))
    for mode in ("noisy", "relative", "shifted"):
        t = total(load(build(case, mode)))
        check(ok(t, base), "the same motion takes %r s %s and %r s plain", t, mode, base)
    rec.label("right angle off the axes", any(p[0] == "turn" and p[1] and p[2] for p in case["path"]))
    rec.nontrivial(sum(1 for p in case["path"] if p[0] in ("any", "same", "turn")) >= 2 and base > 0)


def t_large(spec, rec):
    t_model(gen.expand(spec), rec)


SUBS = [
    Sub("large", gen.large((300, 3000)), t_large, 24, 300, rule="programs of hundreds or thousands of lines with 3 that take time"),
    Sub("model", case_s(), t_model, 2200, rule="programs with at least 3 lines that take time, against a model"),
    Sub("same_motion", path(), t_same_motion, 1200,
        rule="one motion written absolute, relative, G92-shifted and with interleaved other commands; two XY moves"),
]
ASSUMPTIONS = ["programs with consecutive moves that are nearly (to 1e-9), but not exactly, perpendicular are skipped",
               "arcs and homing take no time in the estimate"]
