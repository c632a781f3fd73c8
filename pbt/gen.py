"""Hypothesis strategies producing G-code programs (lists of text lines)."""
import copy
import re

from hypothesis import strategies as st

from pbt import machine as M

SC = M.SC


def dec(v, places=3):
    """Decimal text of an integer count of 10**-places, without superfluous zeros."""
    sign = "-" if v < 0 else ""
    v = abs(v)
    whole, frac = divmod(v, 10 ** places)
    s = ("%0*d" % (places, frac)).rstrip("0") if places else ""
    return sign + str(whole) + ("." + s if s else "")


def spell(v, places, style):
    """The same number in one of several spellings (style 0 is the plain one)."""
    s = dec(v, places)
    if style == 1:
        return ("%.*f" % (places, v / 10 ** places)) if abs(v) < 10 ** 14 else s
    if style == 2 and not s.startswith("-"):
        return "+" + s
    if style == 3 and "." in s:
        neg = s.startswith("-")
        body = s.lstrip("-")
        if body.startswith("0."):
            body = body[1:]
        return ("-" if neg else "") + body
    if style == 4 and "." not in s:
        return s + "."
    if style == 5:
        neg = s.startswith("-")
        return ("-" if neg else "") + "0" + s.lstrip("-")
    return s


XY = st.one_of(st.sampled_from([0, 1000, -1000, 10000, 20000, 20500, 35250, 100000]),
               st.integers(-200, 200).map(lambda v: v * 250),
               st.integers(-200000, 200000), st.integers(-200000, 200000),
               st.sampled_from([1000000, -1234567, 9999999]))
DELTA = st.one_of(st.sampled_from([0, 1000, -1000, 5000, -5000, 2500]), st.integers(-20000, 20000))
DE = st.one_of(st.integers(1, 400).map(lambda v: v * 1000),        # 1e-5 mm, 0.01 .. 4
               st.sampled_from([100000, -100000, 50000, -200000, 33333, 1]),
               st.integers(-300000, 300000), st.integers(-300000, 300000),
               # what a long print has fed, or winds back
               st.sampled_from([123456789, 1000000000, 1234567891, -98765432]))
FEED = st.sampled_from([60, 300, 600, 1200, 1800, 2400, 3000, 4800, 7800, 9000])
FEED_ANY = st.one_of(FEED.map(lambda v: v * 1000), st.integers(0, 12000000))
# line numbers, also those looking like a command
NUMBER = st.one_of(st.sampled_from([0, 1, 20, 28, 82, 83, 90, 91, 92, 104, 182]), st.integers(0, 9999))
COMMENTS = ["; perimeter", "; infill", ";TYPE:FILL", ";LAYER:3", "; X10 Y20 E3", ";", "; M104 S200 G92 E0",
            "(a comment)", "(G1 X1)", "; \u00b5m \u2014 text", "; (nested) ; again", ";E5"]
OTHER = ["M104 S200", "M109 S210.5", "M106 S255", "M107", "M84", "G4 P100", "G4 S1", "M140 S60", "M117 Printing X1 Y2",
         "M101", "M103", "M105", "G29", "M190 S60", "M226", "M400", "G10", "G11", "M204 S500 T1000", "M42 P4 S255",
         "M204 P500 T1000", "M851 Z-1.2", "G80", "M92 E400", "M906 X800 Y800", "M18 X Y E"]
TEXTS = ["M117 Hello world", "M117 50% E:1.2", "%", "@pause", "$$", "O1000", "hello world", "start of program",
         "10 20", "-", "* * *", "/block delete"]


_FINE = re.compile(r"(?<=[XYEFIJ])([-+]?[0-9]*\.[0-9]{2,5})(?![0-9.])")


@st.composite
def finer(draw, lines):
    """Lines with more decimals than slicers usually write; heights stay as they are."""
    lines = list(lines)
    if draw(st.integers(0, 3)):
        return lines
    for k in draw(st.lists(st.integers(0, max(0, len(lines) - 1)), min_size=1, max_size=12)):
        if k < len(lines) and lines[k][:1] == "G" and not any(c in lines[k] for c in ";(*"):
            lines[k] = _FINE.sub(lambda m: m.group(1) + draw(st.sampled_from(["5", "4", "49", "51", "123", "9999", "0001"])), lines[k])
    return lines


class Opts(object):
    """What a generated machine program may contain."""

    def __init__(self, **kw):
        self.arcs = True
        self.inches = False
        self.g92 = True
        self.g92_bare = True
        self.g92_xy = True
        self.g92_z = True
        self.g28 = True
        self.rel = True            # G90/G91
        self.rel_e = True          # M82/M83
        self.tools = True
        self.others = True
        self.comments = True
        self.decorate = True       # unusual spellings
        self.extra_words = True
        self.z = True
        self.extrude = True
        self.max_lines = 40
        self.min_lines = 0
        self.blank = True
        self.junk = False          # lines that are not commands
        self.start = ()
        self.zgrid = None          # thousandths; None: drawn per program
        self.layered = False       # mostly rising heights
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)


def _kinds(o):
    k = ["move"] * 12 + ["xy"] * 8
    if o.extrude:
        k += ["ext"] * 10 + ["eonly"] * 2
    if o.z:
        k += ["z"] * 3
        if o.layered:
            k += ["up"] * 4
    if o.g92:
        k += ["g92e"] * 3
        if o.g92_xy:
            k += ["g92"] * 3
        if o.g92_bare:
            k += ["g92bare"] * 2
    if o.g28:
        k += ["g28"] * 2
    if o.rel:
        k += ["G90"] * 2 + ["G91"] * 2
    if o.rel_e:
        k += ["M82"] * 2 + ["M83"] * 2
    if o.inches:
        k += ["G20"] + ["G21"] * 2
    if o.tools:
        k += ["tool"]
    if o.others:
        k += ["other"] * 3
    if o.comments:
        k += ["comment"] * 2
    if o.blank:
        k += ["blank"]
    if o.junk:
        k += ["junk"] * 2
    return k


_PLAIN = st.sampled_from([0] * 6 + [1, 2, 3, 4, 5])
_NOISE = st.sampled_from([""] * 10 + ["lower", "n", "nospace", "comment", "comment", "paren", "sum", "extra", "tail"])


def _noise(draw, o, cmd, ws):
    """Assemble a line from its command and words, maybe in an unusual form."""
    noise = draw(_NOISE) if (o.decorate or o.comments or o.extra_words) else ""
    if noise == "extra" and o.extra_words and cmd[0] == "G" and ws:
        ws = list(ws)
        ws.insert(draw(st.integers(0, len(ws))), draw(st.sampled_from(["S255", "P100", "R2.5", "A1", "S0.5", "K-1"])))
    line = " ".join([cmd] + ws)
    if not o.decorate:
        if noise == "comment" and o.comments:
            line += " " + draw(st.sampled_from(COMMENTS))
        return line
    if noise == "lower":
        return line.lower()
    if noise == "n":
        return "N%d %s" % (draw(NUMBER), line)
    if noise == "nospace":
        return line.replace(" ", "")
    if noise == "comment" and o.comments:
        return line + draw(st.sampled_from([" ", "", "\t"])) + draw(st.sampled_from(COMMENTS))
    if noise == "paren" and o.comments:
        parts = line.split(" ")
        parts.insert(draw(st.integers(1, len(parts))), draw(st.sampled_from(["(x)", "(G1 X5 E1)", "(10)"])))
        return " ".join(parts)
    if noise == "sum":
        cs = 0
        line = "N%d %s" % (draw(NUMBER), line)
        for c in line:
            cs ^= ord(c) & 255
        return "%s*%d" % (line, cs)
    if noise == "tail":
        return "  " + line.replace(" ", "   ") + " \t"
    return line


def _line(draw, o, kind, m):
    imp = m.imperial
    nice = _PLAIN if o.decorate else st.just(0)

    def xy_word(l):
        v = draw(DELTA if m.rel else XY)
        if imp:
            v = v // 25
        return l + spell(v, 3, draw(nice))

    def z_word(up=False):
        g = o.zgrid
        if imp:
            g = 2
        if m.rel:
            v = draw(st.integers(-4, 8)) * g
        elif up and not imp:
            off = m.offs[2]
            h = m.height if m.height is not None else 0
            v = h // (SC // 1000) + draw(st.integers(1, 6)) * g
        else:
            v = draw(ZSTEP) * g
        return "Z" + spell(v, 3, draw(nice))

    def e_word(positive=False):
        d = draw(DE)
        if not positive and draw(st.integers(0, 7)) == 0:
            # the position it already has
            d = 0
        if positive:
            d = abs(d) or 1000
        if m.rel_e or imp:
            return "E" + spell(d, 5, draw(nice))
        v = (m.pos[3] - m.offs[3]) // (SC // 100000) + d
        return "E" + spell(v, 5, draw(nice))

    if kind in ("move", "xy", "ext", "z", "up", "eonly"):
        cmd = "G1"
        ws = []
        if kind == "move":
            cmd = draw(st.sampled_from(["G0", "G1", "G1"] + (["G2", "G3"] if o.arcs else [])))
            mask = draw(st.integers(0, 31))
            if mask & 1:
                ws.append(xy_word("X"))
            if mask & 2:
                ws.append(xy_word("Y"))
            if mask & 4 and o.z:
                ws.append(z_word())
            if mask & 8 and o.extrude:
                ws.append(e_word())
            if cmd in ("G2", "G3"):
                ws.append("I" + spell(draw(DELTA), 3, 0))
                ws.append("J" + spell(draw(DELTA), 3, 0))
            if mask & 16:
                ws.append("F" + spell(draw(FEED_ANY), 3, draw(nice)))
                if o.decorate and len(ws) > 1 and mask & 1:
                    ws = ws[-1:] + ws[:-1]
        elif kind == "xy":
            cmd = draw(st.sampled_from(["G0", "G1"]))
            ws = [xy_word("X"), xy_word("Y")]
            if draw(st.integers(0, 3)) == 0:
                ws.append("F%d" % draw(FEED))
        elif kind == "ext":
            ws = [xy_word("X"), xy_word("Y"), e_word(True)]
        elif kind == "eonly":
            ws = [e_word()]
            if draw(st.booleans()):
                ws.append("F%d" % draw(FEED))
        else:
            ws = [z_word(kind == "up")]
            mask = draw(st.integers(0, 7))
            if mask & 1:
                ws.append("F%d" % draw(FEED))
            if mask == 6:
                ws.insert(0, xy_word("X"))
            if mask == 4 and o.extrude:
                ws.append(e_word())
        return _noise(draw, o, cmd, ws)
    if kind == "g92e":
        return _noise(draw, o, "G92", ["E" + spell(draw(st.one_of(st.sampled_from([0, 0, 0, 100000, 250000, -50000]), DE)), 5, 0)])
    if kind == "g92":
        mask = draw(st.integers(1, 15))
        ws = []
        for k, l in enumerate("XYZE"):
            if mask & (1 << k):
                if l == "Z":
                    if not (o.g92_z and o.z):
                        continue
                    ws.append("Z" + spell(draw(st.integers(0, 20)) * (2 if imp else o.zgrid), 3, 0))
                elif l == "E":
                    ws.append("E" + spell(draw(st.sampled_from([0, 0, 100000])), 5, 0))
                else:
                    ws.append(l + spell(draw(st.one_of(st.just(0), XY)), 3, 0))
        if not ws:
            ws = ["X0"]
        return _noise(draw, o, "G92", ws)
    if kind == "g92bare":
        return _noise(draw, o, "G92", [])
    if kind == "g28":
        mask = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7]))
        num = draw(st.sampled_from(["", "0", "0", "1"]))
        ws = [l + num for k, l in enumerate("XYZ") if mask & (1 << k)]
        return _noise(draw, o, "G28", ws if draw(st.integers(0, 3)) else ws[::-1])
    if kind == "tool":
        return "T" + draw(st.sampled_from(["0", "1", "2", "3", "10", "-1", "+1", "007"]))
    if kind == "other":
        parts = draw(st.sampled_from(OTHER)).split(" ")
        return _noise(draw, o, parts[0], parts[1:])
    if kind == "comment":
        return draw(st.sampled_from(COMMENTS))
    if kind == "blank":
        return draw(st.sampled_from(["", "   ", "\t"]))
    if kind == "junk":
        return draw(st.sampled_from(TEXTS))
    return _noise(draw, o, kind, [])


@st.composite
def program(draw, o=None, **kw):
    """A program that exercises the machine state; returns a list of text lines."""
    o = o or Opts(**kw)
    if o.zgrid is None:
        o = copy.copy(o)
        o.zgrid = draw(ZGRID)
    m = M.Machine()
    lines = []
    for l in o.start:
        if isinstance(l, (list, tuple)):
            l = draw(st.sampled_from(list(l)))
        if l is not None and l != "":
            lines.append(l)
            m.step(l)
    kinds = st.sampled_from(_kinds(o))
    n = draw(st.integers(o.min_lines, o.max_lines))
    for _ in range(n):
        l = _line(draw, o, draw(kinds), m)
        lines.append(l)
        if l.strip():
            m.step(l.strip())
    size = draw(_SIZE)
    if size == "long" and lines:
        # the same again and again: many lines and layers
        lines = lines[:len(o.start)] + (lines[len(o.start):] or lines) * (2 + 300 // len(lines))
    elif size == "high" and o.layered:
        lines = lines + draw(tower(o))
    return lines


ZSTEP = st.one_of(*[st.integers(0, 30)] * 11 + [st.integers(-5, 0)])
ZGRID = st.sampled_from([50] * 8 + [100, 200, 200, 250, 20, 25, 37, 305, 3])   # 3: spirals, closer than a layer
_SIZE = st.sampled_from(["short"] * 40 + ["long", "high"])


@st.composite
def tower(draw, o):
    """Many layers of the same few lines, at rising heights."""
    n = draw(st.integers(10, 300))
    step = draw(st.sampled_from([20, 25, 100, 200, 250, 300]))
    start = draw(st.integers(1, 400)) * 10
    where = draw(st.lists(st.integers(-100, 100), min_size=2, max_size=6))
    hop = draw(st.sampled_from([0, 0, 400, 3000]))
    lines = ["G90", "M83"]
    for k in range(n):
        lines.append("G1 Z%s F6000" % dec(start + k * step))
        for v in where:
            lines.append("G1 X%d Y%d" % (v, (v * 7 + k) % 100) + (" E%s" % dec(1 + abs(v) % 9, 1) if o.extrude else ""))
        if hop and k % 3 == 0:
            lines += ["G1 Z%s" % dec(start + k * step + hop), "G0 X0 Y0"]
    return lines


@st.composite
def vase(draw):
    """A print that rises a little with every move."""
    step = draw(st.sampled_from([1, 2, 2, 3, 5, 7, 10, 12, 15, 19]))
    z = draw(st.sampled_from([200, 300, 350, 0, 1, 254]))
    rel = draw(st.booleans())
    rel_z = draw(st.sampled_from([False, False, True]))
    lines = ["G28", "G90", "G1 Z%s F7800" % dec(z), "M83" if rel else "M82"]
    e = 0
    for k in range(draw(st.integers(0, 3))):
        e += 50
        lines.append("G1 X%d Y%d E%s" % (k * 20, 10, "0.5" if rel else dec(e, 2)))
    odd = draw(st.lists(st.tuples(st.integers(0, 120), st.sampled_from(["M106 S255", "; note", "G92 E0", "hop", "same", "back"])), max_size=3))
    for k in range(draw(st.one_of(st.integers(1, 120), st.integers(60, 200)))):
        for what in sorted({w for at, w in odd if at == k}):
            if what == "hop":
                lines += ["G1 Z%s" % dec(z + 500), "G0 X1 Y1", "G1 Z%s" % dec(z)]
            elif what == "same":
                z -= step
            elif what == "back":
                z = z - 25 * step if z > 25 * step else z
            else:
                lines.append(what)
                e = 0 if "E" in what else e
        z += step
        e += 7
        x, y = (k * 37) % 50, (k * 11) % 60
        if rel_z and rel:
            lines += ["G91", "G1 X1 Y0.5 Z%s E0.07" % dec(step), "G90", "M83"]
        else:
            lines.append("G1 X%d Y%d Z%s E%s" % (x, y, dec(z), "0.07" if rel else dec(e, 2)))
    return lines + draw(st.sampled_from([[], ["G1 Z100", "M84"], ["M107"]]))


# ------------------------------------------------------------------ helpers on programs
def separated(evs, mm=0.02):
    """All programmed heights of the program are equal or at least mm apart."""
    hs = sorted({ev.height for ev in evs if ev.height is not None})
    return all(b - a >= mm * SC for a, b in zip(hs, hs[1:]))


# ------------------------------------------------------------------ programs larger than any sample
@st.composite
def large(draw, sizes=(300, 3000, 70000), inches=False):
    """A short description of a program of many lines or layers."""
    return {"unit": draw(program(max_lines=12, layered=draw(st.booleans()), inches=inches)), "size": draw(st.sampled_from(list(sizes))),
            "z": draw(st.sampled_from(["none", "up", "up", "revisit"])), "every": draw(st.sampled_from([1, 1, 3, 40]))}


def expand(spec):
    unit = spec["unit"] or ["G1 X1"]
    res = []
    k = 0
    while len(res) < spec["size"]:
        if spec["z"] != "none" and k % spec["every"] == 0:
            n = k // spec["every"]
            res += ["G90", "G1 Z%s" % dec(20 * (n if spec["z"] == "up" else n % 300) + 30, 2)]
        res += unit
        k += 1
    return res


@st.composite
def heights(draw):
    """A few heights, revisited and hardly apart."""
    values = draw(st.lists(st.tuples(st.sampled_from([0, 100, 200, 300, 400, 5000]), st.sampled_from([0, 0, 0, 0, 1, 4, 5, 9, 10, 15, 20])).map(sum),
                           min_size=1, max_size=4))
    cmd = draw(st.sampled_from([["G1"], ["G1"], ["G1", "G1", "G92", "G28"], ["G1", "G1", "G90", "G91"]]))
    tail = draw(st.sampled_from([[""], ["", " X1 E1"], ["", "\nG1 X1 Y1 E1", "\nG1 X2 E1"], [" E1"]]))
    lines = draw(st.lists(st.tuples(st.sampled_from(cmd), st.sampled_from(values), st.sampled_from(tail)), min_size=2, max_size=14))
    return sum(((c + " Z" + dec(v) + t).split("\n") for c, v, t in lines), [])
