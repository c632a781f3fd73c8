"""An independent reference machine: tokenizer and interpreter of G-code programs.

Nothing here imports the code under test.  All quantities are integers counted in 1e-9 mm (or 1e-9 of the
unit of the word), so the reference arithmetic is exact.
"""
import re

SC = 10 ** 9
INCH = 254            # tenths of a millimetre
ARGS = "xyzefij"
MOVES = ("G0", "G1", "G2", "G3")
LINEAR = ("G0", "G1")

_WORD = re.compile(r"([A-Za-z])([-+]?[0-9]*\.?[0-9]*)")


def number(text):
    """Exact value of a decimal literal, scaled; None when there is no digit."""
    if not any(c.isdigit() for c in text):
        return None
    sign = 1
    if text[0] in "+-":
        sign = -1 if text[0] == "-" else 1
        text = text[1:]
    whole, _, frac = text.partition(".")
    frac = (frac + "000000000")[:9]
    return sign * (int(whole or "0") * SC + int(frac))


def strip_comments(raw):
    """(code text, [comments]).  Comments are ';' to the end of the line and '(...)' without nesting; a line
    that is one parenthesised text as a whole is a comment."""
    raw = raw.strip()
    if raw.startswith("(") and raw.endswith(")") and "(" in raw[1:]:
        # nested: a comment only as a whole line
        return "", [raw]
    code, comments = [], []
    i = 0
    while i < len(raw):
        c = raw[i]
        if c == ";":
            comments.append(raw[i:])
            break
        if c == "(":
            j = raw.find(")", i)
            if j >= 0 and "(" not in raw[i + 1:j]:
                comments.append(raw[i:j + 1])
                i = j + 1
                code.append(" ")
                continue
        code.append(c)
        i += 1
    return "".join(code), comments


def words(raw):
    """[(letter upper, number text)] of the code part of a line, the N word and the checksum removed."""
    code, _ = strip_comments(raw)
    code = code.split("*")[0]
    res = [(m.group(1).upper(), m.group(2)) for m in _WORD.finditer(code)]
    if res and res[0][0] == "N":
        del res[0]
    return res


class Ev(object):
    """What one program line does."""
    __slots__ = ("idx", "raw", "words", "cmd", "args", "given", "comments", "kind", "start", "end", "f", "rel",
                 "rel_e", "tool", "offs", "imperial", "height", "homed", "set_axes")

    def __repr__(self):
        return "<%d %s %s->%s>" % (self.idx, self.cmd, self.start, self.end)

    @property
    def de(self):
        return self.end[3] - self.start[3]

    @property
    def is_move(self):
        return self.kind == "move"

    @property
    def moves_xy(self):
        return self.end[0] != self.start[0] or self.end[1] != self.start[1]

    @property
    def dwell_ms(self):
        if self.cmd != "G4":
            return 0
        for l, t in self.words[1:]:
            if l == "P":
                v = number(t)
                return v if v is not None else 0
        return 0


def fl(v):
    return None if v is None else v / SC


class Machine(object):
    def __init__(self, home=(0, 0, 0)):
        self.home = tuple(home)
        self.pos = [0, 0, 0, 0]
        self.offs = [0, 0, 0, 0]
        self.f = 0
        self.rel = self.rel_e = self.imperial = False
        self.tool = 0
        self.height = None
        self.n = 0

    def step(self, raw):
        ev = Ev()
        ev.idx = self.n
        self.n += 1
        ev.raw = raw
        ev.words = w = words(raw)
        ev.comments = strip_comments(raw)[1]
        ev.cmd = cmd = (w[0][0] + w[0][1]) if w and w[0][0] in "GMT" else None
        ev.kind = "other" if cmd else "none"
        ev.args = {}
        ev.given = set()
        ev.homed = ev.set_axes = ()
        ev.start = tuple(self.pos)
        if cmd and cmd in MOVES:
            ev.kind = "move"
        elif cmd == "G20":
            self.imperial = True
        elif cmd == "G21":
            self.imperial = False
        elif cmd == "G90":
            self.rel = self.rel_e = False
        elif cmd == "G91":
            self.rel = self.rel_e = True
        elif cmd == "M82":
            self.rel_e = False
        elif cmd == "M83":
            self.rel_e = True
        elif cmd and cmd[0] == "T" and cmd[1:].lstrip("+-").isdigit():
            self.tool = int(cmd[1:])
        if cmd and cmd[0] == "G":
            for l, t in w[1:]:
                l = l.lower()
                if l in ARGS:
                    ev.given.add(l)
                    v = number(t)
                    if v is not None:
                        ev.args[l] = v * INCH // 10 if self.imperial else v
        a = ev.args
        ev.rel, ev.rel_e, ev.imperial = self.rel, self.rel_e, self.imperial
        if ev.kind == "move":
            if "f" in a:
                self.f = a["f"]
            for k, l in enumerate("xyz"):
                if l in a:
                    self.pos[k] = self.pos[k] + a[l] if self.rel else a[l] + self.offs[k]
            if "e" in a:
                if self.rel_e:
                    self.pos[3] += a["e"]
                else:
                    ne = a["e"] + self.offs[3]
                    self.pos[3] = ne
            if "z" in a:
                self.height = self.height + a["z"] if self.rel and self.height is not None else a["z"]
        elif cmd == "G28":
            ev.kind = "home"
            named = [k for k, l in enumerate("xyz") if l in ev.given]
            for k in named or range(3):
                self.pos[k] = self.home[k]
                self.offs[k] = 0
            ev.homed = tuple(named or range(3))
        elif cmd == "G92":
            ev.kind = "set"
            if not (ev.given & set("xyze")):
                self.offs = list(self.pos)
                ev.set_axes = (0, 1, 2, 3)
            else:
                ev.set_axes = tuple(k for k, l in enumerate("xyze") if l in a)
                for k, l in enumerate("xyze"):
                    if l in a:
                        self.offs[k] = self.pos[k] - a[l]
                if "z" in a:
                    self.height = a["z"]
        elif cmd == "G4":
            ev.kind = "dwell"
        ev.end = tuple(self.pos)
        ev.offs = tuple(self.offs)
        ev.f = self.f
        ev.tool = self.tool
        ev.height = self.height
        return ev


def run(lines, home=(0, 0, 0)):
    """Execute the non-blank lines of a program; one Ev per line."""
    m = Machine(home)
    return [m.step(l.strip()) for l in lines if l.strip()]


def extrudes(ev):
    """The move feeds a positive amount of filament."""
    return ev.kind == "move" and "e" in ev.args and ev.end[3] > ev.start[3]


def printed_heights(evs):
    """Heights (scaled, not rounded) at which filament is fed, None included when fed before any height."""
    return {ev.height for ev in evs if extrudes(ev)}


def stretches(evs):
    """Runs of lines at constant programmed height: [(height, [Ev, ...])], in program order."""
    res = []
    for ev in evs:
        if not res or res[-1][0] != ev.height:
            res.append((ev.height, []))
        res[-1][1].append(ev)
    return res
