"""C02: every line is decoded to the right command and arguments."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check, sut

ARGS = M.ARGS
NUM = st.one_of(st.integers(-250000, 250000), st.sampled_from([0, 1, -1, 1000, 500, -500, 999, 100000]))
FINE = st.integers(-10 ** 14, 10 ** 14)
GCMD = ["G0", "G1", "G2", "G3", "G4", "G28", "G92", "G29", "G10", "G1", "G1"]
NCMD = ["M104", "M82x", "M117", "M106", "T0", "T1", "M117", "M92", "M204"]
HIDDEN = ["(S98 P97)", "(X99)", "(G1 Y98 E97)", "(x)", "( e5 )", "()"]
TAIL = ["; S9 P8", "; X9 Y9", ";E3 F100", "; G92 X1 (Y2", ";", "; plain", ";(", ";)"]


@st.composite
def line(draw):
    """{"raw", "cmd", "args": {letter: number text}} -- the expectation is known by construction."""
    kind = draw(st.sampled_from(["g"] * 8 + ["other"] * 2 + ["comment", "unit"]))
    if kind == "comment":
        pre = draw(st.sampled_from(["; G1 X1", ";G0 Y2 E3", "(G1 X1)", "(<edge> outer)", ";", "(x) G1 X5 E2",
                                    "N5 ; G1 X5", "(a(b)c)"]))
        return {"raw": pre, "cmd": None, "args": {}}
    if kind == "unit":
        c = draw(st.sampled_from(["G20", "G21", "G21"]))
        return {"raw": c, "cmd": c, "args": {}}
    gap = st.sampled_from([" ", " ", " ", "", "  ", "\t"])
    cmd = draw(st.sampled_from(GCMD if kind == "g" else NCMD)).replace("x", "")
    lower = draw(st.sampled_from([0, 0, 0, 1, 2]))
    parts = [cmd]
    args, more = {}, {}
    out = ""
    n = draw(st.sampled_from([None, None, None, 0, 7, 12345]))
    if n is not None:
        out = "N%d" % n + draw(gap)
    out += cmd
    for _ in range(draw(st.integers(0, 6))):
        what = draw(st.sampled_from(["arg"] * 8 + ["other", "bare", "hidden"]))
        if what == "hidden":
            out += draw(gap) + draw(st.sampled_from(HIDDEN))
            continue
        if what == "other":
            l = draw(st.sampled_from(["S", "P", "S", "P", "R", "A", "K", "Q", "H"]))
            t = gen.spell(draw(NUM), 3, draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])))
            out += draw(gap) + l + t
            more.setdefault(l, t)
            continue
        l = draw(st.sampled_from("XYZEFIJ"))
        if what == "bare":
            if kind == "g":
                out += " " + l + draw(st.sampled_from(["", "", "-", "+", ".", "-."])) + " "
            continue
        places = draw(st.sampled_from([3] * 8 + [9]))
        t = gen.spell(draw(NUM if places == 3 else FINE), places, draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])))
        out += draw(gap) + l + t
        if kind == "g":
            args[l.lower()] = t
    if draw(st.integers(0, 5)) == 0:
        out += draw(gap) + "*" + str(draw(st.integers(0, 255)))
    if draw(st.integers(0, 3)) == 0:
        out += draw(gap) + draw(st.sampled_from(TAIL))
    if lower == 1:
        out = out.lower()
    elif lower == 2:
        out = out.swapcase()
    pad = draw(st.sampled_from(["", "", " ", "\t"]))
    return {"raw": pad + out + pad, "cmd": cmd, "args": args, "more": more}


@st.composite
def case_s(draw):
    return draw(st.lists(line(), min_size=1, max_size=8))


def compare(l, cmd, args, imperial, raw):
    check(l.command == cmd, "command of %r is read as %r instead of %r", raw, l.command, cmd)
    for a in ARGS:
        v = getattr(l, a)
        if a not in args:
            check(v is None, "%r sets %s to %r, the line does not set it", raw, a.upper(), v)
            continue
        t = args[a]
        w = float(t) * (25.4 if imperial else 1.0) if isinstance(t, str) else t
        check(v is not None, "%s of %r is not read", a.upper(), raw)
        check(abs(v - w) <= 1e-12 * max(1.0, abs(w)), "%s of %r is read as %r instead of %r", a.upper(), raw, v, w)


def t_built(case, rec):
    for light in (False, True):
        if light:
            # the decoding seen by a light program is the one of its line callback
            seen = []
            lib.load([c["raw"] for c in case], "LightGCode", line_callback=seen.append)
            got = seen
        else:
            got = lib.load([c["raw"] for c in case]).lines
        check(len(got) == len(case), "%d lines read for %d", len(got), len(case))
        imp = False
        for c, l in zip(case, got):
            if c["cmd"] == "G20":
                imp = True
            elif c["cmd"] == "G21":
                imp = False
            compare(l, c["cmd"], c["args"], imp, c["raw"])
            for letter in "SP" if "more" in c else "":
                t = c["more"].get(letter)
                with sut("looking up a word"):
                    v = getattr(lib.mod("gcodeutils.gcoder"), letter)(l)
                check(v == (None if t is None else float(t)), "the %s word of %r is looked up as %r", letter, c["raw"], v)
    rec.nontrivial(any(len(c["args"]) >= 2 for c in case))
    rec.label("inch", any(c["cmd"] == "G20" for c in case))
    rec.label("comment with code", any("(" in c["raw"] or ";" in c["raw"] for c in case))
    rec.label("line number", any(c["raw"].strip()[:1] in "nN" for c in case))


def t_program(case, rec):
    lines = [l for l in case if l.strip()]
    got = lib.load(lines).lines
    evs = M.run(lines)
    check(len(got) == len(evs), "%d lines read for %d", len(got), len(evs))
    for ev, l in zip(evs, got):
        if ev.cmd is None and M.strip_comments(ev.raw)[0].strip():
            continue                       # text that is no command: nothing is claimed about it
        compare(l, ev.cmd, {k: v / M.SC for k, v in ev.args.items()}, False, ev.raw)
    rec.nontrivial(sum(1 for ev in evs if len(ev.args) >= 2) >= 2)


SUBS = [
    Sub("built", case_s(), t_built, 6000,
        rule="lines assembled from words with a known decoding, in all spellings; some line has two arguments"),
    Sub("program", gen.program(inches=True, max_lines=25), t_program, 1500,
        rule="whole programs decoded by an independent tokenizer; two lines with two arguments"),
]
