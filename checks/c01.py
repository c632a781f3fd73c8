"""C01: reading a program and writing it back loses nothing."""
from hypothesis import strategies as st

from pbt import gen, lib
from pbt.harness import Sub, check, sut

CHARS = "GMTNXYZEFIJSgmtnxyzefij0123456789.-+ ;()*/%#:\t=<>\u00b5"
JUNK = st.one_of(st.text(alphabet=CHARS, max_size=12),
                 st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\n\r"), max_size=6))


@st.composite
def texts(draw):
    lines = draw(gen.program(junk=True, inches=True, max_lines=24))
    for _ in range(draw(st.integers(0, 5))):
        lines.insert(draw(st.integers(0, len(lines))), draw(JUNK))
    return {"lines": lines, "eol": draw(st.sampled_from(["", "\n", "\r\n"])), "cut": draw(st.integers(0, len(lines)))}


def expected(lines):
    return [l.strip() for l in lines if l.strip()]


def same(got, want, what):
    if got == want:
        return
    for i, (a, b) in enumerate(zip(got, want)):
        check(a == b, "%s: line %d is %r, the input has %r", what, i, a, b)
    check(False, "%s: %d lines written for %d (first surplus or missing: %r)", what, len(got), len(want),
          (got + want)[min(len(got), len(want))] if len(got) < len(want) else got[len(want)])


def layers_of(g):
    return sum(1 for l in g.all_layers if l)


def t_roundtrip(case, rec):
    src = [l + case["eol"] for l in case["lines"]]
    want = expected(case["lines"])
    g = lib.load(src)
    got = lib.text(g)
    want_text = "".join(l + "\n" for l in want)
    if got != want_text:
        same(got.split("\n")[:-1], want, "batch")
        check(False, "batch: text differs")
    flat = [l.raw for l in g.lines]
    same(flat, want, "line list")
    again = lib.text(lib.load(got.split("\n")))
    check(again == got, "reading and writing the written text again changes it")
    rec.nontrivial(len(want) >= 3 and layers_of(g) >= 2)
    rec.label("layers>=3", layers_of(g) >= 3)
    rec.label("empty", not want)


def t_variants(case, rec):
    src = [l + case["eol"] for l in case["lines"]]
    want = expected(case["lines"])
    same(lib.out_lines(lib.load(src, "LightGCode")), want, "memory-light")
    g = lib.mod("gcodeutils.gcoder")
    with sut("appending lines"):
        inc = g.GCode(src[:case["cut"]])
        for l in src[case["cut"]:]:
            inc.append(l)
    same(lib.out_lines(inc), want, "appended from line %d" % case["cut"])
    # through the command line tool; what a text file can hold
    ok = [l for l in case["lines"] if not (set(l) & set("\r\n"))]
    r = lib.cli_ok("gcode_mod", [], "".join(l + "\n" for l in ok))
    same(r.out.split("\n")[:-1], expected(ok), "gcode_mod without options")
    rec.nontrivial(len(want) >= 3 and 0 < case["cut"] < len(src))
    rec.label("light/append/cli with >=2 layers", layers_of(inc) >= 2)


def t_large(case, rec):
    lines = gen.expand(case)
    t_roundtrip({"lines": lines, "eol": ""}, rec)
    rec.label("%d lines" % case["size"])


SUBS = [
    Sub("large", gen.large(inches=True), t_large, 32, 400, rule="programs of at least 300 lines in at least 2 layers"),
    Sub("roundtrip", texts(), t_roundtrip, 2600,
        rule="random programs of all command kinds plus arbitrary text lines, at least 3 lines in at least 2 layers"),
    Sub("variants", texts(), t_variants, 1600,
        rule="the same programs loaded memory-light, partly appended, and through gcode_mod; split strictly inside"),
]
