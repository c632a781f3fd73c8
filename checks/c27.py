"""C27: the command-line tools are faithful filters."""
import os
import subprocess
import sys

from hypothesis import strategies as st

from checks import c24, c25
from checks.c10 import AMOUNT
from pbt import gen, lib, slicer
from pbt.harness import Sub, check
from pbt.sutpath import REPO

VERBOSITY = st.sampled_from([[], [], ["-v"], ["-q"], ["-vv"], ["-q", "-q"], ["--quiet"], ["--verbose"], ["-v", "-q", "-v", "-v"], ["-qqq"], ["-qqqq"], ["-vvvv"], ["-q", "--verbose", "-q", "-q"]])
IO = st.sampled_from(["stream", "in", "in-out", "dash"])


@st.composite
def io_s(draw):
    return {"io": draw(IO), "verbosity": draw(VERBOSITY), "crlf": draw(st.integers(0, 4)) == 0, "open_end": draw(st.integers(0, 3)) == 0}


def opt(name, value):
    return [name, repr(value)]


@st.composite
def mod_s(draw):
    c = draw(io_s())
    c.update(tool="gcode_mod", lines=draw(gen.program(layered=True, max_lines=30, decorate=draw(st.booleans()))))
    steps, o = [], []
    x, y = draw(st.one_of(st.none(), AMOUNT)), draw(st.one_of(st.none(), AMOUNT))
    if x is not None:
        o.append(opt("-x", x / 1000.0))
    if y is not None:
        o.append(opt("-y", y / 1000.0))
    if x is not None or y is not None:
        steps.append(["translate", {"x": x / 1000.0 if x is not None else None, "y": y / 1000.0 if y is not None else None}])
    if draw(st.booleans()):
        o.append(draw(st.sampled_from([["-e"], ["-e"], ["-ee"], ["-e", "-e", "-e"]])))
        steps.append(["relative", {}])
    p = draw(st.one_of(st.none(), st.integers(0, 5), st.integers(-2, 5)))
    if p is not None:
        o.append(opt("-p", p))
        steps.append(["pause", {"layers": [p]}])
    c["options"] = [w for ws in draw(st.permutations(o)) for w in ws]
    c["steps"] = steps
    return c


@st.composite
def arc_s(draw):
    c = draw(io_s())
    c.update(tool="gcode_optimize_arcs", lines=draw(arc_lines()), options=[], steps=[["arcs", {}]])
    if c["io"] in ("in", "stream", "in-out") and draw(st.integers(0, 3 if c["io"] == "in-out" else 1)) == 0:
        c["options"] = [draw(st.sampled_from(["-i", "--inplace"]))]
    return c


@st.composite
def arc_lines(draw):
    lines = draw(gen.program(max_lines=12, decorate=False))
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        n = draw(st.integers(8, 30))
        pts = slicer.ngon(draw(st.integers(n + 1, 80)), draw(st.integers(2000, 30000)), 50000, 50000, draw(st.integers(0, 6)))[:n]
        rel = draw(st.booleans())
        lines += ["M83" if rel else "M82", "G92 E0", "G90", "G1 X%s Y%s F3000" % tuple(map(slicer.um, pts[0]))]
        lines += ["G1 X%s Y%s E%s F1200" % (slicer.um(p[0]), slicer.um(p[1]), "0.2" if rel else gen.dec(2 * (k + 1), 1))
                  for k, p in enumerate(pts[1:])]
        lines.append("M107")
    return lines


@st.composite
def stretch_s(draw):
    c = draw(io_s())
    d = draw(st.sampled_from(["slic3r", "cura"]))
    lines, _ = slicer.render(draw(slicer.job(max_layers=2, max_items=3)), d, rel_e=draw(st.booleans()))
    # the profile, in whatever comment
    how = draw(st.sampled_from([None, None, "; %s", "M107 ;%s", "(%s)", ";  was %s"]))
    if how:
        lines = [how % l[1:] if l.startswith(";CURA_PROFILE_STRING") else l for l in lines]
    lines = lines + draw(st.sampled_from([[], [], ["G91", "G1 Z5 F3000"], ["M83"], ["M82"], ["G90"]]))
    s = draw(slicer.SETTINGS)
    if "stretch_strength" in s and draw(st.integers(0, 3)) == 0:
        s = dict(s, stretch_strength=-s["stretch_strength"])
    c.update(tool="gcode_stretch", lines=lines, options=c24.options(s),
             steps=[["relative", {}], ["cura" if any("CURA_PROFILE_STRING" in l for l in lines) else "slic3r", s]])
    return c


@st.composite
def temp_s(draw):
    c = draw(c25.case_s())
    c["start"], c["end"] = c["start"] // 10 * 10, c["end"] // 10 * 10
    c.update(draw(io_s()))
    o = []
    if c["min"] != 10 or draw(st.booleans()):
        o.append([draw(st.sampled_from(["--min_z_change", "-z"])), repr(c["min"] / 100.0)])
    if c["mode"] == "continuous":
        o.append([draw(st.sampled_from(["--continuous", "-c"]))])
    if c["steps"] != 10 or draw(st.booleans()):
        o.append([draw(st.sampled_from(["--steps", "-s"])), str(c["steps"])])
    c.update(tool="gcode_tempcal", options=[w for ws in draw(st.permutations(o)) for w in ws])
    return c


def expected(case):
    if case["tool"] == "gcode_tempcal":
        return c25.calibrate(case)
    return lib.filtered(case["lines"], *[(n, kw) for n, kw in case["steps"]])


def source(case):
    eol = "\r\n" if case["crlf"] else "\n"
    t = "".join(l + eol for l in case["lines"])
    return t[:-len(eol)] if case["open_end"] and t else t


def args(case, infile, outfile):
    """Arguments in the order the tool wants them, options before or after."""
    a = list(case["options"]) + list(case["verbosity"])
    pos = [str(case["start"] // 10), str(case["end"] // 10)] if case["tool"] == "gcode_tempcal" else []
    return pos + {"stream": [], "in": [infile], "in-out": [infile, outfile], "dash": ["-", "-"]}[case["io"]] + a


def differ(got, want):
    a, b = got.split("\n"), want.split("\n")
    return next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), ("", ""))


def run_tool(case, rec, runner):
    want = expected(case)
    text = source(case)
    d = lib.scratch()
    infile, outfile = os.path.join(d, "in.gcode"), os.path.join(d, "out.gcode")
    with open(infile, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    if os.path.exists(outfile):
        os.remove(outfile)
    a = args(case, infile, outfile)
    files = case["io"] in ("in", "in-out")
    rc, out, err = runner(case["tool"], a, None if files else text)
    with open(infile, encoding="utf-8", newline="") as f:
        after = f.read()
    what = "%s %s" % (case["tool"], " ".join(a))
    inplace = bool({"-i", "--inplace"} & set(case["options"])) and files
    if not inplace:
        check(after == text, "%s: the input file was modified", what)
    if want is None:
        check(rc != 0, "%s: refuses the program with status 0", what)
        check(out == "", "%s: refuses the program, but writes %r", what, out[:200])
        rec.label("refused")
        return
    check(rc == 0, "%s: ends with status %r, %s", what, rc, err[-300:])
    want_text = "".join(l + "\n" for l in want)
    if inplace:
        # whatever becomes of an output file that is named as well
        check(out == "", "%s: writes %r to standard output", what, out[:200])
        got = after
    elif case["io"] == "in-out":
        check(out == "", "%s: writes %r to standard output", what, out[:200])
        with open(outfile, encoding="utf-8", newline="") as f:
            got = f.read()
    else:
        got = out
    check(got == want_text, "%s: writes %r where the library gives %r", what, *differ(got, want_text))
    check(sorted(os.listdir(d)) == sorted(["in.gcode"] + (["out.gcode"] if case["io"] == "in-out" else [])),
          "%s: leaves the files %r", what, os.listdir(d))
    rec.nontrivial(want != [l.strip() for l in case["lines"] if l.strip()] and
                   (case["io"] != "stream" or bool(case["verbosity"]) or bool(case["options"])))
    rec.label(case["io"])
    rec.label("in place", inplace)
    rec.label("verbosity", bool(case["verbosity"]))
    rec.label("changed", want != [l.strip() for l in case["lines"] if l.strip()])


def in_process(tool, argv, stdin):
    # a terminal's or a pipe's line ends are translated, too
    r = lib.cli(tool, argv, stdin.replace("\r\n", "\n") if stdin is not None else None, log=True)
    return r.rc, r.out, "%r %s" % (r.exc, r.err)


def t_run(case, rec):
    run_tool(case, rec, in_process)


def own_process(tool, argv, stdin):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "gcodeutils.%s" % tool] + argv, env=env, cwd=lib.scratch(),
                       input=(stdin or "").encode("utf-8"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8")


def t_process(case, rec):
    run_tool(case, rec, own_process)
    rec.label(case["tool"])


RULE = "programs the tool changes, not run with bare standard streams"
SUBS = [Sub("mod", mod_s(), t_run, 1500, rule=RULE), Sub("arcs", arc_s(), t_run, 1000, rule=RULE),
        Sub("stretch", stretch_s(), t_run, 800, rule=RULE), Sub("tempcal", temp_s(), t_run, 1500, rule=RULE),
        Sub("process", st.one_of(mod_s(), arc_s(), stretch_s(), temp_s()), t_process, 240, rule=RULE)]
ASSUMPTIONS = ["the output file is another one than the input file", "file names do not matter"]
