"""C32: the printed summary tells what the library knows about the program."""
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check
from pbt.sutpath import REPO

N = r"(-?\d+(?:\.\d+)?)"


def figures(out):
    r = {}
    for axis in "XYZ":
        m = re.search(r"^\s*%s:\s*%s\s+-\s+%s\s+\(%s\)" % (axis, N, N, N), out, re.M)
        check(m, "no extent of %s in the summary %r", axis, out)
        r[axis] = [float(v) for v in m.groups()]
    m = re.search(r"^Filament used:\s*%s\s*mm" % N, out, re.M)
    check(m, "no filament in the summary %r", out)
    r["filament"] = float(m.group(1))
    m = re.search(r"^Number of layers:\s*(\d+)\s*$", out, re.M)
    check(m, "no number of layers in the summary %r", out)
    r["layers"] = int(m.group(1))
    m = re.search(r"^Estimated duration:\s*(.*?)\s*$", out, re.M)
    check(m, "no duration in the summary %r", out)
    r["duration"] = m.group(1)
    return r


def t_summary(case, rec):
    lines = case["lines"]
    path = os.path.join(lib.scratch(), "summary.gcode")
    data = "".join(l + "\n" for l in lines).encode("utf-8")
    with open(path, "wb") as f:
        f.write(data)
    try:
        out = lib.cli_ok("gcoder", [path]).out
        with open(path, "rb") as f:
            check(f.read() == data, "the file has been changed")
        if case["process"]:
            p = subprocess.run([sys.executable, "-W", "ignore", "-m", "gcodeutils.gcoder", path], cwd=REPO, capture_output=True,
                               env=dict(os.environ, PYTHONIOENCODING="utf-8"), timeout=60)
            check(p.returncode == 0, "python -m gcodeutils.gcoder ended with status %d: %s", p.returncode, p.stderr[-300:])
            check(figures(p.stdout.decode("utf-8")) == figures(out), "the process prints another summary")
            rec.label("process")
    finally:
        if os.path.exists(path):
            os.unlink(path)
    r = figures(out)
    g = lib.load(lines)

    def same(name, shown, value):
        check(abs(shown - value) <= 0.005 + 1e-6 * abs(value), "%s is shown as %r instead of %r", name, shown, value)
    for axis, names in zip("XYZ", (("xmin", "xmax", "width"), ("ymin", "ymax", "depth"), ("zmin", "zmax", "height"))):
        for name, shown in zip(names, r[axis]):
            same(name, shown, getattr(g, name))
    same("the filament", r["filament"], g.filament_length)
    check(r["layers"] == g.layers_count, "%d layers are shown instead of %d", r["layers"], g.layers_count)
    check(r["duration"] == str(g.duration), "the duration is shown as %s instead of %s", r["duration"], g.duration)

    # and it is what executing the program does
    evs = M.run(lines)
    printed = {round(ev.height / M.SC, 3) for ev in evs if M.extrudes(ev) and ev.height is not None}
    if gen.separated(evs):
        check(r["layers"] == len(printed), "%d layers are shown, %d heights are printed", r["layers"], len(printed))
        same("the highest printed height", r["Z"][1], max(printed | {0.0}))
    rec.label("several heights", len(printed) > 1)
    rec.nontrivial(r["filament"] > 0 and r["layers"] > 0)


@st.composite
def case_s(draw):
    return {"lines": draw(gen.program(layered=True, junk=True, max_lines=30, inches=draw(st.booleans()))),
            "process": draw(st.integers(0, 60)) == 0}


SUBS = [Sub("summary", case_s(), t_summary, 2000, rule="filament is used at some height")]
ASSUMPTIONS = ["heights at least 0.02 mm apart for the number of layers"]
