"""C28: the Cura plugins rewrite the file as the library would, or leave it alone."""
import io
import os
import sys

from hypothesis import strategies as st

from checks import c25
from pbt import gen, lib, machine as M, slicer
from pbt.harness import Sub, Violation, check, sut
from pbt.sutpath import REPO


def plugin(name, lines, **params):
    """Run a plugin on a file in a scratch directory, as Cura does.  (text afterwards, exception or None)"""
    path = os.path.join(REPO, "cura_plugins", name)
    d = os.path.join(lib.scratch(), "plugin")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "model.gcode")
    with open(f, "w", encoding="utf-8") as o:
        o.write("".join(l + "\n" for l in lines))
    with open(path) as src:
        code = compile(src.read(), path, "exec")
    old_path, old_cwd = sys.path[:], os.getcwd()
    err = None
    os.chdir(d)
    try:
        exec(code, dict(params, filename=f, __name__="plugin"))
    except Exception as e:
        err = e
    finally:
        os.chdir(old_cwd)
        sys.path[:] = old_path
    check(os.listdir(d) == ["model.gcode"], "the plugin leaves the files %r", os.listdir(d))
    with open(f, encoding="utf-8") as i:
        return i.read(), err


def as_text(lines):
    return "".join(l + "\n" for l in lines)


@st.composite
def stretch_s(draw):
    kind = draw(st.sampled_from(["cura", "cura", "cura", "slic3r", "any"]))
    if kind == "any":
        lines = draw(gen.program(decorate=False))
    else:
        lines = slicer.render(draw(slicer.job(max_layers=3, max_items=4)), kind, rel_e=draw(st.booleans()))[0]
    return {"lines": lines, "strength": draw(st.sampled_from([1.0, 0.5, 2.0, 0.0, 1.5, 3.25]))}


def t_stretch(case, rec):
    got, err = plugin("stretch_plugin.py", case["lines"], stretch_strength=case["strength"])
    check(err is None, "the plugin raised %s: %s", type(err).__name__, err)
    want = as_text(lib.filtered(case["lines"], ("relative", {}), ("cura", {"stretch_strength": case["strength"]})))
    check(got == want, "the file holds something else than the relative, stretched program: %r instead of %r",
          *next((a, b) for a, b in zip(got.split("\n") + [None], want.split("\n") + [None]) if a != b)
          if got != want else ("", ""))
    rec.nontrivial(got != as_text([l.strip() for l in case["lines"] if l.strip()]))
    rec.label("stretched", want != as_text(lib.filtered(case["lines"], ("relative", {}))))


@st.composite
def temp_s(draw):
    c = draw(c25.case_s())
    c["mode"] = "step"
    c["float"] = draw(st.booleans())
    return c


def t_temp(case, rec):
    num = float if case["float"] else (lambda v: v)
    got, err = plugin("tempcal_plugin.py", case["lines"], start_temp=num(c25.number(case["start"])), end_temp=num(c25.number(case["end"])),
                      min_z_change=num(case["min"] / 100.0), steps=num(case["steps"]))
    want = c25.calibrate(case)
    if want is None:
        check(err is not None, "the library refuses the program, the plugin doesn't")
        check(got == as_text(case["lines"]), "the program is refused, but the file does not hold the original one any more")
        rec.label("refused")
        rec.nontrivial(len(case["lines"]) > 3)
        return
    if err is not None:
        raise Violation("the plugin raised %s: %s" % (type(err).__name__, err))
    check(got == as_text(want), "the file holds something else than the program with the gradient: %r instead of %r",
          *next((a, b) for a, b in zip(got.split("\n") + [None], want + [None, None]) if a != b) if got != as_text(want) else ("", ""))
    rec.nontrivial(len(want) > len([l for l in case["lines"] if l.strip()]) + 1)
    rec.label("float steps", case["float"])


SUBS = [Sub("stretch", stretch_s(), t_stretch, 2000, rule="programs the plugin changes"),
        Sub("tempcal", temp_s(), t_temp, 2500, rule="programs with at least two insertions, or refused ones of at least four lines")]
ASSUMPTIONS = ["Cura runs a plugin with its parameters and the file name as global variables"]
