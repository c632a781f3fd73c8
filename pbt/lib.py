"""Access to the code under test, through its public interface only."""
import contextlib
import importlib
import io
import logging
import os
import shutil
import sys
import tempfile

from pbt.harness import sut, Violation


def mod(name):
    """Import a module of the code under test; failing to import it is a violation of any property about it."""
    with sut("importing %s" % name):
        return importlib.import_module(name)


def load(lines, cls="GCode", **kw):
    g = mod("gcodeutils.gcoder")
    with sut("loading a program"):
        return getattr(g, cls)(list(lines), **kw)


def text(gcode):
    out = io.StringIO()
    with sut("writing a program"):
        gcode.write(out)
    return out.getvalue()


def out_lines(gcode):
    """The lines a program is written as."""
    t = text(gcode)
    return t.split("\n")[:-1] if t else []


FILTERS = {
    "translate": ("gcodeutils.filter.translate", "GCodeXYTranslateFilter"),
    "relative": ("gcodeutils.filter.relative_extrusion", "GCodeToRelativeExtrusionFilter"),
    "arcs": ("gcodeutils.filter.arc_optimizer", "GCodeArcOptimizerFilter"),
    "slic3r": ("gcodeutils.stretch.stretch", "Slic3rStretchFilter"),
    "cura": ("gcodeutils.stretch.stretch", "CuraStretchFilter"),
    "skeinforge": ("gcodeutils.stretch.stretch", "SkeinforgeStretchFilter"),
}


def apply(gcode, name, **kw):
    m, c = FILTERS[name]
    cls = getattr(mod(m), c)
    with sut("applying %s %r" % (name, kw)):
        cls(**kw).filter(gcode)
    return gcode


def pause(gcode, layers, digits=2):
    it = mod("gcodeutils.visit.iterator").GCodeIterator
    pal = mod("gcodeutils.visit.pause_at_layer").PauseAtLayer
    with sut("pausing at %r" % (layers,)):
        it(gcode, digits_of_precision=digits).accept(pal(list(layers)))
    return gcode


def filtered(lines, *steps):
    """Load, apply (name, kwargs) steps, write."""
    g = load(lines)
    for name, kw in steps:
        if name == "pause":
            pause(g, **kw)
        else:
            apply(g, name, **kw)
    return out_lines(g)


_tmp = [None, None]


def scratch():
    """A scratch directory of this process, removed when it ends."""
    import atexit
    if _tmp[0] is None or _tmp[1] != os.getpid():
        _tmp[0] = tempfile.mkdtemp(prefix="vp-pbt-", dir=os.environ.get("VP_SCRATCH") or None)
        _tmp[1] = os.getpid()
        import multiprocessing.util as mu
        mu.Finalize(None, shutil.rmtree, args=(_tmp[0], True), exitpriority=10)
        atexit.register(shutil.rmtree, _tmp[0], True)
    return _tmp[0]


@contextlib.contextmanager
def real_logging():
    """Logging as a fresh process has it, for command-line runs."""
    root = logging.root
    old = (logging.root.manager.disable, root.level, root.handlers[:])
    logging.disable(logging.NOTSET)
    root.handlers[:] = []
    root.setLevel(logging.WARNING)
    try:
        yield
    finally:
        logging.disable(old[0])
        root.handlers[:] = old[2]
        root.setLevel(old[1])


class Result(object):
    pass


def cli(tool, argv, stdin=None, log=False):
    """Run the main() of a command-line tool in this process.  Returns out, err (texts) and rc."""
    m = mod("gcodeutils.%s" % tool)
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    r = Result()
    out, err = io.StringIO(), io.StringIO()
    r.rc, r.exc = 0, None
    sin = io.StringIO(stdin if stdin is not None else "")
    sin.name = "<stdin>"
    with (real_logging() if log else contextlib.nullcontext()):
        sys.argv, sys.stdin, sys.stdout, sys.stderr = [tool] + list(argv), sin, out, err
        try:
            m.main()
        except SystemExit as e:
            r.rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception as e:  # what a process would end with: a traceback and status 1
            r.rc, r.exc = 1, e
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    r.out, r.err = out.getvalue(), err.getvalue()
    return r


def cli_ok(tool, argv, stdin=None, log=False):
    r = cli(tool, argv, stdin, log)
    if r.rc != 0:
        import traceback
        tb = ""
        if r.exc is not None:
            fr = traceback.extract_tb(r.exc.__traceback__)
            tb = " at " + " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(fr[-3:]))
        raise Violation("%s %s ended with status %r: %r%s %s" % (tool, argv, r.rc, r.exc, tb, r.err[-200:]))
    return r


def near(a, b, tol):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= tol
