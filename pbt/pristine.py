"""Run a function in a process which has not processed any program yet.

The first call in a worker forks a process which imports the code under test and does nothing else; each call then
runs in a fork of that one, so that nothing an earlier case left behind can be seen, or hide a difference.
"""
import importlib
import os
import pickle
import resource
import struct

from pbt import harness
from pbt.harness import Violation

_server = {}
MODULES = ["gcodeutils.gcoder", "gcodeutils.filter.translate", "gcodeutils.filter.relative_extrusion",
           "gcodeutils.filter.arc_optimizer", "gcodeutils.stretch.stretch", "gcodeutils.visit.iterator",
           "gcodeutils.visit.pause_at_layer", "gcodeutils.gcode_tempcal"]


def _read(fd, n):
    parts = []
    while n:
        b = os.read(fd, n)
        if not b:
            return None
        parts.append(b)
        n -= len(b)
    return b"".join(parts)


def _recv(fd):
    head = _read(fd, 8)
    return None if head is None else _read(fd, struct.unpack("<Q", head)[0])


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _work(request):
    module, name, args = pickle.loads(request)
    try:
        return pickle.dumps(("ok", getattr(importlib.import_module(module), name)(*args)))
    except Violation as e:
        return pickle.dumps(("violation", str(e)))
    except BaseException as e:  # noqa: B902
        return pickle.dumps(("error", "%s: %s" % (type(e).__name__, e)))


def _serve(inp, out):
    for m in MODULES:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    while True:
        request = _recv(inp)
        if request is None:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            limit = int(harness.CASE_CPU_LIMIT) + 1
            resource.setrlimit(resource.RLIMIT_CPU, (limit, limit))
            try:
                _send(w, _work(request))
            finally:
                os._exit(0)
        os.close(w)
        answer = _recv(r)
        os.close(r)
        os.waitpid(pid, 0)
        _send(out, answer if answer is not None else pickle.dumps(("violation", "did not end, or ended its process")))


def call(module, name, *args):
    """getattr(module, name)(*args) in a pristine process; violations are raised here."""
    pid = os.getpid()
    if pid not in _server:
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        if os.fork() == 0:
            os.close(w1)
            os.close(r2)
            try:
                _serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        _server[pid] = (w1, r2)
    w, r = _server[pid]
    _send(w, pickle.dumps((module, name, args)))
    answer = _recv(r)
    if answer is None:
        raise RuntimeError("the pristine process is gone")
    kind, value = pickle.loads(answer)
    if kind == "violation":
        raise Violation(value)
    if kind == "error":
        raise RuntimeError("in a pristine process: " + value)
    return value
