"""C24: slicer metadata selects the edge width and the kind of each loop."""
from hypothesis import strategies as st

from checks.c22 import displacements
from pbt import lib, machine as M, slicer
from pbt.harness import Sub, check

SC = M.SC
TOL = 0.0011
DIALECT = st.sampled_from(["slic3r", "cura", "skeinforge"])


def spelled(dialect, w, style):
    """The width comment in one of the forms slicers use."""
    t = slicer.um(w)
    if dialect == "slic3r":
        return ["; external perimeters extrusion width = %smm" % t, "; external perimeters extrusion width = %.3fmm" % (w / 1000.0),
                "; external perimeters extrusion width  =  %smm (and so on)" % t,
                "; external perimeters extrusion width = %smm" % t.lstrip("0")][style % 4]
    if dialect == "skeinforge":
        return ["(<edgeWidth> %s </edgeWidth>)" % t, "(<edgeWidth> %.3f </edgeWidth>)" % (w / 1000.0)][style % 2]
    extra = [("layer_height=0.2", "wall_thickness=0.8"), (), ("start=M109 S{t}", "x=a=b", "name=\u00b5m"), ("nozzle=7", "a=")][style % 4]
    return slicer.cura_profile(w, extra, style // 4 % (len(extra) + 1))


@st.composite
def width_s(draw):
    j = draw(slicer.job(max_layers=3, max_items=4))
    return {"job": j, "dialect": draw(DIALECT), "settings": draw(slicer.SETTINGS), "style": draw(st.integers(0, 15)),
            "at": draw(st.integers(0, 10000)), "width": draw(slicer.WIDTH)}


def stretched(lines, truth, dialect, settings):
    out = lib.filtered(lines, (dialect, settings))
    a, b = M.run(lines), M.run(out)
    check(len(a) == len(b), "%d lines became %d", len(a), len(b))
    return [(x, y, t, ((y.end[0] - x.end[0]) / SC, (y.end[1] - x.end[1]) / SC)) for x, y, t in zip(a, b, truth) if t]


def same(what, a, b, k=1.0):
    check(len(a) == len(b), "%s: %d stretched lines instead of %d", what, len(b), len(a))
    for (x, y, t, p), (_, y2, _, q) in zip(a, b):
        check(all(abs(u * k - v) <= 0.00055 * (1 + k) for u, v in zip(p, q)), "%s: line %d %r became %r, but %r", what, x.idx, x.raw,
              y.raw, y2.raw)


def t_width(case, rec):
    d, w, s = case["dialect"], case["width"], case["settings"]
    job = dict(case["job"], width=w, meta="start")
    base = displacements({"job": job, "dialect": d}, s)
    # the same comment anywhere
    lines, truth = slicer.render(dict(job, width=None), d)
    k = case["at"] % (len(lines) + 1)
    if d == "skeinforge":
        # it stands in the header
        k = case["at"] % (min(i for i, l in enumerate(lines) if l.startswith("(<layer>")) + 1)
    meta = spelled(d, w, case["style"])
    same("with %r as line %d" % (meta, k), base, stretched(lines[:k] + [meta] + lines[k:], truth[:k] + [None] + truth[k:], d, s))
    # none at all is 0.4 mm
    bare = stretched(lines, truth, d, s)
    same("without any width instead of 0.4 mm", displacements({"job": dict(job, width=400), "dialect": d}, s), bare)
    if d == "cura":
        # nor is there one in a profile that names other settings only
        other = slicer.cura_profile(None, [(), ("layer_height=0.2", "nozzle=0.9"), ("x=nozzle_size", "NOZZLE_SIZE=1")][case["style"] % 3])
        same("with a profile that names no nozzle size", bare, stretched(lines[:k] + [other] + lines[k:], truth[:k] + [None] + truth[k:], d, s))
    rec.nontrivial(any(abs(u - v) > 0.005 for p, q in zip(base, bare) for u, v in zip(p[3], q[3])))
    rec.label(d)


@st.composite
def kinds_s(draw):
    return {"job": draw(slicer.job(max_layers=3, max_items=6)), "dialect": draw(DIALECT),
            "kind": draw(st.sampled_from(["outer", "inner", "extra"])), "ratios": draw(st.permutations([0.15, 0.3, 0.45]))}


def t_kinds(case, rec):
    d, k = case["dialect"], case["kind"]
    names = [slicer.RATIO[x] for x in ("outer", "inner", "extra")]
    full = dict(zip(names, case["ratios"]))
    only = {n: (r if n == slicer.RATIO[k] else 0.0) for n, r in full.items()}
    alike = dict.fromkeys(names, full[slicer.RATIO[k]])
    a = displacements(case, only)
    b = displacements(case, full)
    c = displacements(case, alike)
    # a loop of the same shape, of another kind with the same ratio
    shells = dict(case["job"], layers=[[dict(it, kind="extra") if it["t"] == "loop" else it for it in l] for l in case["job"]["layers"]])
    same("all loops being other shells, with the same ratio for all kinds", [q for q in c if q[2][1] >= 0],
         [q for q in displacements(dict(case, job=shells), alike) if q[2][1] >= 0])
    n = 0
    for p, q, r in zip(a, b, c):
        x, y, t = p[:3]
        if t[2] == k:
            check(p[3] == q[3], "line %d %r of a loop of kind %s is moved by %r, with settings for other kinds by %r", x.idx, x.raw,
                  k, p[3], q[3])
            check(p[3] == r[3], "line %d %r of a loop of kind %s is moved by %r, with all kinds alike by %r", x.idx, x.raw,
                  k, p[3], r[3])
            n += max(map(abs, p[3])) > 0.01
        else:
            check(max(map(abs, p[3])) <= 0.00051, "line %d %r of a loop of kind %s is moved by %r by the setting for kind %s", x.idx,
                  x.raw, t[2], p[3], k)
    rec.nontrivial(n > 0)
    rec.label("%s %s" % (d, k))


@st.composite
def scale_s(draw):
    return {"job": draw(slicer.job(max_layers=2, max_items=4)), "dialect": draw(st.sampled_from(["slic3r", "cura"])),
            "settings": draw(slicer.SETTINGS), "factor": draw(st.sampled_from([2, 3]))}


def t_scale(case, rec):
    d, s, k = case["dialect"], case["settings"], case["factor"]
    j = case["job"]
    w = 400 if j["width"] is None else j["width"]
    big = dict(j, width=w * k, layers=[[dict(it, pts=[[x * k, y * k] for x, y in it["pts"]]) if "pts" in it else it for it in l]
                                       for l in j["layers"]])
    a = displacements({"job": dict(j, width=w), "dialect": d}, s)
    b = displacements({"job": big, "dialect": d}, s)
    # what surrounds the loops is not scaled, and is of no influence
    a = [q for q in a if q[2][1] >= 0]
    b = [q for q in b if q[2][1] >= 0]
    same("%d times larger, edge width %g mm" % (k, w * k / 1000.0), a, b, float(k))
    rec.nontrivial(any(abs(u) > 0.01 for q in a for u in q[3]))
    rec.label(d)


@st.composite
def cli_s(draw):
    return {"job": draw(slicer.job(max_layers=2, max_items=4)), "dialect": draw(st.sampled_from(["slic3r", "cura"])),
            "settings": draw(slicer.SETTINGS), "foreign": draw(st.sampled_from([False] * 4 + [True])), "at": draw(st.integers(0, 10000))}


def options(s):
    res = []
    for k in sorted(s):
        res += ["--" + k, repr(s[k])]
    return res


def t_cli(case, rec):
    d, s, j = case["dialect"], case["settings"], case["job"]
    cura = d == "cura" and j["width"] is not None
    runs = []
    for rel in (True, False):
        lines, truth = slicer.render(j, d, rel_e=rel)
        if case["foreign"] and d == "slic3r":
            places = [n for n, l in enumerate(lines) if l not in ("M82", "M83")] + [len(lines)]
            k = places[case["at"] % len(places)]
            lines.insert(k, slicer.cura_profile(450))
            truth.insert(k, None)
            cura = True
        r = lib.cli_ok("gcode_stretch", options(s), "".join(l + "\n" for l in lines))
        out = r.out.split("\n")[:-1]
        want = lib.filtered(lines, ("relative", {}), ("cura" if cura else "slic3r", s))
        check(out == want, "gcode_stretch writes something else than the relative, %s-stretched program: %r instead of %r",
              "Cura" if cura else "Slic3r", *(next(((a, b) for a, b in zip(out + [None], want + [None]) if a != b), ("", ""))))
        a, b = M.run(lines), M.run(out)
        # the conversion may insert M83, and it replaces M82; the two codings switch at different lines
        switch = ("M82", "M83")
        a, b = [x for x in a if x.cmd not in switch], [x for x in b if x.cmd not in switch]
        check(len(a) == len(b), "%d lines became %d", len(a), len(b))
        runs.append((a, b))
        if cura != (d == "cura"):
            for x, y in zip(a, b):
                check(x.end[:3] == y.end[:3], "line %d %r is no shell by the %s rules, but became %r", x.idx, x.raw,
                      "Cura" if cura else "Slic3r", y.raw)
    n = 0
    for x, y, x2, y2 in zip(*(runs[0] + runs[1])):
        check(y.end[:3] == y2.end[:3] and y.f == y2.f, "%r became %r, but in absolute extrusion %r became %r", x.raw, y.raw, x2.raw, y2.raw)
        if x.is_move:
            check(abs(y.de - y2.de) <= 22000, "%r became %r, but in absolute extrusion %r became %r, which feeds another amount",
                  x.raw, y.raw, x2.raw, y2.raw)
        n += x.end[:2] != y.end[:2]
    rec.nontrivial(n > 2)
    rec.label(d)
    rec.label("rules of the other slicer", cura != (d == "cura"))


SUBS = [Sub("width", width_s(), t_width, 1500, rule="programs where the given width makes a difference of more than 0.005 mm"),
        Sub("kinds", kinds_s(), t_kinds, 2000, rule="programs with a loop of the kind that moves by more than 0.01 mm"),
        Sub("scale", scale_s(), t_scale, 1200, rule="programs with a loop that moves by more than 0.01 mm"),
        Sub("cli", cli_s(), t_cli, 1200, rule="programs where the command line stretches at least three lines")]
ASSUMPTIONS = ["absolute positioning", "a program names one edge width", "Skeinforge programs name it in the header"]
