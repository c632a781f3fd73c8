"""Slicer-like programs in the Slic3r, Cura and Skeinforge dialects, with the ground truth about their loops.

A job is plain data: {"width": um or None, "layers": [[item, ...], ...], ...}.  An item is
    {"t": "loop", "kind": "outer"|"inner"|"extra", "pts": [[x, y], ...] (um, closed: the first vertex is come back to),
     "pre": ..., "in": [...], "f": ...}
 or {"t": "fill", "what": ..., "pts": [...]} or {"t": "cmd", "line": ...}.
render() turns a job into lines and, for each of them, None or (loop number, vertex number, kind).
"""
import base64
import math
import zlib

from hypothesis import strategies as st

from pbt import gen

INSIDE = ["M106 S255", "M107", "; a note", "G1 F1500", "M104 S205", "G4 P0", "G92 E0", "G0 F900", "(paren)", "M117 X1 Y2",
          "M117 M82", "T0"]
BETWEEN = ["M106 S127", "; between", "G1 F3000", "M104 S200", "G92 E0", "G1 E-1 F2400", "G1 E1 F2400 ; unretract",
           "G1 X12.5 Y99 F9000", "G0 X0 Y0", "G28 X Y", "M400", "G21", "T1", "M140 S60", "G1 X5", "G0 Y7.25",
           "G2 X31 Y42 I5 J5", "G3 X-20 I10 J0 F3000",
           "G28 X", "G28 Y0", "G92 X5 Y-3.25", "G92 Y12", "G92 X0",
           # a relative excursion; G90 makes the extruder absolute again, too
           "G91|G1 X3.5 Y-2 F6000|G90|M83?", "G91|G0 X-1.25|G1 Y4 F3000|G90|M83?"]
TAGS = {"fill": {"slic3r": "; infill", "cura": ";TYPE:FILL", "skeinforge": None},
        "skirt": {"slic3r": "; skirt", "cura": ";TYPE:SKIRT", "skeinforge": None},
        "support": {"slic3r": "; support material", "cura": ";TYPE:SUPPORT", "skeinforge": None},
        "bridge": {"slic3r": "; bridge", "cura": ";TYPE:SUPPORT", "skeinforge": None},
        "brim": {"slic3r": "; brim", "cura": ";TYPE:SKIRT", "skeinforge": None},
        "solid": {"slic3r": "; solid infill", "cura": ";TYPE:FILL", "skeinforge": None},
        "gap": {"slic3r": "; gap fill", "cura": ";TYPE:RAFT", "skeinforge": None},
        "interface": {"slic3r": "; support material interface", "cura": ";TYPE:SUPPORT-INTERFACE", "skeinforge": None},
        "tower": {"slic3r": "; external perimeters of the tower", "cura": ";TYPE:PRIME-TOWER", "skeinforge": None}}


def um(v):
    return gen.dec(int(v), 3)


# ------------------------------------------------------------------ loops
def ngon(n, r, cx, cy, start=0.0, sign=1):
    return [[int(round(cx + r * math.cos(start + sign * 2 * math.pi * k / n))),
             int(round(cy + r * math.sin(start + sign * 2 * math.pi * k / n)))] for k in range(n)]


def tidy(pts):
    """Without repeated consecutive vertices, also round the end."""
    res = []
    for p in pts:
        if not res or res[-1] != p:
            res.append(p)
    while len(res) > 1 and res[0] == res[-1]:
        res.pop()
    return res


def perimeter(pts):
    return sum(math.hypot(a[0] - b[0], a[1] - b[1]) for a, b in zip(pts, pts[1:] + pts[:1]))


@st.composite
def loop_pts(draw, min_perimeter=8000):
    """Vertices of a closed loop, in um."""
    kind = draw(st.sampled_from(["ngon", "ngon", "star", "star", "rect", "ell", "zigzag", "fine", "tiny", "split"]))
    cx, cy = draw(st.sampled_from([(0, 0), (100000, 100000), (-20000, 55500), (33333, 7125), (1234567, -345678)]))
    sign = draw(st.sampled_from([1, -1]))
    if kind == "ngon":
        pts = ngon(draw(st.integers(3, 40)), draw(st.integers(2000, 40000)), cx, cy, draw(st.integers(0, 359)) * math.pi / 180, sign)
    elif kind == "fine":
        n, r = draw(st.tuples(st.integers(20, 60), st.integers(1500, 6000)))
        if draw(st.integers(0, 15)) == 0:
            n, r = draw(st.tuples(st.integers(100, 400), st.integers(6000, 60000)))
        pts = ngon(n, r, cx, cy, draw(st.integers(0, 359)) * math.pi / 180, sign)
    elif kind == "tiny":
        # shorter than the distances of the settings
        pts = ngon(draw(st.integers(3, 12)), draw(st.integers(60, 900)), cx, cy, draw(st.integers(0, 359)) * math.pi / 180, sign)
        min_perimeter = 0
    elif kind == "star":
        n = draw(st.integers(3, 24))
        rs = draw(st.lists(st.integers(1500, 30000), min_size=n, max_size=n))
        pts = [[int(round(cx + r * math.cos(sign * 2 * math.pi * k / n))),
                int(round(cy + r * math.sin(sign * 2 * math.pi * k / n)))] for k, r in enumerate(rs)]
    elif kind == "rect":
        w, h = draw(st.integers(2000, 60000)), draw(st.integers(2000, 60000))
        pts = [[cx, cy], [cx + w, cy], [cx + w, cy + h], [cx, cy + h]][::sign]
    elif kind == "split":
        # vertices on straight sides too
        w, h = draw(st.integers(1, 30)) * 1000, draw(st.integers(1, 30)) * 1000
        n, m = draw(st.integers(1, 10)), draw(st.integers(1, 10))
        pts = ([[cx + w * k // n, cy] for k in range(n)] + [[cx + w, cy + h * k // m] for k in range(m)] +
               [[cx + w - w * k // n, cy + h] for k in range(n)] + [[cx, cy + h - h * k // m] for k in range(m)])[::sign]
    elif kind == "ell":
        w, h = draw(st.integers(4000, 60000)), draw(st.integers(4000, 60000))
        pts = [[cx, cy], [cx + w, cy], [cx + w, cy + h // 2], [cx + w // 2, cy + h // 2], [cx + w // 2, cy + h],
               [cx, cy + h]][::sign]
    else:
        n = draw(st.integers(3, 12))
        pts = [[cx + draw(st.integers(-20000, 20000)), cy + draw(st.integers(-20000, 20000))] for _ in range(n)]
    pts = tidy(pts)
    if len(pts) < 3 or perimeter(pts) < min_perimeter:
        pts = [[cx, cy], [cx + 10000, cy], [cx + 10000, cy + 10000], [cx, cy + 10000]]
    k = draw(st.integers(0, len(pts) - 1))
    return pts[k:] + pts[:k]


@st.composite
def loop_item(draw, kinds=("outer", "inner", "extra"), plain=False):
    n_in = 0 if plain else draw(st.sampled_from([0, 0, 0, 1, 2]))
    return {"t": "loop", "kind": draw(st.sampled_from(list(kinds))), "pts": draw(loop_pts()),
            "travel": draw(st.sampled_from(["plain", "plain", "plain", "unretract", "retract", "lift", "lift", "comb", "none",
                                            "short", "arc", "relative", "g92", "home"])),
            "after": draw(st.sampled_from(["", "", "inwards", "retract"])),
            "in": [[draw(st.integers(0, 30)), draw(st.sampled_from(INSIDE))] for _ in range(n_in)],
            "f": draw(st.sampled_from(["first", "first", "all", "none", "line"])),
            "z": draw(st.sampled_from(["", "", "", "", "first", "all", "travel"])),
            "still": draw(st.sampled_from([None] * 5 + [1, 2, 5])), "on": draw(st.sampled_from(["M101"] * 4 + ["m101", "M101 ; on"])), "tag": draw(st.sampled_from([0, 0, 0, 1])),
            "flow": draw(st.sampled_from([30, 50, 333])), "short": draw(st.sampled_from([False, False, True]))}


@st.composite
def item(draw):
    what = draw(st.sampled_from(["loop"] * 6 + ["fill"] * 3 + ["cmd"] * 2))
    if what == "loop":
        return draw(loop_item())
    if what == "fill":
        return {"t": "fill", "what": draw(st.sampled_from(sorted(TAGS))),
                "pts": [[draw(st.integers(-50000, 150000)), draw(st.integers(-50000, 150000))]
                        for _ in range(draw(st.integers(1, 5)))], "travel": draw(st.booleans())}
    return {"t": "cmd", "line": draw(st.sampled_from(BETWEEN))}


WIDTH = st.one_of(st.sampled_from([400, 720, 500, 350, 1000]), st.integers(200, 1200), st.integers(200, 1200),
                  st.sampled_from([50, 99, 2000, 3500, 10000]))


@st.composite
def job(draw, max_layers=3, max_items=5, width=True):
    layers = [draw(st.lists(item(), min_size=0 if k else 1, max_size=max_items))
              for k in range(draw(st.integers(1, max_layers)))]
    if not any(it["t"] == "loop" for layer in layers for it in layer):
        layers[-1].append(draw(loop_item()))
    for layer in layers:
        for a, b in zip(layer, layer[1:]):
            if a["t"] == b["t"] == "loop" and b["travel"] == "none" and draw(st.booleans()):
                # directly goes on from where the previous loop ends
                d = [p - q for p, q in zip(a["pts"][0], b["pts"][0])]
                b["pts"] = [[x + d[0], y + d[1]] for x, y in b["pts"]]
                a["after"] = ""
    if max_layers > 1 and draw(st.sampled_from([0] * 20 + [1])):
        # many layers
        n = draw(st.sampled_from([12, 12, 12, 80]))
        layers = (layers * n)[:n]
    return {"width": draw(st.one_of(st.none(), WIDTH)) if width else None,
            "meta": draw(st.sampled_from(["start", "start", "end", "middle"])),
            "layers": layers,
            "g92": draw(st.sampled_from([None] * 5 + ["G92 X10 Y-5.5", "G92 X0 Y0", "G92"])),
            "dz": draw(st.sampled_from([200, 300, 250, 305, 125, 50, 60, 100])), "z0": draw(st.sampled_from([0, 0, 0, 0, 1]))}


def job_loops(j):
    return [it for layer in j["layers"] for it in layer if it["t"] == "loop"]


# what slicers say about other widths
DECOYS = {"slic3r": ["; perimeters extrusion width = 0.71mm", "; infill extrusion width = 0.92mm",
                     "; first layer extrusion width = 0.83mm (external perimeters extrusion width = 0.67mm)"],
          "cura": [";nozzle_size=0.85", ";Sliced at 0.2 mm, nozzle 0.6"],
          "skeinforge": ["(<layerHeight> 0.85 </layerHeight>)", "(<perimeterWidth> 0.77 </perimeterWidth>)"]}


def cura_profile(width_um, extra=("layer_height=0.2", "wall_thickness=0.8", "nozzle_size2=1.1", "support_nozzle_size=0.9"), pos=3):
    opts = list(extra)
    if width_um is not None:
        opts.insert(pos, "nozzle_size=%s" % um(width_um))
    text = "\b".join(opts) + "\f" + "\b".join(["start.gcode=;x", "nozzle_size=0.66", "end.gcode=M84"])
    return ";CURA_PROFILE_STRING:" + base64.b64encode(zlib.compress(text.encode("utf-8"), 9)).decode("ascii")


# ------------------------------------------------------------------ rendering
class Out(object):
    def __init__(self, rel_e):
        self.lines, self.truth = [], []
        self.rel_e = rel_e
        self.e = 0            # 1e-5 mm
        self.n_loops = 0
        self.off = [0, 0]

    def add(self, line, truth=None):
        self.lines.append(line)
        self.truth.append(truth)
        w = line.split()
        if w[0] == "G92":
            for v in w[1:] or ("X0", "Y0", "E0"):
                if v[0] == "E":
                    self.e = 0
                elif v[0] in "XY":
                    k = "XY".index(v[0])
                    self.off[k] = self.at[k] - int(round(float(v[1:]) * 1000))
        elif w[0] == "G28":
            for k in [k for k in (0, 1) if len(w) == 1 or any(v[0] == "XY"[k] for v in w[1:])]:
                self.at = list(self.at)
                self.at[k] = self.off[k] = 0

    at = (0, 0)

    def ew(self, d):
        """E word feeding d (1e-5 mm)."""
        if self.rel_e:
            return "E" + gen.dec(d, 5)
        self.e += d
        return "E" + gen.dec(self.e, 5)

    def xy(self, p):
        self.at = list(p)
        return "X%s Y%s" % (um(p[0] - self.off[0]), um(p[1] - self.off[1]))


def amount(a, b, flow):
    return max(1, int(round(math.hypot(a[0] - b[0], a[1] - b[1]) * flow / 10.0)))


def cmd_item(o, line):
    """A line outside loops; keeps track of extruder and position."""
    if line.startswith("G1 E"):
        d = -100000 if "E-1" in line else 100000
        o.add(line.replace(line.split()[1], o.ew(d)))
        return
    if line.startswith(("G91|", "G92 X", "G92 Y")):
        # the coordinate system is not shifted at a stretched point, nor counted from there
        o.add("G1 %s F6000" % o.xy([o.at[0] + 1500, o.at[1] - 700]))
    if line.startswith("G91|"):
        for l in line.split("|"):
            if l == "M83?":
                if o.rel_e:
                    o.add("M83")
                continue
            o.add(l)
            for w in l.split()[1:]:
                if w[0] in "XY":
                    o.at = list(o.at)
                    o.at["XY".index(w[0])] += int(round(float(w[1:]) * 1000))
        return
    o.add(line)
    if line.startswith(("G1 X", "G0 X", "G0 Y", "G2 X", "G3 X")):
        for w in line.split()[1:]:
            if w[0] in "XY":
                k = "XY".index(w[0])
                o.at = list(o.at)
                o.at[k] = int(round(float(w[1:]) * 1000)) + o.off[k]


def render(j, dialect, rel_e=True, header=True):
    """(lines, truth): truth[k] is None or (loop, vertex, kind); vertex -1 is the travel to the first vertex."""
    o = Out(rel_e)
    meta = None
    if j["width"] is not None:
        meta = {"slic3r": "; external perimeters extrusion width = %smm" % um(j["width"]),
                "cura": cura_profile(j["width"]),
                "skeinforge": "(<edgeWidth> %s </edgeWidth>)" % um(j["width"])}[dialect]
    if meta and j["meta"] == "start":
        o.add(meta)
    for l in DECOYS[dialect]:
        o.add(l)
    if header:
        for l in ("G21", "G90", "M83" if rel_e else "M82", "G28"):
            o.add(l)
    if j["g92"]:
        o.add("G1 X20 Y30 F6000")
        o.at = [20000, 30000]
        o.add(j["g92"])
    for k, layer in enumerate(j["layers"]):
        z = o.z = um((k + 1 - j.get("z0", 0)) * j["dz"])
        if dialect == "slic3r":
            o.add("G1 Z%s F7800 ; move to next layer (%d)" % (z, k))
            slic3r_layer(o, layer, z)
        elif dialect == "cura":
            o.add(";LAYER:%d" % k)
            o.add("G0 F9000 %s Z%s" % (o.xy([1000 * k, 2000]), z))
            cura_layer(o, layer, z)
        else:
            o.add("(<layer> %s )" % z)
            skein_layer(o, layer, z)
        if meta and j["meta"] == "middle" and k == 0:
            o.add(meta)
    o.add("M107")
    o.add("G1 E-1 F2400" if rel_e else "G1 " + o.ew(-100000) + " F2400")
    o.add("M84")
    if meta and j["meta"] == "end":
        o.add(meta)
    return o.lines, o.truth


def moves(o, it, kind, tail, first=0):
    """The extruding moves of a loop, from its first vertex on and back to it."""
    pts = it["pts"] + it["pts"][:1]
    ins = {}
    for pos, line in it["in"]:
        ins.setdefault(1 + pos % (len(pts) - 1), []).append(line)
    if it["f"] == "line":
        o.add("G1 F1350")
    for k in range(1, len(pts)):
        for line in ins.get(k, ()):
            o.add(line)
        f = " F1350" if it["f"] == "all" or (it["f"] == "first" and k == 1) else ""
        xy = o.xy(pts[k])
        if it.get("short") and (k > 1 or it["travel"] != "none"):
            # only the coordinates that change; not right after another loop, which may have left either stretched
            xy = " ".join(w for w, v, u in zip(xy.split(), pts[k], pts[k - 1]) if v != u)
        if it.get("z") == "all" or (it.get("z") == "first" and k == 1):
            xy += " Z" + o.z
        o.add("G1 %s %s%s%s" % (xy, o.ew(0 if k == it.get("still") else amount(pts[k - 1], pts[k], it["flow"])), f, tail),
              (o.n_loops, k % (len(pts) - 1), kind))


def fill(o, it, dialect, z):
    tag = TAGS[it["what"]][dialect]
    if dialect == "cura":
        o.add(tag)
    if it["travel"]:
        o.add("G1 %s F7800%s" % (o.xy([it["pts"][0][0] + 700, it["pts"][0][1]]),
                                 " ; move to first infill point" if dialect == "slic3r" else ""))
    if dialect == "skeinforge":
        o.add("M101")
    prev = o.at
    for p in it["pts"]:
        o.add("G1 %s %s%s" % (o.xy(p), o.ew(amount(prev, p, 30)), " " + tag if dialect == "slic3r" else ""))
        prev = p
    if dialect == "skeinforge":
        o.add("M103")


def approach(o, it, how, travel):
    """Travel to a place from which only X changes on the way to the first vertex."""
    x, y = it["pts"][0]
    if how == "relative":
        # counted from a place that is not stretched
        o.add(travel % o.xy([x - 4000, y - 1250]))
        o.add("G91")
        o.add("G1 X2 Y1.25")
        o.add("G90")
        if o.rel_e:
            o.add("M83")
        o.at = [x - 2000, y]
        return
    if how == "arc":
        o.add("G%d %s I1.5 J-2 F7800" % (2 + y % 2, o.xy([x - 3000, y])))
        return
    o.add(travel % o.xy([x - 3000, y]))
    if how == "home":
        o.add("G92 Y%s" % um(y % 7000 - 2500))
        o.add(("G28 X", "G28 X0")[x % 2])
    if how == "g92":
        o.add("G92 X%s Y%s" % (um(x % 7000 - 2500), um(y % 9000)))


def slic3r_layer(o, layer, z):
    outer_seen = False
    last = None
    for it in layer:
        previous, last = last, it
        if it["t"] == "cmd":
            cmd_item(o, it["line"])
            continue
        if it["t"] == "fill":
            fill(o, it, "slic3r", z)
            continue
        if it["kind"] == "extra":
            kind, tail = "extra", " ; perimeter"
        else:
            kind, tail = ("inner" if outer_seen else "outer"), " ; perimeter external"
            outer_seen = True
        tr = it["travel"]
        travel_truth = (o.n_loops, -1, kind)
        if tr in ("retract", "lift"):
            o.add("G1 %s F2400 ; retract" % o.ew(-100000))
        if tr == "lift":
            o.add("G1 Z%s F7800 ; lift Z" % um(int(float(z) * 1000) + 5000))
            travel_truth = travel_truth if it.get("z") == "travel" else None
        if tr == "comb":
            o.add("G1 %s F7800 ; move inwards before travel" % o.xy([it["pts"][0][0] - 3000, it["pts"][0][1] + 1234]))
        # without a travel there is no loop to tell from a previous one of the same type in this dialect
        if tr != "none" or previous is None or previous["t"] != "loop" or previous["after"] or o.at != it["pts"][0] or \
                (previous["kind"] == "extra") == (it["kind"] == "extra"):
            xy = None
            if tr in ("short", "arc", "relative", "g92", "home"):
                approach(o, it, tr, "G1 %s F7800 ; move inwards before travel")
                xy = o.xy(it["pts"][0]).split()[0]
            xy = (xy or o.xy(it["pts"][0])) + (" Z" + z if it.get("z") == "travel" else "")
            o.add("G1 %s F7800 ; move to first perimeter point" % xy, travel_truth)
            if tr == "lift" and it.get("z") != "travel":
                o.add("G1 Z%s F7800 ; restore layer Z" % z)
            if tr in ("retract", "lift", "unretract"):
                o.add("G1 %s F2400 ; unretract" % o.ew(100000))
        moves(o, it, kind, tail)
        o.n_loops += 1
        if it["after"] == "inwards":
            o.add("G1 %s F7800 ; move inwards before travel" % o.xy([it["pts"][0][0] + 400, it["pts"][0][1] + 300]))
        elif it["after"] == "retract":
            o.add("G1 %s F2400 ; retract" % o.ew(-100000))
            o.add("G92 E0 ; reset extrusion distance")


CURA_TYPE = {"outer": ";TYPE:WALL-OUTER", "inner": ";TYPE:WALL-INNER", "extra": ";TYPE:SKIN"}


def cura_layer(o, layer, z):
    section = None
    for it in layer:
        if it["t"] == "cmd":
            # Cura writes such commands between sections only
            if section is not None:
                o.add(";TYPE:SKIRT")
                section = None
            cmd_item(o, it["line"])
            continue
        if it["t"] == "fill":
            fill(o, it, "cura", z)
            section = None
            continue
        kind = it["kind"]
        tr = it["travel"]
        if tr == "none" and o.at != it["pts"][0]:
            tr = "plain"
        inside = section == kind
        if tr in ("retract", "lift"):
            o.add("G1 F2400 %s" % o.ew(-100000))
        if tr == "lift":
            o.add("G1 Z%s" % um(int(float(z) * 1000) + 5000))
        if tr == "comb":
            o.add("G0 F9000 %s" % o.xy([it["pts"][0][0] - 3000, it["pts"][0][1] + 1234]))
            o.add("G0 %s" % o.xy([it["pts"][0][0] - 2000, it["pts"][0][1] - 500]))
        xy = None
        if tr in ("short", "arc", "relative", "g92", "home"):
            if inside and tr not in ("short", "arc"):
                # a section with such commands is left first
                o.add(";TYPE:SKIRT")
                inside = False
            approach(o, it, tr, "G0 F9000 %s")
            xy = o.xy(it["pts"][0]).split()[0]
        if tr != "none" or inside:
            xy = (xy or o.xy(it["pts"][0])) + (" Z" + z if it.get("z") == "travel" else "")
            o.add("G0 F9000 " + xy, (o.n_loops, -1, kind) if inside and (tr != "lift" or it.get("z") == "travel") else None)
        if tr == "lift" and it.get("z") != "travel":
            o.add("G1 Z%s" % z)
        if tr in ("retract", "lift", "unretract"):
            o.add("G1 F2400 %s" % o.ew(100000))
        if not inside:
            o.add(CURA_TYPE[kind])
            section = kind
        moves(o, it, kind, "")
        o.n_loops += 1


SKEIN_TAG = {"outer": (("(<edge> outer )", "(<edge> outer)"), "(</edge>)"), "inner": (("(<edge> inner )", "(<edge> inner)"), "(</edge>)"),
             "extra": (("(<loop> inner )", "(<loop> outer )"), "(</loop>)")}


def skein_layer(o, layer, z):
    for it in layer:
        if it["t"] == "cmd":
            cmd_item(o, it["line"])
            continue
        if it["t"] == "fill":
            fill(o, it, "skeinforge", z)
            continue
        begin, end = SKEIN_TAG[it["kind"]]
        o.add(begin[it.get("tag", 0)])
        pts = it["pts"] + it["pts"][:1]
        o.add("G1 %s Z%s F1350.0" % (o.xy(pts[0]), z), (o.n_loops, -1, it["kind"]))
        o.add(it.get("on", "M101"))
        for k in range(1, len(pts)):
            e = " " + o.ew(0 if k == it.get("still") else amount(pts[k - 1], pts[k], it["flow"])) if it["f"] != "none" else ""
            o.add("G1 %s Z%s F1350.0%s" % (o.xy(pts[k]), z, e), (o.n_loops, k % (len(pts) - 1), it["kind"]))
        o.add("M103")
        o.add(end)
        o.n_loops += 1


# ------------------------------------------------------------------ settings
RATIO = {"outer": "edge_outside_stretch_over_edge_width", "inner": "edge_inside_stretch_over_edge_width",
         "extra": "loop_stretch_over_edge_width"}
DEFAULT = {"outer": 0.1, "inner": 0.32, "extra": 0.11}


def setting(nice, lo, hi):
    return st.one_of(st.sampled_from(nice), st.sampled_from(nice), st.integers(lo * 100, hi * 100).map(lambda v: v / 100.0))


SETTINGS = st.fixed_dictionaries({}, optional={
    "stretch_strength": setting([1.0, 0.5, 2.0, 1.5, 0.25, 3.0, 0.0], 0, 4),
    "loop_stretch_over_edge_width": setting([0.0, 0.11, 0.3, 0.5], 0, 1),
    "edge_inside_stretch_over_edge_width": setting([0.0, 0.32, 0.6, 0.2], 0, 1),
    "edge_outside_stretch_over_edge_width": setting([0.0, 0.1, 0.4], 0, 1),
    "cross_limit_distance_over_edge_width": setting([5.0, 2.0, 10.0, 1.0], 1, 20),
    "stretch_from_distance_over_edge_width": setting([2.0, 1.0, 3.0, 5.0, 15.0], 1, 20)})


def bound(kind, width_um, settings):
    """Greatest displacement of a loop of that kind, in mm."""
    w = 0.4 if width_um is None else width_um / 1000.0
    return w * settings.get(RATIO[kind], DEFAULT[kind]) * settings.get("stretch_strength", 1.0)
