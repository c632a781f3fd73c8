"""C07: program comparison is an equivalence that misses no difference."""
from hypothesis import strategies as st

from pbt import gen, lib, machine as M
from pbt.harness import Sub, check, sut

SC = M.SC
TOL = SC // 1000


@st.composite
def pair(draw):
    base = draw(gen.program(inches=draw(st.sampled_from([False, False, True])), max_lines=14))
    other = list(base)
    for _ in range(draw(st.integers(0, 3))):
        op = draw(st.sampled_from(["append", "drop_last", "drop", "dup", "comment", "blank", "nudge", "nudge", "nudge",
                                   "respell", "cmd", "dropword", "addword", "swap", "strip"]))
        n = len(other)
        if op == "append":
            other.append(draw(st.sampled_from(["G1 X1", "M84", "; end", "G0", "T1"])))
        elif op == "drop_last" and n:
            other.pop()
        elif op == "comment":
            other.insert(draw(st.integers(0, n)), draw(st.sampled_from(["; x", "(c)", ""])))
        elif op == "blank":
            other.insert(draw(st.integers(0, n)), "")
        elif n:
            i = draw(st.integers(0, n - 1))
            l = other[i]
            if op == "drop":
                del other[i]
            elif op == "dup":
                other.insert(i, l)
            elif op == "swap" and n > 1:
                j = draw(st.integers(0, n - 1))
                other[i], other[j] = other[j], other[i]
            elif op == "strip":
                other[i] = M.strip_comments(l)[0]
            elif op == "respell":
                w = M.words(l)
                if w and w[0][0] in "GMT" and w[0][0] != "M":
                    other[i] = "".join(a.lower() + b for a, b in w) + " ;"
            else:
                w = M.words(l)
                if not w or w[0][0] != "G":
                    continue
                cand = [k for k in range(1, len(w)) if w[k][0].lower() in M.ARGS and M.number(w[k][1]) is not None]
                if op == "cmd":
                    w[0] = ("G", draw(st.sampled_from(["0", "1", "2", "92"])))
                elif op == "addword":
                    w.append((draw(st.sampled_from("XYZEFIJ")), "1"))
                elif op == "dropword" and cand:
                    del w[draw(st.sampled_from(cand))]
                elif op == "nudge" and cand:
                    k = draw(st.sampled_from(cand))
                    # in units of 1e-5: below, above and far above the tolerance, in either direction
                    d = draw(st.sampled_from([1, 50, 90, 99, 101, 110, 150, 200, 1000, 100000])) * draw(
                        st.sampled_from([1, -1]))
                    v = M.number(w[k][1]) // (SC // 100000) + d
                    w[k] = (w[k][0], gen.dec(v, 5))
                other[i] = " ".join(a + b for a, b in w)
    a, b = (base, other) if draw(st.booleans()) else (other, base)
    return {"a": a, "b": b}


def meaning(lines):
    return [(ev.cmd, ev.args, ev.raw) for ev in M.run(lines) if ev.cmd is not None]


def equal(a, b):
    """True, False, or None when two values differ by the tolerance up to rounding."""
    res = True
    if len(a) != len(b):
        return False
    for (c1, a1, _), (c2, a2, _) in zip(a, b):
        if c1 != c2 or set(a1) != set(a2):
            return False
        for k in a1:
            d = abs(a1[k] - a2[k])
            if abs(d - TOL) <= 2000:
                res = None
            elif d > TOL:
                return False
    return res


def t_pair(case, rec):
    a, b = case["a"], case["b"]
    ga, gb = lib.load(a), lib.load(b)
    with sut("comparing"):
        got = (ga == gb, gb == ga, ga != gb, gb != ga)
        diffs = (ga.diff(gb), gb.diff(ga))
        refl = (ga == ga, ga.diff(ga), ga == lib.load(a))
    check(refl[0] is True and refl[2] is True and not refl[1], "a program does not equal itself: %r", refl)
    check(got[0] is got[1], "a == b is %r, b == a is %r", got[0], got[1])
    check(got[2] is (not got[0]) and got[3] is (not got[1]), "!= is not the negation of ==: %r", got)
    check((not diffs[0]) == got[0] and (not diffs[1]) == got[1], "== gives %r but diff gives %r", got[:2], diffs)
    ma, mb = meaning(a), meaning(b)
    want = equal(ma, mb)
    if want is not None:
        check(got[0] is want, "== gives %r, should be %r", got[0], want)
    with sut("comparing lines"):
        la = [l for l in ga.lines if l.command is not None]
        lb = [l for l in gb.lines if l.command is not None]
        for (ca, cb, x, y) in zip(ma, mb, la, lb):
            w = equal([ca], [cb])
            if w is not None:
                check((x == y) is w and (y == x) is w and (x != y) is (not w), "lines %r and %r: == gives %r / %r",
                      ca[2], cb[2], x == y, y == x)
        check((ga == "x") is False and (ga != 5) is True, "comparison with something else")
    rec.nontrivial(len(ma) >= 2 and a != b)
    rec.label("equal though spelled differently", want is True and a != b)
    rec.label("different by one trailing line", abs(len(ma) - len(mb)) == 1 and
              all(equal([x], [y]) for x, y in zip(ma, mb)))
    rec.label("different by value only", want is False and len(ma) == len(mb) and
              all(x[0] == y[0] and set(x[1]) == set(y[1]) for x, y in zip(ma, mb)))


SUBS = [Sub("pair", pair(), t_pair, 6000,
            rule="pairs of a program and a mutated copy (edits, respellings, nudges around the tolerance), two commands "
                 "or more, texts different")]
