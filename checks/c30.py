"""C30: the 3-D vector type obeys Euclidean vector algebra."""
import copy
import math
import operator

from hypothesis import strategies as st

from pbt import lib
from pbt.harness import Sub, check, sut

# eighths: sums, products and dot products of such numbers are exact
EIGHTH = st.one_of(st.sampled_from([0, 8, -8, 4, 1, -1, 16, -16]), st.integers(-2 ** 16, 2 ** 16))
VEC = st.lists(EIGHTH, min_size=3, max_size=3)
INPLACE = [("+=", operator.iadd, operator.add), ("-=", operator.isub, operator.sub), ("*=", operator.imul, operator.mul),
           ("/=", operator.itruediv, operator.truediv), ("//=", operator.ifloordiv, operator.floordiv)]


@st.composite
def exact_s(draw):
    a, b = draw(VEC), draw(VEC)
    if draw(st.integers(0, 3)) == 0:
        # vectors which differ hardly, if at all
        k = draw(st.integers(0, 2))
        b = a[:k] + [b[k]] + a[k + 1:]
    return {"a": a, "b": b, "s": draw(EIGHTH.filter(bool)), "int": draw(st.booleans())}


def cls():
    return lib.mod("gcodeutils.stretch.vector3").Vector3


def comps(v):
    return (v.x, v.y, v.z)


def close(got, want):
    """Equal, up to the order of rounding."""
    return len(got) == len(want) and all(abs(g - w) <= 1e-12 * abs(w) for g, w in zip(got, want))


def make(c, ints):
    return [x if ints else x / 8.0 for x in c]


def t_exact(case, rec):
    V = cls()
    A, B = make(case["a"], case["int"]), make(case["b"], case["int"])
    s = make([case["s"]], case["int"])[0]
    with sut("vector arithmetic"):
        a, b = V(*A), V(*B)

        def expect(what, got, want):
            check(isinstance(got, V), "%s of %r, %r, %r gives %r, no vector", what, A, B, s, got)
            check(close(comps(got), want), "%s of %r, %r, %r gives %r instead of %r", what, A, B, s, comps(got), tuple(want))
            check(got is not a and got is not b, "%s gives back an operand", what)
            check(comps(a) == tuple(A) and comps(b) == tuple(B), "%s modifies its operands %r, %r into %r, %r", what, A, B, a, b)

        def value(what, got, want):
            check(got == want, "%s of %r, %r gives %r instead of %r", what, A, B, got, want)
            check(comps(a) == tuple(A) and comps(b) == tuple(B), "%s modifies its operands", what)
        expect("sum", a + b, [x + y for x, y in zip(A, B)])
        expect("difference", a - b, [x - y for x, y in zip(A, B)])
        expect("negation", -a, [-x for x in A])
        expect("plus", +a, A)
        expect("copy", a.copy(), A)
        expect("copy.copy", copy.copy(a), A)
        expect("product", a * s, [x * s for x in A])
        expect("product from the left", s * a, [s * x for x in A])
        expect("quotient", a / s, [operator.truediv(x, s) for x in A])
        expect("floor quotient", a // s, [x // s for x in A])
        if all(A):
            expect("inverse quotient", s / a, [operator.truediv(s, x) for x in A])
            expect("inverse floor quotient", s // a, [s // x for x in A])
        expect("cross product", a.cross(b), [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]])
        value("dot product", a.dot(b), sum(x * y for x, y in zip(A, B)))
        value("squared magnitude", a.magnitudeSquared(), sum(x * x for x in A))
        value("squared distance", a.distanceSquared(b), sum((x - y) ** 2 for x, y in zip(A, B)))
        for what, got, want in (("magnitude", abs(a), math.sqrt(sum(x * x for x in A))), ("magnitude()", a.magnitude(), abs(a)),
                                ("distance", a.distance(b), math.sqrt(sum((x - y) ** 2 for x, y in zip(A, B))))):
            value(what, close([got], [want]) or got, True)
        value("equality", a == b, A == B)
        value("equality with a copy", a == V(*A), True)
        value("inequality", a != b, A != B)
        value("inequality with a copy", a != V(*A), False)
        value("comparison with None", (a == None, a != None), (False, True))  # noqa: E711
        value("comparison with a tuple", (a == tuple(A), a != tuple(A)), (False, True))
        value("truth", bool(a), any(A))
        value("being the zero vector", a.getIsDefault(), not any(A))
        value("hash of an equal vector", hash(V(*[float(x) for x in A])), hash(a))
        value("membership", a in {V(*A): 1}, True)
        value("list of floats", a.getFloatList(), [float(x) for x in A])
        check(all(type(x) is float for x in a.getFloatList()), "the list of floats holds something else")
        value("projection along x", a.dropAxis(0), complex(A[1], A[2]))
        value("projection along y", a.dropAxis(1), complex(A[0], A[2]))
        value("projection along z", a.dropAxis(2), complex(A[0], A[1]))
        value("projection", a.dropAxis(), complex(A[0], A[1]))
        for axis in range(3):
            # reflection in a coordinate plane
            n = [0.0, 0.0, 0.0]
            n[axis] = 1.0
            expect("reflection", a.reflect(V(*n)), [-x if k == axis else x for k, x in enumerate(A)])
        # the names of the division operators in Python 2, as long as they are there
        if hasattr(a, "__div__"):
            expect("__div__", a.__div__(s), comps(a / s))
        if hasattr(a, "__rdiv__") and all(A):
            expect("__rdiv__", a.__rdiv__(s), comps(s / a))
        if hasattr(a, "__idiv__"):
            c = V(*A)
            check(c.__idiv__(s) is c and close(comps(c), comps(a / s)), "__idiv__ of %r by %r gives %r", A, s, c)
        # in-place forms
        for name, inplace, plain in INPLACE:
            other = b if name in ("+=", "-=") else s
            c = V(*A)
            alias = c
            c = inplace(c, other)
            want = comps(plain(a, other))
            check(c is alias, "%s makes another vector", name)
            check(close(comps(c), want), "%r %s %r gives %r instead of %r", A, name, other, comps(c), want)
            check(comps(b) == tuple(B), "%s modifies its argument", name)
        for name, f, want in (("maximize", "maximize", [max(x, y) for x, y in zip(A, B)]),
                              ("minimize", "minimize", [min(x, y) for x, y in zip(A, B)]),
                              ("setToVector3", "setToVector3", B)):
            c = V(*A)
            getattr(c, f)(b)
            check(comps(c) == tuple(want), "%s of %r and %r gives %r", name, A, B, comps(c))
            check(comps(b) == tuple(B), "%s modifies its argument", name)
        c = V(*A)
        c.setToVector3(b)
        c.x += 1
        check(comps(b) == tuple(B), "setToVector3 shares the components")
        c.setToXYZ(*A)
        check(c == a, "setToXYZ gives %r instead of %r", c, A)
        check(comps(V()) == (0, 0, 0), "the default vector is %r", V())
    rec.nontrivial(len(set(A + B)) >= 5)
    rec.label("zero", not any(A))
    rec.label("integers", case["int"])


REAL = st.one_of(st.floats(-1e6, 1e6, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-6), st.integers(-1000, 1000).map(float), st.just(0.0))
# also very short and very long vectors
RVEC = st.tuples(st.lists(REAL, min_size=3, max_size=3), st.sampled_from([0] * 6 + [-40, -100, 80])).map(
    lambda t: [c * 2.0 ** t[1] for c in t[0]])


@st.composite
def real_s(draw):
    return {"a": draw(RVEC), "b": draw(RVEC), "c": draw(RVEC)}


def t_real(case, rec):
    V = cls()
    with sut("vector geometry"):
        a, b, c = V(*case["a"]), V(*case["b"]), V(*case["c"])
        check(bool(a) == any(case["a"]) and a.getIsDefault() != any(case["a"]), "%r is false or default", case["a"])
        n = a.getNormalized()
        check(comps(a) == tuple(case["a"]), "getNormalized modifies the vector")
        check(n is not a, "getNormalized gives back the vector itself")
        m = V(*case["a"])
        check(m.normalize() is None or True, "")
        check(close(comps(m), comps(n)), "normalize gives %r, getNormalized %r", m, n)
        if any(case["a"]):
            check(abs(abs(n) - 1) < 1e-12, "%r normalised has length %r", case["a"], abs(n))
            check(abs(n.cross(a)) <= 1e-9 * abs(a) and n.dot(a) > 0, "%r normalised is %r, another direction", case["a"], n)
            # reflection: an involution that keeps lengths and turns the normal round
            r = b.reflect(n)
            scale = abs(b) + 1e-300
            check(comps(b) == tuple(case["b"]), "reflect modifies the vector")
            check(abs(abs(r) - abs(b)) <= 1e-9 * scale, "reflecting %r in %r changes its length to %r", case["b"], n, abs(r))
            check(r.reflect(n).distance(b) <= 1e-9 * scale, "reflecting %r twice in %r gives %r", case["b"], n, r.reflect(n))
            check(n.reflect(n).distance(-n) <= 1e-9, "reflecting the normal gives %r", n.reflect(n))
            d = b - n * n.dot(b)
            check(d.reflect(n).distance(d) <= 1e-9 * (abs(d) + scale), "a vector in the plane is not left alone")
        else:
            check(comps(n) == (0, 0, 0), "normalising the zero vector gives %r", n)
        ab = abs(a) * abs(b)
        x = a.cross(b)
        check(abs(x.dot(a)) <= 1e-9 * ab * abs(a) + 1e-12 and abs(x.dot(b)) <= 1e-9 * ab * abs(b) + 1e-12, "the cross product is not orthogonal")
        check(abs(x.magnitudeSquared() + a.dot(b) ** 2 - ab * ab) <= 1e-9 * ab * ab + 1e-12, "|axb|^2 + (a.b)^2 is not |a|^2|b|^2")
        check(abs(a.cross(b) + b.cross(a)) <= 1e-9 * ab, "the cross product is not antisymmetric")
        check(a.distance(c) <= (a.distance(b) + b.distance(c)) * (1 + 1e-12) + 1e-12, "the triangle inequality fails")
        check(close([a.distance(b)], [b.distance(a)]), "distance is not symmetric")
        check(abs(a.distance(b) - abs(a - b)) <= 1e-9 * (abs(a) + abs(b)), "distance is not the length of the difference")
        check(abs(a.dot(b) - b.dot(a)) <= 1e-9 * ab, "the dot product is not symmetric")
    rec.nontrivial(any(case["a"]) and any(case["b"]) and case["a"] != case["b"])


SUBS = [Sub("exact", exact_s(), t_exact, 6000, rule="pairs of vectors with at least five different components"),
        Sub("real", real_s(), t_real, 4000, rule="pairs of different non-zero vectors")]
ASSUMPTIONS = ["finite components"]
