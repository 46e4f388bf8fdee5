"""C11: number encoding for encryption is exact, ordered and invertible."""
import math
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

from vlib.core import Sub, Violation

PROPERTY = "C11"
TECHNIQUE = "property-based testing: exact rational arithmetic as oracle over generated floats, doubles and neighbours"
LEVEL_NOTE = ("Floats with up to 12 decimals exactly; doubles over the whole range of the piecewise linear map, compared "
              "with the map evaluated in rational arithmetic.")
RULE = "two different numbers were encoded, compared and decoded"
ASSUMPTIONS = ["floats have at most 12 decimals in their shortest decimal form",
               "the breakpoints of the double encoding are those in the code's comment (stored data depends on them)"]

X = [0, 10**15, 10**42, 10**56, 10**65]
Y = [0, 10**15, 10**19, 10**22, 10**24]


def ref(v, xs, ys):
    """the documented piecewise linear map in exact arithmetic -> (value, slope)"""
    v = Fraction(v)
    if v < 0:
        r, s = ref(-v, xs, ys)
        return -r, s
    for i in range(4):
        if v <= xs[i + 1] or i == 3:
            s = Fraction(ys[i + 1] - ys[i], xs[i + 1] - xs[i])
            return ys[i] + (v - xs[i]) * s, s


def decimals(f):
    e = Decimal(repr(f)).normalize().as_tuple().exponent
    return max(0, -e)


@st.composite
def flt(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        f = float(Decimal(draw(st.integers(-10**5, 10**5))).scaleb(-draw(st.integers(0, 5))))
    elif k == 1:
        f = float(Decimal(draw(st.integers(-10**15, 10**15))).scaleb(-draw(st.integers(0, 12))))
    elif k == 2:
        f = draw(st.sampled_from([0.0, 1.1, 0.1, 0.29, 1e-12, 2.675, 1e6, 4.35, 9.95, 1.005, 123456.789012, 0.3, 1e15, 1e16,
                                  1e22, 8.41, 64.1, 579.03])) * draw(st.sampled_from([1, -1]))
    elif k == 3:
        f = float(draw(st.integers(-2**53, 2**53)))
    else:
        f = draw(st.floats(-1e7, 1e7))
        f = round(f, draw(st.integers(0, 12)))
    return f if decimals(f) <= 12 else round(f, 9)


@st.composite
def float_case(draw):
    a = draw(flt())
    b = draw(flt())
    if draw(st.booleans()):
        b = float(Decimal(repr(a)) + Decimal(draw(st.integers(-3, 3))).scaleb(-draw(st.integers(0, 12))))
        if decimals(b) > 12:
            b = a
    return {"a": a, "b": b, "more": draw(st.lists(flt(), max_size=5)), "form": draw(st.sampled_from(["num", "str"]))}


def check_order(a, b, ea, eb, strict):
    if a < b and not (ea < eb if strict else ea <= eb) or a > b and not (ea > eb if strict else ea >= eb) or \
            a == b and ea != eb:
        raise Violation("%r and %r are encoded as %d and %d" % (a, b, ea, eb))


def run_float(case, note):
    from scheduler.crypto.encrypt import decode, encode
    vals = [case["a"], case["b"]] + case["more"]
    enc = []
    for v in vals:
        src = v if case["form"] == "num" else repr(v)
        e = encode(src, "float")
        if type(e) is not int:
            raise Violation("encode(%r) = %r is no integer" % (v, e))
        if e != Fraction(Decimal(repr(v))) * 10**12:
            raise Violation("encode(%r) = %d, exactly %s" % (v, e, Fraction(Decimal(repr(v))) * 10**12))
        for back in (e, str(e)):
            d = decode(back, "float")
            if d != v or not isinstance(d, (int, float)):
                raise Violation("%r is encoded as %d and decoded as %r" % (v, e, d))
        enc.append(e)
    check_order(vals[0], vals[1], enc[0], enc[1], True)
    total = sum(Fraction(Decimal(repr(v))) for v in vals)
    d = decode(sum(enc), "float")
    if Fraction(d) != Fraction(float(total)):
        raise Violation("the encodings of %s add up to %d, decoded as %r instead of %r" % (vals, sum(enc), d, float(total)))
    note.nontrivial(vals[0] != vals[1])
    note.label("decimals_%d" % decimals(vals[0]), "negative" if vals[0] < 0 else "non_negative")


EDGES = [0.0, 1e15, 1e42, 1e56, 1e65]


@st.composite
def dbl(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        f = draw(flt())
    elif k == 1:
        f = draw(st.sampled_from(EDGES))
        for _ in range(draw(st.integers(0, 3))):
            f = math.nextafter(f, draw(st.sampled_from([0.0, math.inf])))
    elif k == 2:
        f = float("%de%d" % (draw(st.integers(1, 10**6)), draw(st.integers(-12, 58))))
    elif k == 3:
        i = draw(st.integers(0, 3))
        f = EDGES[i] + (EDGES[i + 1] - EDGES[i]) * draw(st.floats(0, 1))
    else:
        f = draw(st.floats(0, 1e65))
    f = min(f, math.nextafter(1e65, 0))
    return f * draw(st.sampled_from([1, -1]))


@st.composite
def double_case(draw):
    a = draw(dbl())
    b = draw(st.one_of(dbl(), st.just(None)))
    if b is None:
        b = a
        for _ in range(draw(st.integers(1, 3))):
            b = math.nextafter(b, draw(st.sampled_from([math.inf, 0.0])))
        b = max(min(b, math.nextafter(1e65, 0)), -math.nextafter(1e65, 0))
    return {"a": a, "b": b, "form": draw(st.sampled_from(["num", "str"]))}


def run_double(case, note):
    from scheduler.crypto.encrypt import decode, encode
    enc = []
    for v in (case["a"], case["b"]):
        e = encode(v if case["form"] == "num" else repr(v), "double")
        if type(e) is not int:
            raise Violation("encode(%r) = %r is no integer" % (v, e))
        if encode(-v, "double") != -e:
            raise Violation("encode(%r) = %d but encode(%r) = %d" % (v, e, -v, encode(-v, "double")))
        want, slope = ref(v, X, Y)
        # the map is evaluated in doubles and its decimal form cut at 12 places
        tol = abs(want) * Fraction(1, 2**50) + Fraction(1, 10**12)
        if abs(Fraction(e, 10**12) - want) > tol:
            raise Violation("encode(%r) = %d, the documented map gives %s" % (v, e, float(want)))
        if abs(v) <= 1e15 and decimals(v) <= 12 and e != Fraction(Decimal(repr(v))) * 10**12:
            raise Violation("encode(%r) = %d loses digits" % (v, e))
        for back in (e, str(e)):
            d = decode(back, "double")
            if not isinstance(d, (int, float)):
                raise Violation("decode(%r) = %r" % (back, d))
            if abs(v) <= 1e15 and decimals(v) <= 12:
                if d != v:
                    raise Violation("%r is encoded as %d and decoded as %r" % (v, e, d))
                continue
            err = (2 * tol + Fraction(1, 10**11)) / slope + abs(Fraction(v)) * Fraction(1, 2**48)
            if abs(Fraction(d) - Fraction(v)) > err:
                raise Violation("%r is encoded as %d and decoded as %r, further off than the encoding's resolution %g"
                                % (v, e, d, float(err)))
        enc.append(e)
    a, b = case["a"], case["b"]
    strict = max(abs(a), abs(b)) <= 1e15 and decimals(a) <= 12 and decimals(b) <= 12
    check_order(a, b, enc[0], enc[1], strict)
    note.nontrivial(a != b)
    note.label("segment_%d" % sum(abs(a) > x for x in X[1:4]))


@st.composite
def other_case(draw):
    t = draw(st.sampled_from(["int", "varchar", "char"]))
    v = draw(st.integers(-2**63, 2**63)) if t == "int" else draw(st.text(max_size=12))
    return {"type": t, "v": v}


def run_other(case, note):
    from scheduler.crypto.encrypt import decode, encode
    v, t = case["v"], case["type"]
    e = encode(v, t)
    if e != v or type(e) is not type(v):
        raise Violation("%s %r is encoded as %r" % (t, v, e))
    d = decode(str(e), t)
    if d != v or type(d) is not type(v):
        raise Violation("%s %r is decoded as %r" % (t, v, d))
    note.label("type_" + t)


SUBS = [Sub("float", float_case, run_float, quick=6000, thorough=200000, shards=(3, 16)),
        Sub("double", double_case, run_double, quick=6000, thorough=200000, shards=(3, 16)),
        Sub("other", other_case, run_other, quick=600, thorough=10000, shards=(1, 2))]
