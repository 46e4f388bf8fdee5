"""C07: order-preserving encryption preserves order, inverts and is deterministic."""
from hypothesis import strategies as st

from vlib import boot
from vlib.core import Sub, Violation, short

PROPERTY = "C07"
TECHNIQUE = "property-based testing: generated keys, ranges and values; exhaustive comparison on small ranges"
LEVEL_NOTE = "Every generated range of at most 80 plaintexts is checked exhaustively; larger ranges on generated values."
RULE = "at least two different plaintexts were encrypted and compared, in a range with more outputs than inputs"
ASSUMPTIONS = ["ranges have at most 2^160 elements"]


@st.composite
def case(draw):
    key = draw(st.one_of(st.sampled_from([b"", b"\0", b"k", b"0" * 32]), st.binary(max_size=64)))
    size_in = draw(st.one_of(st.integers(1, 12), st.integers(1, 80), st.integers(1, 10**4), st.integers(1, 2**31),
                             st.sampled_from([1, 2, 2**8, 2**15, 2**16, 2**31, 2**32, 2**40, 2**53, 2**63, 2**64, 2**100 - 1])))
    extra = draw(st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 200), st.integers(0, 2**20), st.integers(0, 2**45),
                           st.sampled_from([size_in - 1, size_in, size_in + 1, 9 * size_in, 255 * size_in, 2**30 * size_in + 1,
                                            2**60 * size_in])))
    size_out = size_in + extra
    lo_in = draw(st.one_of(st.just(0), st.just(1), st.just(-size_in // 2), st.integers(-2**64, 2**64), st.integers(-10, 10)))
    lo_out = draw(st.one_of(st.just(0), st.just(1), st.just(-size_out // 2), st.integers(-2**64, 2**64),
                            st.integers(-10, 10)))
    pos = st.one_of(st.integers(0, size_in - 1), st.sampled_from([0, size_in - 1, size_in // 2, min(1, size_in - 1)]))
    vals = draw(st.lists(pos, min_size=1, max_size=8))
    near = draw(st.booleans())
    if near:
        vals = sorted({min(size_in - 1, max(0, v + d)) for v in vals for d in (-1, 0, 1)})
    probes = draw(st.lists(st.integers(0, size_out - 1), max_size=5))
    bad = draw(st.sampled_from(["below", "above", "float", "str", "none", "cfloat", "cstr", "cbelow", "cabove", "list"]))
    other = draw(st.one_of(st.just(b"other"), st.binary(max_size=8)))
    return {"key": key.hex(), "other": other.hex(), "in": [lo_in, lo_in + size_in - 1], "out": [lo_out, lo_out + size_out - 1],
            "vals": [lo_in + v for v in vals], "probes": [lo_out + x for x in probes], "bad": bad}


def errors(f, what):
    try:
        r = f()
    except (AssertionError, RecursionError) as e:
        raise Violation("%s: not rejected with an error of its own but %s" % (what, type(e).__name__))
    except Exception:
        return
    raise Violation("%s: accepted, answer %r" % (what, r))


def run(case, note):
    from scheduler.crypto.ope.ope import OPE, ValueRange
    key = bytes.fromhex(case["key"])
    ri, ro = case["in"], case["out"]

    def make():
        return OPE(key, in_range=ValueRange(*ri), out_range=ValueRange(*ro))
    strange = OPE(bytes.fromhex(case["other"]), in_range=ValueRange(*ri), out_range=ValueRange(*ro))
    for v in case["vals"][:4]:
        strange.decrypt(strange.encrypt(v))
    ope = make()
    n_in, n_out = ri[1] - ri[0] + 1, ro[1] - ro[0] + 1
    full = n_in <= 80
    vals = list(range(ri[0], ri[1] + 1)) if full else sorted(set(case["vals"]))
    enc = {}
    for v in vals:
        c = ope.encrypt(v)
        if type(c) is not int or not ro[0] <= c <= ro[1]:
            raise Violation("E(%d) = %r is not an integer in the output range %s" % (v, c, ro))
        enc[v] = c
        d = ope.decrypt(c)
        if d != v:
            raise Violation("D(E(%d)) = %r" % (v, d))
    for a, b in zip(vals, vals[1:]):
        if not enc[a] < enc[b]:
            raise Violation("%d < %d but E gives %d and %d" % (a, b, enc[a], enc[b]))
    # a function of key and input only: another object, another order of calls
    other = make()
    for v in reversed(vals):
        if other.encrypt(v) != enc[v]:
            raise Violation("E(%d) is %d in one object and %d in another with the same key" % (v, enc[v], other.encrypt(v)))
        if ope.encrypt(v) != enc[v]:
            raise Violation("E(%d) changes between calls" % v)
    # nor does it depend on other keys and ranges used before: a copy of the module that saw nothing else agrees
    alone = boot.fresh("scheduler.crypto.ope.ope", "scheduler.crypto.ope")
    third = alone.OPE(key, in_range=alone.ValueRange(*ri), out_range=alone.ValueRange(*ro))
    for v in vals[:6]:
        if third.encrypt(v) != enc[v]:
            raise Violation("E(%d) is %d, but %d in a process that used no other key" % (v, enc[v], third.encrypt(v)))
    # ciphertexts: either the image of what they decrypt to, or an error
    image = {c: v for v, c in enc.items()}
    probes = case["probes"] + [c + d for c in list(enc.values())[:20] for d in (-1, 1) if ro[0] <= c + d <= ro[1]]
    if n_out <= 300:
        probes = range(ro[0], ro[1] + 1)
    rejected = 0
    for c in probes:
        try:
            d = ope.decrypt(c)
        except (AssertionError, RecursionError) as e:
            raise Violation("D(%d) fails with %s" % (c, type(e).__name__))
        except Exception:
            rejected += 1
            if c in image:
                raise Violation("D(%d) is rejected although E(%d) = %d" % (c, image[c], c))
            continue
        if c in image and image[c] != d:
            raise Violation("D(%d) = %d but E(%d) = %d" % (c, d, image[c], c))
        if not (isinstance(d, int) and ri[0] <= d <= ri[1]) or ope.encrypt(d) != c:
            raise Violation("D(%d) = %r but E of it is not %d" % (c, d, c))
    if full and n_out <= 300 and n_out - rejected != n_in:
        raise Violation("%d of %d ciphertexts decrypt, there are %d plaintexts" % (n_out - rejected, n_out, n_in))
    bad = {"below": lambda: ope.encrypt(ri[0] - 1), "above": lambda: ope.encrypt(ri[1] + 1),
           "float": lambda: ope.encrypt(float(ri[0]) + 0.5), "str": lambda: ope.encrypt(str(ri[0])),
           "none": lambda: ope.encrypt(None), "cfloat": lambda: ope.decrypt(float(ro[0])),
           "cstr": lambda: ope.decrypt(str(ro[0])), "cbelow": lambda: ope.decrypt(ro[0] - 1),
           "cabove": lambda: ope.decrypt(ro[1] + 1), "list": lambda: ope.encrypt([ri[0]])}
    errors(bad[case["bad"]], "bad argument (%s)" % case["bad"])
    note.label("exhaustive" if full else "sampled", "equal_sizes" if n_in == n_out else "larger_output",
               "bad_" + case["bad"])
    note.nontrivial(len(vals) > 1 and n_out > n_in)


@st.composite
def bad_ranges(draw):
    a = draw(st.integers(-100, 100))
    b = draw(st.integers(-100, 100))
    return {"kind": draw(st.sampled_from(["reversed", "float", "narrow", "key"])), "a": a, "n": abs(b) + 1}


def run_ranges(case, note):
    from scheduler.crypto.ope.ope import OPE, ValueRange
    a, n = case["a"], case["n"]
    k = case["kind"]
    note.label("range_" + k)
    if k == "reversed":
        errors(lambda: ValueRange(a, a - n), "range with start after end")
    elif k == "float":
        errors(lambda: ValueRange(a + 0.5, a + n), "range with a fraction as start")
        errors(lambda: ValueRange(a, float(a + n)), "range with a float as end")
    elif k == "narrow":
        errors(lambda: OPE(b"k", in_range=ValueRange(a, a + n), out_range=ValueRange(0, n - 1)),
               "output range smaller than the input range")
    else:
        errors(lambda: OPE("text", in_range=ValueRange(a, a + n), out_range=ValueRange(a, a + 2 * n)), "key that is text")


@st.composite
def cipher_case(draw):
    big = st.one_of(st.integers(-2**63, 2**63 - 1), st.sampled_from([-2**63, 2**63 - 1, 0, -1, 1, 2**31, -2**31, 2**53 + 1]))
    return {"key": draw(st.text(max_size=40).filter(lambda s: s.isprintable())),
            "vals": draw(st.lists(big, min_size=2, max_size=12)),
            "out": draw(st.sampled_from([2**63, 2**63 + 5, -2**63 - 1, 10**30, -10**30]))}


def run_cipher(case, note):
    from scheduler.crypto.encrypt import OPECipher
    c = OPECipher(case["key"])
    vals = sorted(set(case["vals"]))
    enc = [c.encrypt(v) for v in vals]
    for a, b, x, y in zip(vals, vals[1:], enc, enc[1:]):
        if not x < y:
            raise Violation("%d < %d but their ciphertexts are %d and %d" % (a, b, x, y))
    for v, e in zip(vals, enc):
        if c.decrypt(e) != v or OPECipher(case["key"]).decrypt(str(e)) != v:
            raise Violation("%d does not decrypt back" % v)
        if not -2**63 <= e < 2**63:
            raise Violation("the ciphertext %d does not fit a BIGINT column" % e)
    errors(lambda: c.encrypt(case["out"]), "number outside the range: %d" % case["out"])
    note.nontrivial(len(vals) > 1)


SUBS = [Sub("ope", case, run, quick=2500, thorough=60000, shards=(6, 16)),
        Sub("ranges", bad_ranges, run_ranges, quick=60, thorough=400, shards=(1, 1)),
        Sub("cipher", cipher_case, run_cipher, quick=600, thorough=8000, shards=(1, 4))]
