"""C10: homomorphic ciphertexts decrypt to their value and add up."""
from fractions import Fraction
from functools import reduce
from math import gcd

from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub, Violation, short

PROPERTY = "C10"
TECHNIQUE = "property-based testing: algebraic laws of the cipher over generated prime pairs and lists of numbers"
LEVEL_NOTE = "Keys from 30 to 256 bit primes; numbers include the limits of the supported range."
RULE = "at least two ciphertexts were multiplied and decrypted to their sum"
ASSUMPTIONS = ["keys are two different primes p, q with gcd(pq, (p-1)(q-1)) = 1; at least 30 bits each, so that the random factor of an encryption is practically never a multiple of one"]


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n |= 1
    while not is_prime(n):
        n += 2
    return n


@st.composite
def keypair(draw):
    if draw(st.integers(0, 2)) == 0:
        k = list(draw(st.sampled_from(gen.HOMO_KEYS)))
    else:
        bits = draw(st.sampled_from([30, 31, 32, 33, 40, 64, 128, 256]))
        k = []
        for _ in range(2):
            k.append(next_prime(draw(st.integers(2**(bits - 1), 2**bits - 1))))
        while k[1] == k[0] or gcd(k[0] * k[1], (k[0] - 1) * (k[1] - 1)) != 1:
            k[1] = next_prime(k[1] + 2)
    if draw(st.booleans()):
        k.reverse()
    return k


@st.composite
def case(draw):
    k = draw(keypair())
    lim = (k[0] * k[1]) // 3 - 1
    m = draw(st.integers(0, 8))
    vals, total = [], 0
    for _ in range(m):
        v = draw(st.one_of(st.integers(-20, 20), st.integers(-lim, lim), st.sampled_from([lim, -lim, 0, 1, -1])))
        if abs(v) > lim or abs(total + v) > lim:
            v = -v if abs(v) <= lim and abs(total - v) <= lim else 0
        vals.append(v)
        total += v
    return {"key": k, "vals": vals, "out": draw(st.integers(0, 1000)), "as": draw(st.sampled_from(["list", "str"]))}


def run(case, note):
    from scheduler.crypto.encrypt import HomomorphicCipher
    p, q = case["key"]
    n = p * q
    h = HomomorphicCipher(case["key"])
    cs = []
    for v in case["vals"]:
        c = h.encrypt(v)
        if not 0 < int(c) < n * n:
            raise Violation("ciphertext %s of %d is not below the square of the modulus" % (c, v))
        for who, x in (("the same object", h), ("another object", HomomorphicCipher(list(case["key"]))),
                       ("the key in the other order", HomomorphicCipher([q, p]))):
            for form in (c, int(c)):
                d = x.decrypt(form)
                if d != v or isinstance(d, float):
                    raise Violation("key %s: %d decrypts to %r with %s" % (case["key"], v, d, who))
        if int(h.encrypt(str(v))) <= 0 or h.decrypt(h.encrypt(str(v))) != v:
            raise Violation("key %s: the text form of %d does not decrypt to it" % (case["key"], v))
        cs.append(c)
    total = sum(case["vals"])
    prod = reduce(lambda a, b: a * b % (n * n), map(int, cs), 1)
    d = h.decrypt(str(prod))
    if d != total:
        raise Violation("key %s: the product of the ciphertexts of %s decrypts to %r, the sum is %d" % (
            case["key"], short(case["vals"]), d, total))
    d = h.decrypt(",".join(cs + ["SUM"]))
    if d != total:
        raise Violation("key %s: the list form of %s decrypts to the sum %r instead of %d" % (
            case["key"], short(case["vals"]), d, total))
    m = len(cs)
    if m:
        mean = Fraction(total, m)
        tol = abs(mean) * Fraction(1, 10**15)
        d = h.decrypt(",".join(cs + ["AVG"]))
        if abs(Fraction(d) - mean) > tol:
            raise Violation("key %s: the list form of %s decrypts to the mean %r instead of %s" % (
                case["key"], short(case["vals"]), d, float(mean)))
        d = h.decrypt("%d,%d" % (prod, m))
        if abs(Fraction(d) - mean) > tol + Fraction(501, 10**7):
            raise Violation("key %s: sum and count of %s decrypt to the mean %r instead of %s" % (
                case["key"], short(case["vals"]), d, float(mean)))
    # out of range is refused, not wrapped around
    lim = n // 3
    for v in (lim + case["out"], -lim - case["out"]):
        try:
            c = h.encrypt(v)
        except Exception:
            continue
        if h.decrypt(c) != v:
            raise Violation("key %s: %d is beyond a third of the modulus, accepted, and decrypts to %r" % (
                case["key"], v, h.decrypt(c)))
    note.nontrivial(m >= 2)
    note.label("count_%d" % m, "bits_%d" % p.bit_length())
    if any(abs(v) == n // 3 - 1 for v in case["vals"]):
        note.label("extreme_value")


SUBS = [Sub("paillier", case, run, quick=1200, thorough=20000, shards=(6, 16))]
