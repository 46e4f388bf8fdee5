"""C08: every symmetric cipher inverts its own encryption and nothing else."""
from base64 import b64decode
from hashlib import sha256

from hypothesis import strategies as st

from vlib import gen, refcrypto
from vlib.core import Sub, Violation, short

PROPERTY = "C08"
TECHNIQUE = "property-based testing: round trips and a differential check against independent AES and SM4 implementations"
LEVEL_NOTE = ("Generated keys and texts; the reference ciphers are written from the standards in vlib/refcrypto.py and "
              "checked against published test vectors at start.")
RULE = "a non-empty text was encrypted and decrypted"
ASSUMPTIONS = ["texts do not end in NUL (zero padding drops it)", "texts are encodable as UTF-8"]

ANY = st.characters(exclude_categories=["Cs"])
TEXT = st.one_of(gen.texts(60), st.text(ANY, max_size=50), st.text(st.sampled_from("ab\0\x01\x10\n 中😀"), max_size=40),
                 st.integers(0, 70).map(lambda n: "x" * n), st.integers(0, 24).map(lambda n: "中" * n),
                 st.builds(lambda s, n, t: s * n + t, st.text(ANY, min_size=1, max_size=6), st.integers(1, 150), st.text(ANY, max_size=6))) \
    .map(lambda s: s.rstrip("\0"))
KEY = st.one_of(gen.KEYS, st.text(ANY, max_size=30))


@st.composite
def case(draw):
    a = draw(TEXT)
    b = draw(st.one_of(TEXT, st.just(a), st.just(a + "x"), st.just(a[:-1].rstrip("\0")), st.just(a.swapcase()),
                       st.just("\0" + a).map(lambda s: s.rstrip("\0"))))
    return {"key": draw(KEY), "key2": draw(KEY), "a": a, "b": b, "raw": draw(st.binary(max_size=48)).hex()}


CBC_KEY = bytes.fromhex("6114042e8aa261ec2cf107c26c197c6067aeba096cc4a7ac2411ef0fea4e01cf")
CBC_IV = b'\xd3|\xf6(\xc3\x15\x08\xeaq\xc4}\xbf\xc3\x95\\{'


def eq(got, want, what, note=None):
    if type(got) is not type(want) or got != want:
        raise Violation("%s: %s, expected %s" % (what, short(repr(got)), short(repr(want))))


def pad0(b):
    return b + b"\0" * (-len(b) % 16)


def run(case, note):
    from scheduler.crypto import encrypt as E
    key, texts = case["key"], [case["a"], case["b"]]
    k = sha256(key.encode("utf8")).digest()
    # AES, as stored
    aes = E.AESCipher(key)
    encs = []
    for t in texts:
        c = aes.encrypt(t)
        eq(b64decode(c), refcrypto.aes_ecb(k, pad0(t.encode("utf8"))), "AES ciphertext of %r under key %r" % (t, key))
        eq(E.AESCipher(key).decrypt(c), t, "AES round trip under key %r" % key)
        eq(aes.decrypt(c), t, "AES round trip in one object under key %r" % key)
        encs.append(c)
    if (encs[0] == encs[1]) != (texts[0] == texts[1]):
        raise Violation("AES ciphertexts of %r and %r are %s" % (*texts, "equal" if encs[0] == encs[1] else "different"))
    # SM4
    sm4 = E.SM4CipherBytes(key)
    for t in texts:
        c = sm4.encrypt(t)
        eq(c, refcrypto.sm4_ecb(k[:16], refcrypto.pkcs7(t.encode("utf8"))).hex(), "SM4 ciphertext of %r under key %r" % (t, key))
        eq(sm4.decrypt(c), t, "SM4 round trip under key %r" % key)
        eq(E.SM4CipherBytes(key).decrypt(bytes.fromhex(c)), t, "SM4 round trip of bytes under key %r" % key)
    eq(sm4.encrypt(texts[0].encode("utf8")), sm4.encrypt(texts[0]), "SM4 of the same text as bytes and str")
    # byte-wise AES
    raw = bytes.fromhex(case["raw"])
    ab = E.AESCipherBytes(key.encode("utf8"))
    eq(E.AESCipherBytes(key.encode("utf8")).decrypt(ab.encrypt(raw)), raw, "AESCipherBytes round trip")
    # the fixed-key CBC helper
    for t in texts:
        c = E.AESCrypto.encrypt(t)
        eq(c, refcrypto.aes_cbc(CBC_KEY, CBC_IV, refcrypto.pkcs7(t.encode("utf8"))),
           "AES-CBC ciphertext of %r" % t)
        eq(E.AESCrypto.decrypt(c), t, "AES-CBC round trip")
        eq(E.FernetCipher().decrypt(E.FernetCipher().encrypt(t)), t, "Fernet round trip")
    # another key gives another ciphertext
    if case["key2"] != key and texts[0]:
        if E.AESCipher(case["key2"]).encrypt(texts[0]) == encs[0] or E.SM4CipherBytes(case["key2"]).encrypt(texts[0]) == \
                sm4.encrypt(texts[0]):
            raise Violation("keys %r and %r give the same ciphertext" % (key, case["key2"]))
    n = len(texts[0].encode("utf8"))
    note.nontrivial(n)
    note.label("blocks_%d" % min(5, -(-n // 16)), "boundary" if n and n % 16 == 0 else "inside_block")


SUBS = [Sub("symmetric", case, run, quick=1500, thorough=40000, shards=(6, 16), setup=refcrypto.selftest)]
