"""Plain, slow AES and SM4 written from the standards (FIPS 197, GB/T 32907), independent of the libraries in use."""


# ------------------------------------------------------------------ AES
def _xt(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


def _mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r


def _sbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if _mul(a, b) == 1:
                inv[a] = b
                break
    out = []
    for i in range(256):
        x = inv[i]
        y = 0x63
        for k in range(5):
            y ^= ((x << k) | (x >> (8 - k))) & 0xff
        out.append(y)
    return out


SBOX = _sbox()
INV = [SBOX.index(i) for i in range(256)]
MUL = {c: [_mul(c, x) for x in range(256)] for c in (2, 3, 9, 11, 13, 14)}


def _expand(key):
    nk = len(key) // 4
    rounds = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (rounds + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [SBOX[x] for x in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = _xt(rcon)
        elif nk > 6 and i % nk == 4:
            t = [SBOX[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(rounds + 1)]


def aes_block(key, block):
    rk = _expand(key)
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, len(rk)):
        s = [SBOX[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < len(rk) - 1:
            t = []
            for c in range(4):
                a, b, d, e = s[4 * c:4 * c + 4]
                t += [MUL[2][a] ^ MUL[3][b] ^ d ^ e, a ^ MUL[2][b] ^ MUL[3][d] ^ e,
                      a ^ b ^ MUL[2][d] ^ MUL[3][e], MUL[3][a] ^ b ^ d ^ MUL[2][e]]
            s = t
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def aes_ecb(key, data):
    return b"".join(aes_block(key, data[i:i + 16]) for i in range(0, len(data), 16))


def aes_cbc(key, iv, data):
    out, prev = b"", iv
    for i in range(0, len(data), 16):
        prev = aes_block(key, bytes(a ^ b for a, b in zip(data[i:i + 16], prev)))
        out += prev
    return out


def pkcs7(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


# ------------------------------------------------------------------ SM4
SM4_S = bytes.fromhex(
    "d690e9fecce13db716b614c228fb2c052b679a762abe04c3aa44132649860699"
    "9c4250f491ef987a33540b43edcfac62e4b31ca9c908e89580df94fa758f3fa6"
    "4707a7fcf37317ba83593c19e6854fa8686b81b27164da8bf8eb0f4b70569d35"
    "1e240e5e6358d1a225227c3b01217887d40046579fd327524c3602e7a0c4c89e"
    "eabf8ad240c738b5a3f7f2cef96115a1e0ae5da49b341a55ad933230f58cb1e3"
    "1df6e22e8266ca60c02923ab0d534e6fd5db3745defd8e2f03ff6a726d6c5b51"
    "8d1baf92bbddbc7f11d95c411f105ad80ac13188a5cd7bbd2d74d012b8e5b4b0"
    "8969974a0c96777e65b9f109c56ec68418f07dec3adc4d2079ee5f3ed7cb3948")


def _rol(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def _tau(x):
    return int.from_bytes(bytes(SM4_S[b] for b in x.to_bytes(4, "big")), "big")


def sm4_keys(key):
    fk = [0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc]
    k = [int.from_bytes(key[4 * i:4 * i + 4], "big") ^ fk[i] for i in range(4)]
    out = []
    for i in range(32):
        ck = int.from_bytes(bytes(((4 * i + j) * 7) % 256 for j in range(4)), "big")
        t = _tau(k[1] ^ k[2] ^ k[3] ^ ck)
        k = k[1:] + [k[0] ^ t ^ _rol(t, 13) ^ _rol(t, 23)]
        out.append(k[3])
    return out


def sm4_block(key, block):
    x = [int.from_bytes(block[4 * i:4 * i + 4], "big") for i in range(4)]
    for rk in sm4_keys(key):
        t = _tau(x[1] ^ x[2] ^ x[3] ^ rk)
        x = x[1:] + [x[0] ^ t ^ _rol(t, 2) ^ _rol(t, 10) ^ _rol(t, 18) ^ _rol(t, 24)]
    return b"".join(v.to_bytes(4, "big") for v in reversed(x))


def sm4_ecb(key, data):
    return b"".join(sm4_block(key, data[i:i + 16]) for i in range(0, len(data), 16))


def selftest():
    k = bytes.fromhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f")
    p = bytes.fromhex("00112233445566778899aabbccddeeff")
    assert aes_block(k, p).hex() == "8ea2b7ca516745bfeafc49904b496089"
    k = bytes.fromhex("0123456789abcdeffedcba9876543210")
    assert sm4_block(k, k).hex() == "681edf34d206965e86b3e94f536e4246"
