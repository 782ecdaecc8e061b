"""The jobs of every property: harness function, concrete arguments (the size being decided), limits."""


class Job:
    def __init__(self, func, *args, core=True, timeout=120, reach=(1,), bound=""):
        self.func, self.args, self.core, self.timeout, self.reach, self.bound = func, args, core, timeout, reach, bound

    def __str__(self):
        return f"{self.func}({','.join(map(str, self.args))})"


class Prop:
    def __init__(self, jobs, explain, bounds, outside, assume=()):
        self.jobs, self.explain, self.bounds, self.outside, self.assume = jobs, explain, bounds, outside, list(assume)


ASSUME = [
    "rustc/LLVM compile the crate as they compile the IR the engine reads (opt-level 2, fat LTO, overflow checks on, panic=abort)",
    "the engine's semantics of LLVM IR (cross-checked against native runs on every run), its term rewriting and bit-blasting solver (self-tested in setup) and z3 are right",
    "allocation never fails",
    "the specifications in /verif/harness/src/spec",
]
PROPS = {}
METHOD = ("the crate and the harness are compiled to LLVM IR from the current source; the harness is executed symbolically "
          "with all input bytes of the stated sizes symbolic; every assertion and every reachable panic is decided by the SMT "
          "solver (after hash-consed term normalisation and SMT sweeping of internal equalities) for all values; ")


def dedup(js):
    seen, out = set(), []
    for j in js:
        k = (j.func, j.args)
        if k not in seen:
            seen.add(k)
            out.append(j)
    return out


# ---- ciphers -----------------------------------------------------------------------------------
def aes_enc(tier):
    js = []
    for k in (16, 24, 32):
        for via in (0, 1):
            js.append(Job("h_aes_enc", k, via, bound=f"every {8*k}-bit key and block"))
    return js


def aes_dec(tier):
    js = [Job("h_aes_dec", k, via, bound=f"every {8*k}-bit key and block") for k in (16, 24, 32) for via in (0, 1)]
    js += [Job("h_aes_rt", k, bound=f"every {8*k}-bit key and block") for k in (16, 24, 32)]
    return js


PROPS["C01"] = Prop(aes_enc, METHOD + "oracle: FIPS-197 written from the standard, S-box computed from GF(2^8) inversion",
                    "all keys of 128, 192 and 256 bits (both constructors), all blocks: no bound left", "nothing of the statement")
PROPS["C02"] = Prop(aes_dec, METHOD + "oracle: FIPS-197 inverse cipher, and decrypt(encrypt(b)) == b",
                    "all keys of 128, 192 and 256 bits, all blocks", "nothing of the statement")


def rc2_pairs(tier):
    ps = [(8, 64), (1, 1), (128, 1024), (16, 63), (5, 40), (33, 129)]
    ps += [(k, 8 * k) for k in range(1, 129)]
    ps += [(k, 1024) for k in range(1, 129, 3)] + [(k, 64) for k in range(1, 129, 3)]
    ps += [(8, b) for b in range(1, 1025, 1 if tier == "thorough" else 3)]
    ps += [(128, b) for b in range(2, 1025, 1 if tier == "thorough" else 7)]
    if tier == "thorough":
        ps += [(k, b) for k in range(1, 129) for b in range(1 + k % 16, 1025, 16)]
    return ps


def rc2_enc(tier):
    return dedup(Job("h_rc2_enc", k, b, bound="every key of the length, every block") for k, b in rc2_pairs(tier))


def rc2_dec(tier):
    js = []
    for i, (k, b) in enumerate(rc2_pairs(tier)):
        js.append(Job("h_rc2_rt", k, b, bound="every key of the length, every block"))
        if i < 40 or i % 9 == 0 or tier == "thorough":
            js.append(Job("h_rc2_dec", k, b, bound="every key of the length, every block"))
    return dedup(js)


PROPS["C03"] = Prop(rc2_enc, METHOD + "oracle: RFC 2268 written from the RFC, PITABLE from the digits of pi",
                    "every key and block, for key lengths 1-128 with effective bits 8*len, 64 (every third length), 1024 (every third), "
                    "and all (thorough) or every third/seventh effective length 1-1024 with 8- and 128-byte keys",
                    "(length, effective bits) pairs not listed")
PROPS["C04"] = Prop(rc2_dec, METHOD + "oracle: the identity, and RFC 2268 decryption",
                    "the same (length, effective bits) pairs as C03, every key and block", "pairs not listed")


def rc5(tier):
    ps = [(16, 12), (0, 12), (1, 1), (255, 12), (16, 255), (0, 0), (16, 0)]
    step = 1 if tier == "thorough" else 3
    ps += [(k, 12) for k in range(0, 256, step)] + [(16, r) for r in range(0, 256, step)]
    ps += [(k, r) for k in range(0, 34) for r in ((0, 1, 5) if tier == "quick" else range(0, 33))]
    ps += [(255, 255), (254, 1), (253, 0), (5, 100)]
    js = []
    for k, r in ps:
        for h in ("h_rc5_enc", "h_rc5_rt", "h_rc5_dec"):
            js.append(Job(h, k, r, bound="every key of the length, every block"))
    return dedup(js)


PROPS["C05"] = Prop(rc5, METHOD + "oracle: RC5-32/r/b from Rivest's paper; decrypt(encrypt(x)) == x",
                    "every key and block for (key length, rounds): every length 0-255 (quick: every third) with 12 rounds, every round "
                    "count 0-255 (quick: every third) with 16-byte keys, lengths 0-33 with few rounds", "pairs not listed")


def rc4(tier):
    js = [Job("h_rc4_crypt", k, k, n, bound="every key and message") for k, n in ((16, 8), (1, 1), (5, 40), (3, 0), (256, 20))]
    ks = list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
    if tier == "thorough":
        ks = list(range(1, 301))
    js += [Job("h_rc4_stream", k, k, 24, bound="every key") for k in ks]
    js += [Job("h_rc4_stream", k, k, n, bound="every key") for k, n in ((1, 300), (5, 600), (16, 520), (256, 300), (32, 257))]
    if tier == "thorough":
        js += [Job("h_rc4_stream", k, k, 3000, timeout=900, core=False, bound="every key") for k in (5, 16)]
        js += [Job("h_rc4_crypt", k, k, n, bound="every key and message") for k in range(1, 33) for n in (1, 2, 17)]
    return dedup(js)


PROPS["C06"] = Prop(rc4, METHOD + "oracle: RC4 KSA and PRGA written from the published description",
                    "every key of 1-40 bytes and selected lengths to 300 (thorough: all), every message; stream lengths to 600 (thorough 3000)",
                    "longer keys and streams")


# ---- hashes ------------------------------------------------------------------------------------
def hashes(fs, quick, thorough, extra=()):
    def f(tier):
        js = []
        ls = list(quick if tier == "quick" else thorough)
        for n in ls:
            for h in fs:
                js.append(Job(h, n, 0, n, bound="every message of the length", timeout=200))
        # long messages: the last bytes symbolic, the rest fixed
        for n in (512, 1024, 2047, 2048, 4096, 8185, 8191, 8192, 8193, 8256, 16384, 32768, 65536, 65600) + ((100000, 131072, 262150, 300000) if tier == "thorough" else ()):
            if n > 8256 and fs == ["h_md2"] and tier == "quick" and n != 65536:
                continue
            for h in fs:
                js.append(Job(h, n, n - 130, 130, bound="every value of the last 130 bytes of long messages", timeout=400))
        return dedup(js)
    return f


HO = "longer messages; long messages other than in their last 130 bytes; bit lengths above 2^21 (thorough 2^22), and so above 2^32 and 2^64"
PROPS["C07"] = Prop(hashes(["h_sha1"], list(range(0, 130)) + [183, 184, 191, 192, 256, 300], range(0, 400)),
                    METHOD + "oracle: FIPS 180-4 SHA-1 written from the standard",
                    "every message of 0-129 bytes and selected lengths to 300 (thorough: all to 399); messages of selected lengths to 65600 bytes (thorough 300000) with the last 130 bytes arbitrary", HO)
PROPS["C08"] = Prop(hashes(["h_sha224", "h_sha256"], list(range(0, 200)) + [247, 248, 255, 256, 257, 311, 320, 500, 1000], list(range(0, 600)) + [1000, 2000, 4096]),
                    METHOD + "oracle: FIPS 180-4 with constants computed from prime roots",
                    "every message of 0-199 bytes and selected lengths to 1000 (thorough: all to 599, 4096); messages of selected lengths to 65600 bytes (thorough 300000) with the last 130 bytes arbitrary", HO)
PROPS["C09"] = Prop(hashes(["h_sha384", "h_sha512"], list(range(0, 270)) + [367, 368, 383, 384, 500, 1000], list(range(0, 800)) + [1000, 2000, 4096]),
                    METHOD + "oracle: FIPS 180-4 with constants computed from prime roots",
                    "every message of 0-269 bytes and selected lengths to 1000 (thorough: all to 799, 4096); messages of selected lengths to 65600 bytes (thorough 300000) with the last 130 bytes arbitrary", HO)
PROPS["C10"] = Prop(hashes(["h_md2"], list(range(0, 82)) + [95, 96, 97, 128, 200], list(range(0, 300)) + [500, 1000]),
                    METHOD + "oracle: RFC 1319 with the S table from the digits of pi",
                    "every message of 0-81 bytes and selected lengths to 200 (thorough: all to 299); messages of selected lengths to 65600 bytes (thorough 300000) with the last 130 bytes arbitrary", HO)
PROPS["C11"] = Prop(hashes(["h_md4"], list(range(0, 200)) + [247, 248, 255, 256, 257, 311, 320, 500], list(range(0, 600)) + [1000, 2000]),
                    METHOD + "oracle: RFC 1320", "every message of 0-199 bytes and selected lengths to 500 (thorough: all to 599); messages of selected lengths to 65600 bytes (thorough 300000) with the last 130 bytes arbitrary", HO)
PROPS["C12"] = Prop(hashes(["h_md5"], list(range(0, 200)) + [247, 248, 255, 256, 257, 311, 320, 500], list(range(0, 600)) + [1000, 2000]),
                    METHOD + "oracle: RFC 1321", "every message of 0-199 bytes and selected lengths to 500 (thorough: all to 599); messages of selected lengths to 65600 bytes (thorough 300000) with the last 130 bytes arbitrary", HO)


# ---- hash values, padding, block and stream encryption -----------------------------------------------
def hash_values(tier):
    js = [Job("h_hv_words", b, bound="every value") for b in (160, 224, 256, 384, 512)]
    for n in (20, 28, 32, 48, 64):
        L = 2 * n
        # the digits a window at a time: every byte string in the window, the digits around it fixed
        win = 40 if tier == "thorough" else 16
        for at in range(0, L, win):
            js.append(Job("h_hv_hex", n, L, at, min(win, L - at), reach=(1, 2), bound=f"every byte in windows of {win} digits"))
        js.append(Job("h_hv_hex", n, L, 0, L, core=False, reach=(1, 2), timeout=240, bound="every byte string of the right length"))
        for l in sorted({0, 1, 2, n, L - 2, L - 1, L + 1, L + 2, 2 * L} | (set(range(L + 9)) - {L} if tier == "thorough" else set())):
            js.append(Job("h_hv_hex", n, l, 0, min(l, 12), reach=(2,), bound="wrong length, every byte in the first 12"))
            if l > 12:
                js.append(Job("h_hv_hex", n, l, l - 12, 12, reach=(2,), bound="wrong length, every byte in the last 12"))
    return dedup(js)


PROPS["C13"] = Prop(hash_values, METHOD + "oracle: big-endian word layout and positional hex written in the harness",
                    "every value of every hash size; hex: every byte string of the right length (in windows of 16 bytes as the core jobs, and whole), "
                    "wrong lengths listed in jobs.py with 12 symbolic bytes at either end", "hex strings much longer than the hash")

PADN = (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255)


def pick(n, tier, dense):
    """values 0..n: all in the thorough tier or when few, else the borders and a spread"""
    if tier == "thorough" or n <= dense:
        return list(range(n + 1))
    return sorted({0, 1, 2, 3, n // 2 - 1, n // 2, n // 2 + 1, n - 3, n - 2, n - 1, n} | set(range(0, n, max(1, n // 7))))


def pkcs(tier):
    js = []
    for n in PADN:
        for l in pick(n - 1, tier, 16):
            js.append(Job("h_pkcs_pad", n, l, bound="every partial block"))
        for l in (n, n + 1, 2 * n, 2 * n + 3):
            js.append(Job("h_pkcs_pad", n, l, bound="every over-long block"))
        if n <= (64 if tier == "thorough" else 33):
            js.append(Job("h_pkcs_unpad", n, 999, reach=(1, 2), bound="every block", timeout=200))
        for c in sorted(set(pick(n, tier, 24)) | {0, 1, min(n + 1, 255), min(n + 2, 255), 128, 255, 254} | (set(range(256)) if tier == "thorough" else set())):
            js.append(Job("h_pkcs_unpad", n, c, reach=(3,), bound="every block ending in the given count"))
    return dedup(js)


PROPS["C14"] = Prop(pkcs, METHOD + "oracle: the padding rule written in the harness; refusal is a panic",
                    f"block sizes {PADN}; padding: every partial block of the listed lengths (thorough: all); unpadding: every block for sizes to 33 "
                    "(thorough 64), and for every size every block with a given last byte (quick: borders and a spread of values; thorough: all 256)",
                    "block sizes not listed")


def bitpad(tier):
    js = []
    for n in PADN + (256, 257, 300, 512):
        for l in pick(n - 1, tier, 16):
            js.append(Job("h_bit_pad", n, l, bound="every partial block"))
        for l in (n, n + 1, 2 * n, 2 * n + 3):
            js.append(Job("h_bit_pad", n, l, bound="every over-long block"))
        if n <= (64 if tier == "thorough" else 33):
            js.append(Job("h_bit_unpad", n, n, reach=(1, 2) if n > 0 else (1,), bound="every block", timeout=200))
        for z in pick(n - 1, tier, 24):
            js.append(Job("h_bit_unpad", n, z, reach=(3,), bound="every block whose last non-zero byte is at the given place"))
    return dedup(js)


PROPS["C15"] = Prop(bitpad, METHOD + "oracle: the padding rule written in the harness; refusal is a panic",
                    f"block sizes {PADN + (256, 257, 300, 512)}; padding: every partial block of the listed lengths (thorough: all); unpadding: every block for "
                    "sizes to 33 (thorough 64), and for every size every block with a given number of trailing zeroes (quick: borders and a spread)",
                    "block sizes not listed")


def blocks(tier):
    js = []
    sizes = (1, 2, 3, 4, 5, 8, 16, 24, 32, 64, 128, 255)
    for n in sizes:
        lens = set(range(0, min(2 * n + 2, 20))) | {n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, 5 * n + 2 if n < 64 else n}
        if tier == "thorough":
            lens |= set(range(0, min(4 * n + 2, 300))) | {10 * n, 20 * n + 1}
        for l in sorted(lens):
            for e in (0, 1):
                js.append(Job("h_block_enc", n, l, e, bound="every message, every cipher and mode (their outputs arbitrary)"))
            js.append(Job("h_block_rt", n, l, bound="every message, key and iv of a CBC mode over a toy cipher"))
        for nb in (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 8, 16):
            for e in (0, 1):
                if n <= (16 if tier == "quick" else 32):
                    js.append(Job("h_block_dec", n, nb * n, e, 999, bound="every ciphertext, cipher and mode outputs arbitrary"))
                if nb <= 3:
                    for c in sorted({0, 1, 2, n - 1, n, min(n + 1, 255), 255, 128}):
                        js.append(Job("h_block_dec", n, nb * n, e, c, reach=(1,) if 1 <= c <= n else (), bound="every ciphertext whose last decrypted byte is given"))
        for l in sorted({0, 1, n - 1, n + 1, 2 * n - 1, 2 * n + 1, 3 * n + 1}):
            if l == 0 or l % n:
                for e in (0, 1):
                    js.append(Job("h_block_dec", n, l, e, 999, bound="every ciphertext that is not whole blocks"))
    return dedup(js)


PROPS["C16"] = Prop(blocks, METHOD + "the cipher and the mode are unknown functions: each call returns fresh symbolic bytes and is logged; "
                    "oracle: the logged calls are the PKCS-padded message in order and the output is what they returned; plus a CBC round trip",
                    "block sizes 1-5, 8, 16, 24, 32, 64, 128, 255; messages to 2-5 blocks (thorough 20); decryption of 1-5 blocks (thorough 16), any last block",
                    "other sizes and longer messages", ["a chaining mode's effect is only through the blocks it returns"])


def streams(tier):
    js = [Job("h_stream", a, b, c, d, bound="every key stream and data")
          for a, b, c, d in ((0, 0, 0, 0), (1, 1, 1, 0), (4, 6, 7, 0), (4, 6, 7, 3), (0, 5, 9, 5), (17, 1, 40, 1), (64, 64, 64, 10), (1, 0, 1, 0), (100, 300, 256, 299))]
    m = 5 if tier == "quick" else 9
    js += [Job("h_stream", a, b, c, d, bound="every key stream and data") for a in range(m) for b in range(m) for c in range(m) for d in range(b + 1)]
    js += [Job("h_stream_bytes", n, bound="every key stream and data") for n in (1, 2, 8, 64, 300)]
    return dedup(js)


PROPS["C17"] = Prop(streams, METHOD + "oracle: byte-wise XOR with one running position",
                    "every key stream and data up to 656 bytes in three calls of the listed lengths (the second optionally dropped early), and byte by byte to 300",
                    "longer data")


# ---- big integers ------------------------------------------------------------------------------
def big_values(tier):
    th = tier == "thorough"
    js = [Job("h_big_conv", n, bound="every byte string of this length, both byte orders") for n in (*range(0, 20), 31, 32, 33, 64) + ((48, 70) if th else ())]
    js.append(Job("h_big_u128", bound="every 128-bit value"))
    js += [Job("h_big_bits", n, bound="every number of exactly n bytes") for n in (*range(0, 19), 24, 32, 33, 64)]
    js += [Job("h_big_isset", n, bound="every number of n bytes, every bit index below 2^32") for n in (0, 1, 2, 3, 4, 8, 9, 16, 17) + ((24, 32) if th else ())]
    js += [Job("h_big_update", n, bound="every number of n bytes, every bit index below 2^32, both values") for n in (0, 1, 2, 3, 4, 8, 9, 16)]
    for a in (0, 1, 7, 8, 9, 15, 16, 17, 24, 33, 64, 65, 128):
        for b in (a - 9, a - 1, a, a + 1, a + 8):
            if b >= 0:
                for op in range(6) if b == a else (0, 1, 3):
                    js.append(Job("h_big_cmp", a, b, op, bound="every pair of numbers of exactly these bit lengths"))
    X = "fixed digits but for a window of symbolic ones"
    for n, at, w in ((17, 0, 3), (20, 5, 4), (33, 0, 3), (64, 10, 4), (65, 0, 2), (128, 0, 2), (128, 100, 5), (200, 150, 4), (256, 0, 2), (257, 0, 2), (257, 255, 2), (300, 0, 2), (300, 200, 4), (512, 0, 1), (513, 0, 1), (600, 300, 4),
                     (1025, 0, 1), (2049, 1000, 2), (4100, 0, 1), (8191, 8180, 3), (8193, 8180, 3), (8193, 0, 1)) + (((16400, 10, 3), (256, 0, 3), (300, 0, 3)) if th else ()):
        js.append(Job("h_bigw_info", n, at, w, bound=X))
    for a, b, at, w in ((16, 16, 0, 2), (17, 17, 0, 2), (32, 32, 10, 4), (33, 33, 0, 2), (64, 64, 0, 2), (64, 64, 60, 4), (65, 65, 0, 1), (128, 128, 60, 4), (200, 200, 100, 2), (256, 256, 0, 1), (256, 256, 254, 2), (257, 257, 0, 1), (300, 300, 0, 2),
                        (300, 300, 298, 2), (300, 299, 0, 2), (256, 257, 0, 1), (255, 256, 0, 2), (512, 512, 300, 3), (513, 513, 0, 1), (600, 600, 599, 1), (1025, 1025, 1024, 1), (1025, 1024, 0, 1), (2049, 2049, 1000, 1), (8193, 8193, 4000, 1), (8193, 8192, 8000, 1)):
        js.append(Job("h_bigw_cmp", a, b, at, w, bound="pairs that agree in their fixed digits, windows of symbolic ones in both"))
    m = 5 if not th else 7
    js += [Job("h_big_cmp_any", a, b, bound="every pair of byte strings of these lengths", timeout=200) for a in range(m) for b in range(m)]
    if th:
        js += [Job("h_big_cmp", a, a, op, bound="every pair of numbers of exactly these bit lengths", timeout=300) for a in range(2, 300, 13) for op in range(6)]
        js.append(Job("h_big_cmp_any", 8, 8, bound="every pair of byte strings of these lengths", timeout=300))
    return dedup(js)


PROPS["C18"] = Prop(big_values, METHOD + "oracle: fixed-width school-book arithmetic on bytes; paths are kept apart by operand length and leading zero count",
                    "conversions to 64 bytes (thorough 70), bit queries to 17-64 bytes with any index, comparisons of numbers to 136 bits (thorough 298) of equal and neighbouring "
                    "bit lengths and of all numbers to 4 bytes (thorough 8); the same operations on numbers to 8193 bytes (thorough 16400) with windows of 1-5 symbolic digits", "larger numbers; wide numbers that differ in digits further apart than the windows")


def big_arith(tier):
    th = tier == "thorough"
    js = []
    m = 6 if not th else 10
    big = ((16, 16), (17, 3), (3, 17), (16, 17), (32, 32), (8, 32), (64, 1)) + (((64, 64), (33, 32), (1, 64), (48, 50)) if th else ())
    for a in range(m):
        for b in range(m):
            js.append(Job("h_big_add", a, b, bound="every pair of numbers of these byte lengths"))
    js += [Job("h_big_add", a, b, bound="every pair of numbers of these byte lengths", timeout=300) for a, b in big]
    js += [Job("h_big_add8", a, bound="every number of this byte length, every byte") for a in (*range(0, 12), 16, 32)]
    for a, b in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (4, 4), (8, 2), (8, 6), (8, 7), (5, 5)) + (((6, 6), (8, 8), (16, 15), (16, 2), (12, 12)) if th else ()):
        for op in (0, 1):
            js.append(Job("h_big_sub", a, b, op, bound="every pair a >= b of these byte lengths", timeout=300))
    for a in (0, 1, 2, 3, 8, 17):
        for k in (0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 255, 256, 300) + (tuple(range(2, 200, 3)) if th else ()):
            js.append(Job("h_big_shl", a, k, bound="every number of this byte length"))
            js.append(Job("h_big_shr", a, k, bound="every number of this byte length"))
    for k in (1 << 20, 1 << 31, (1 << 32) - 1):
        for a in (0, 1, 3):
            js.append(Job("h_big_shr", a, k, bound="every number of this byte length"))
    js += [Job("h_big_shift", a, lim, bound="every number of this byte length, every shift distance", timeout=300) for a, lim in ((0, 20), (1, 20), (2, 20)) + (((3, 30), (4, 40)) if th else ())]
    for a, b in ((0, 1), (0, 9), (1, 1), (1, 2), (4, 1), (4, 2), (5, 5), (7, 3), (8, 4), (8, 8), (9, 8), (9, 5), (12, 5), (12, 9), (12, 13), (16, 16), (16, 14), (16, 15), (17, 16), (24, 23), (24, 24), (24, 25), (33, 32), (64, 64),
                 (64, 63), (65, 64), (8, 64)) + (((16, 12), (16, 8), (24, 20), (40, 36), (65, 62), (100, 99), (120, 119), (12, 2)) if th else ()):
        js.append(Job("h_big_rem", a, b, bound="every pair of numbers of exactly these bit lengths", timeout=300 if not th else 900))
    X = "fixed digits but for windows of symbolic ones"
    for a, b, at, w in ((16, 17, 0, 2), (17, 17, 0, 2), (33, 33, 20, 4), (64, 64, 0, 1), (64, 64, 60, 3), (65, 65, 30, 3), (128, 128, 0, 1), (128, 128, 100, 3), (100, 300, 0, 1), (300, 100, 50, 2), (256, 256, 0, 1), (256, 256, 250, 3), (257, 257, 10, 3),
                        (300, 300, 0, 1), (300, 300, 290, 3), (300, 2, 0, 1), (512, 512, 0, 1), (600, 600, 400, 3), (1025, 1025, 1000, 3), (2100, 2100, 2090, 3), (4100, 1, 4098, 2), (8200, 8200, 8190, 2)):
        js.append(Job("h_bigw_add", a, b, at, w, bound=X + ": addition, then subtraction of either", timeout=200))
    for a, k, at, w in ((20, 2048, 0, 4), (20, 2047, 0, 4), (20, 2040, 0, 4), (20, 2049, 3, 4), (5, 5000, 0, 5), (1, 4096, 0, 1), (300, 2047, 0, 3), (300, 1001, 100, 3), (600, 3, 100, 3), (300, 255, 298, 2), (256, 1, 0, 2), (256, 8, 0, 2), (257, 7, 0, 1),
                        (128, 1024, 0, 3), (64, 512, 10, 5), (64, 511, 10, 5), (3, 65535, 0, 3), (3, 65536, 0, 3), (3, 65543, 0, 3), (2, 524288, 0, 2), (8200, 9, 8000, 3), (513, 4104, 0, 1)):
        js.append(Job("h_bigw_shift", a, k, at, w, bound=X + ": left shift, right shift of it and of itself", timeout=200))
    for a, b, w, s in ((128, 64, 4, 60), (128, 127, 4, 0), (129, 128, 4, 64), (200, 100, 4, 120), (256, 128, 4, 3), (300, 100, 4, 150), (500, 1, 4, 0), (500, 8, 4, 200), (500, 256, 4, 400), (500, 499, 4, 495), (512, 512, 4, 60), (544, 257, 4, 500), (100, 300, 3, 50)):
        js.append(Job("h_big_remw", a, b, WIN(w, s), bound="remainders of wide numbers: fixed bits but for four symbolic ones in the dividend, one path per value", timeout=300))
    return dedup(js)


PROPS["C19"] = Prop(big_arith, METHOD + "oracle: fixed-width school-book arithmetic on bytes (remainder: long division with one case per quotient); results are also compared "
                    "with the number built directly, its bit length and its order",
                    "addition to 64 bytes, subtraction to 8 bytes (thorough 16), shifts of numbers to 17 bytes by 0-300 bits and (right) the largest distances, every distance for numbers to 2 bytes "
                    "(thorough 4), remainders of numbers to 65 bits with at most 7 quotient bits (thorough 120 bits, 11 quotient bits); addition, subtraction and shifts (to 524288 bits) of numbers to 8200 bytes with windows of 1-5 symbolic digits; remainders of numbers to 544 bits with 4 symbolic bits (a case split)", "larger numbers and quotients; wide numbers with other symbolic digits")


# ---- RSA ---------------------------------------------------------------------------------------
def WIN(w, shift):
    return w * 65536 + shift


def rsa_raw(tier):
    th = tier == "thorough"
    js = []
    m = "every message of this many bits (also those not below the modulus)"
    for n, e, b in ((35, 3, 8), (251, 3, 7), (3233, 1, 8), (3233, 3, 5), (35, 5, 6), (16, 2, 8), (2, 3, 8), (3, 2, 8), (7, 0, 5), (256, 1, 9), (255, 2, 6), (64, 3, 8)) + (
            ((35, 3, 10), (187, 7, 6), (3233, 3, 7), (3233, 17, 4), (255, 3, 8), (1000, 2, 8), (257, 3, 8)) if th else ()):
        js.append(Job("h_rsa_msg", n, e, b, 0, bound=m, timeout=200 if not th else 900, core=not th or b < 9))
    js += [Job("h_rsa_msg", n, e, b, 1, bound=m, timeout=200) for n, e, b in ((35, 5, 6), (16, 2, 8), (3233, 1, 8))]
    js += [Job("h_rsa_exp", m, n, b, bound="every exponent of up to this many bits", timeout=200) for m, n, b in ((5, 35, 5), (100, 35, 8), (2, 251, 6), (0, 35, 8), (1, 35, 8), (34, 35, 6), (3, 16, 8)) + (((2, 35, 10), (7, 251, 7)) if th else ())]
    js += [Job("h_rsa_mod", m, e, b, bound="every modulus of exactly this many bits", timeout=200) for m, e, b in ((9, 2, 8), (300, 2, 8), (5, 3, 5), (7, 1, 12), (2, 4, 8), (200, 1, 8), (70000, 1, 8)) + (((77, 2, 9), (1000, 2, 10)) if th else ())]
    js += [Job("h_rsa_win", n, e, base, w * 256 + s, bound="fixed modulus and exponent, every value of a window of message bits", timeout=300)
           for n, e, base, w, s in ((65521, 3, 4660, 3, 0), (65521, 3, 60000, 3, 13), (4294967291, 3, 305419896, 3, 29)) + (((4294967291, 3, 305419896, 4, 0), (1099511627689, 3, 123456789, 3, 20), (65521, 17, 4660, 3, 4)) if th else ())]
    # wide numbers: few symbolic bits, decided by splitting into one path per value
    c = "fixed modulus, exponent and message of these bit lengths but for a window of symbolic message bits, one path per value"
    for nb, e, mb, w, s in ((63, 3, 63, 3, 61), (64, 3, 64, 3, 0), (64, 2, 65, 3, 62), (65, 3, 65, 3, 63), (72, 3, 72, 3, 64), (100, 3, 100, 3, 97), (127, 2, 128, 2, 126), (128, 2, 128, 3, 126), (128, 3, 127, 2, 0), (129, 3, 129, 2, 127),
                            (136, 3, 200, 2, 64), (256, 2, 256, 2, 250), (256, 1, 512, 3, 509), (512, 2, 500, 1, 64), (64, 65537, 60, 1, 5),
                            (16, 65536 + 130, 16, 1, 3), (33, 65536 + 64, 33, 1, 30), (64, 65536 + 65, 64, 1, 60), (40, 65536 + 128, 40, 1, 0), (9, 65536 + 255, 9, 1, 0), (128, 65536 + 17, 120, 1, 3)) + (
            ((512, 3, 512, 2, 100), (520, 3, 520, 2, 511), (256, 65537, 250, 1, 3), (128, 65536 + 128, 127, 1, 3), (560, 2, 560, 3, 555), (64, 65536 + 256, 64, 1, 3)) if th else ()):
        js.append(Job("h_rsa_wide", nb, e, mb, WIN(w, s), bound=c, timeout=300 if not th else 900))
    return dedup(js)


PROPS["C20"] = Prop(rsa_raw, METHOD + "keys are loaded from key structures; oracle: repeated multiplication and reduction by the definition; wide numbers: modular square-and-multiply on 64-bit limbs",
                    "every message of 5-9 bits for twelve (exponent, modulus) pairs with moduli to 3233, every exponent of 5-8 bits, every modulus of 5-12 bits for given messages, windows of 3 message bits with moduli to 32 bits; "
                    "moduli to 512 bits (thorough 560) and exponents to 255 bits with fixed numbers but for 1-3 message bits (a case split: one path per value, folded by the engine)",
                    "other wide operands: exactness there rests on C18/C19 and the loop structure being the same at every size")


def rsa_keys(tier):
    th = tier == "thorough"
    js = []
    E = "every exponent of this many bits (from the base on), the inverse searched for by the definition"
    for p, q, b, base in ((5, 7, 6, 0), (3, 5, 6, 0), (3, 7, 6, 0), (11, 41, 7, 0), (7, 5, 6, 0), (13, 31, 6, 0), (5, 7, 9, 0), (11, 13, 5, 60), (17, 19, 6, 140), (3, 257, 6, 100), (11, 41, 9, 0)) + (
            ((61, 53, 4, 15), (61, 53, 7, 0), (13, 31, 9, 0), (101, 103, 5, 5080)) if th else ()):
        js.append(Job("h_rsa_keys", p, q, b, base, bound=E, timeout=200 if not th else 900))
    D = "every exponent of this many bits and every d with e*d = k*lcm + 1"
    big = ((251, 65521), (65521, 4294967291), (18446744073709551557, 18446744073709551533), (4294967291, 18446744073709551557), (3, 18446744073709551557), (65537, 257))
    for p, q in big:
        js.append(Job("h_rsa_inv", p, q, 4, 0, bound=D, timeout=200))
        js.append(Job("h_rsa_inv", p, q, 256 + 4, 0, bound=D + ", one path per exponent"))
        js.append(Job("h_rsa_inv", p, q, 512 + (4 if not th else 6), 65530, bound="sixteen exponents from 65530 on, one path per exponent, d computed by counting"))
        js.append(Job("h_rsa_inv", p, q, 512 + (5 if not th else 7), 240, bound="32 exponents from 240 on, one path per exponent, d computed by counting"))
    js.append(Job("h_rsa_inv", 251, 65521, 256 + 4, 65530, timeout=200, bound=D + ", one path per exponent"))
    N = "every multiple (to this many bits) of a common factor with the lcm is refused"
    js += [Job("h_rsa_noinv", p, q, g, b, reach=(), bound=N, timeout=200) for p, q, g, b in ((11, 41, 4, 8), (11, 41, 5, 6), (65521, 4294967291, 2, 4), (65521, 4294967291, 2, 6), (5, 7, 3, 8), (5, 7, 2, 8), (61, 53, 13, 6))]
    for p, q, e, w, base in ((5, 7, 5, 4, 0), (5, 7, 5, 4, 16), (5, 7, 5, 2, 32), (3, 5, 3, 4, 0), (3, 11, 3, 4, 0), (3, 11, 3, 5, 15), (5, 11, 3, 4, 0), (5, 11, 3, 3, 48), (3, 7, 5, 4, 0), (7, 5, 5, 4, 8)) + (((61, 53, 7, 2, 3000), (61, 53, 7, 2, 0), (7, 11, 7, 4, 60), (251, 241, 7, 2, 251)) if th else ()):
        for o in (0, 1):
            js.append(Job("h_rsa_pair", p * 65536 + q, e, w * 65536 + base, o, bound="every message of this many bits from the base on, below the modulus", timeout=200 if not th else 900))
    return dedup(js)


PROPS["C21"] = Prop(rsa_keys, METHOD + "returned keys are compared with keys loaded from a key structure holding the expected numbers; oracle: the inverse by its definition (search, or any d with e*d = k*lcm + 1)",
                    "primes listed in jobs.py up to 64 bits (products to 128 bits); every exponent of 4-9 bits for small primes, of 4 bits for all, sixteen each around 65536 and 32 around 256; refusal for every multiple of a common factor to 4-8 bits; "
                    "round trips in both orders for messages below small moduli", "other primes and exponents; products of more than 128 bits (refused)")


def rsa_messages(tier):
    th = tier == "thorough"
    js = []
    R = "every message, every padded block of w bits from the base on"
    for n, e, d, base, ml, w in ((451, 1, 1, 0, 3, 6), (451, 1, 1, 250, 0, 3), (70000, 1, 1, 65000, 4, 4), (451, 9, 9, 0, 2, 3), (451, 3, 27, 100, 2, 2), (35, 5, 5, 0, 1, 0)) + (((451, 9, 9, 0, 2, 4), (451, 1, 1, 0, 3, 8), (451, 3, 27, 200, 3, 3)) if th else ()):
        js.append(Job("h_rsa_message", n, e * 65536 + d, base, ml * 256 + w, bound=R, timeout=300 if not th else 900))
    for n, e, base, ml, w in ((451, 3, 0, 3, 4), (451, 3, 200, 0, 4), (451, 1, 0, 3, 8), (65537, 1, 60000, 2, 4), (65521, 3, 200, 2, 3), (255, 3, 0, 1, 0), (16777259, 2, 4090, 2, 3)):
        js.append(Job("h_rsa_cipher", n, e, base, ml * 256 + w, bound="every message, every padded block of w bits from the base on", timeout=300))
    for n, d, base, cl, w in ((451, 3, 200, 2, 4), (255, 3, 200, 1, 4), (451, 3, 0, 2, 4), (451, 3, 0, 1, 4), (451, 3, 0, 4, 3), (451, 1, 440, 2, 5), (65521, 3, 65510, 2, 3), (256, 1, 250, 2, 4), (65536, 1, 250, 3, 4), (257, 2, 250, 2, 4)):
        js.append(Job("h_rsa_plain", n, d, base, cl * 256 + w, bound="every ciphertext of this length of w bits from the base on, every message", timeout=300))
    W = "every message; fixed modulus, exponent and block of these bit lengths but for a window of symbolic bits, one path per value"
    for nb, e, mb, w, s in ((72, 3, 64, 2, 60), (72, 1, 64, 2, 0), (128, 1, 120, 3, 100), (128, 2, 120, 2, 3), (129, 3, 128, 2, 3), (136, 3, 128, 2, 0), (136, 1, 20, 3, 0), (65, 3, 64, 3, 20), (256, 1, 100, 3, 90), (256, 2, 248, 1, 9), (520, 1, 512, 3, 500),
                            (520, 1, 8, 3, 0), (521, 2, 520, 1, 3), (64, 65536 + 40, 56, 1, 3)) + (((528, 3, 520, 3, 500), (568, 1, 8, 6, 0), (64, 65536 + 59, 56, 2, 0), (256, 3, 248, 4, 100)) if th else ()):
        js.append(Job("h_rsa_wmsg", nb, e, mb, WIN(w, s), bound=W, timeout=300 if not th else 900))
    return dedup(js)


PROPS["C22"] = Prop(rsa_messages, METHOD + "the padding scheme is a harness object that checks its arguments and returns an arbitrary block; oracle: the power by the definition, as many bytes as the modulus",
                    "every message of 0-5 bytes; padded blocks and ciphertexts of 3-8 symbolic bits (including all that give leading zero bytes) for moduli to 24 bits; moduli to 521 bits (thorough 568) with 1-3 symbolic bits, one path per value",
                    "other wide keys and blocks")


# ---- OAEP --------------------------------------------------------------------------------------
def oaep_enc(tier):
    th = tier == "thorough"
    js = []
    B = "every label and message of these lengths"
    for l in (0, 1, 5, 31, 32, 55, 56, 63, 64, 100):
        for m, k in ((0, 66), (1, 67), (0, 67), (0, 96), (0, 97), (0, 98), (30, 96), (31, 97), (32, 98), (31, 98), (20, 128), (62, 128), (63, 129), (190, 256), (100, 256), (1, 130), (446, 512)):
            if l in (0, 5, 64) or m in (1, 62):
                js.append(Job("h_oaep_enc", l, m, k, bound=B))
                js.append(Job("h_oaep_rt", l, m, k, bound=B))
        for m, k in ((0, 0), (0, 1), (0, 33), (0, 65), (1, 66), (5, 70), (63, 128), (191, 256), (64, 128), (300, 256)):
            if l in (0, 5):
                js.append(Job("h_oaep_enc", l, m, k, reach=(), bound="refusal of every label and message of these lengths"))
    for m in range(0, 70, 1 if th else 5):
        for s in (0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66) if th else (0, 1, 30):
            js.append(Job("h_oaep_enc", 3, m, m + 66 + s, bound=B))
            js.append(Job("h_oaep_rt", 3, m, m + 66 + s, bound=B))
        js.append(Job("h_oaep_enc", 3, m, m + 65, reach=(), bound="refusal"))
    for m, k in ((0, 1024), (958, 1024), (800, 1024), (500, 2048), (5, 8300), (0, 8226), (1, 8259)):
        js += [Job(h, 3 if k < 4000 else 0, m, k, bound=B, timeout=300) for h in ("h_oaep_enc", "h_oaep_rt")]
    js += [Job(h, l, 3, 100, bound=B, timeout=200) for l in (119, 120, 127, 128, 200, 300, 1000) for h in ("h_oaep_enc", "h_oaep_rt")]
    if th:
        js += [Job(h, 0, m, 2048, bound=B, timeout=600) for m in (0, 1000, 1982) for h in ("h_oaep_enc", "h_oaep_rt")]
    return dedup(js)


PROPS["C23"] = Prop(oaep_enc, METHOD + "oracle: EME-OAEP of RFC 8017 over the SHA-256 of the crate, which C08 compares with its standard; the seed is whatever the encoding carries, recovered by unmasking",
                    "every label of 0-1000 bytes and message of 0-958 bytes of the listed lengths, encoded lengths 66-8300 (more than 256 mask blocks; above 2048 with the empty label) and too short ones", "other lengths")


def oaep_dec(tier):
    th = tier == "thorough"
    js = []
    for k in (66, 67, 68, 70, 97, 98, 128, 129) + ((256,) if th else ()):
        js.append(Job("h_oaep_dec", 0, k, 1, 0, reach=(1, 2), bound="every first byte, seed and data block with the right label hash, every label of this length", timeout=300))
        js.append(Job("h_oaep_dec", 5, k, 1, 0, reach=(1, 2), bound="every first byte, seed and data block with the right label hash, every label of this length", timeout=300))
    for l in (0, 5, 64):
        for k in (66, 67, 70, 98):
            js.append(Job("h_oaep_dec", l, k, 0, 0, reach=(1, 2), bound="every byte string of k bytes, a fixed label", timeout=300))
    for l, k, z in ((0, 256, 180), (0, 256, 191), (5, 512, 400), (5, 512, 430), (64, 128, 40), (0, 128, 60)):
        js.append(Job("h_oaep_dec", l, k, 2, z, reach=(2,), bound="every data block with the right hash and z zeroes after it", timeout=300))
    for l, k, z in ((5, 1024, 930), (5, 2048, 1980), (0, 8300, 8220), (0, 8226, 8150), (0, 8259, 8180)):
        js.append(Job("h_oaep_dec", l, k, 3, z, reach=(1, 2), bound="a fixed seed and label, every data block with the right hash and z zeroes after it", timeout=300))
    for n in (*range(0, 40), 64, 65, 66):
        js.append(Job("h_oaep_short", n, n, 0, reach=(1,), bound="every byte string of n bytes, too short to be an encoding") if n < 66 else Job("h_oaep_short", n, 67, 3, bound="every byte string of another length than stated"))
    for n, k in ((0, 66), (0, 128), (65, 66), (67, 66), (127, 128), (129, 128), (66, 128), (128, 66), (33, 66), (32, 256), (1, 0), (66, 0), (66, 1), (128, 65), (66, 33), (100, 64)):
        for l in (0, 7):
            js.append(Job("h_oaep_short", n, k, l, bound="every byte string of another length than stated"))
    if th:
        js += [Job("h_oaep_dec", 5, k, 1, 0, reach=(1, 2), bound="every data block with the right hash", timeout=600) for k in range(66, 140)]
        js += [Job("h_oaep_short", n, k, 0, bound="every byte string") for n in range(0, 140, 3) for k in range(0, 140, 7) if n != k]
    return dedup(js)


PROPS["C24"] = Prop(oaep_dec, METHOD + "the encoded message ranges over all byte strings through the bijection (first byte, seed, data block) -> (first byte, masked seed, masked data block); oracle: RFC 8017 decoding",
                    "every byte string of 66-129 bytes of the listed lengths with the right label hash in place, of 66-98 with any, 256 to 8300 bytes with a run of zeroes given (over 512: seed and label fixed); every byte string of 0-65 bytes or of another length than stated; labels of 0-64 bytes",
                    "other lengths")


# ---- DER and key structures ----------------------------------------------------------------------
def der_parse(tier):
    th = tier == "thorough"
    js = [Job("h_der", n, reach=(2,) if n < 2 else (1, 2), bound="every byte string of n bytes", timeout=300) for n in range(0, 9)]
    js.append(Job("h_der", 10, reach=(1, 2), core=th, bound="every byte string of n bytes", timeout=500))
    js.append(Job("h_der", 9, reach=(1, 2), core=th, bound="every byte string of n bytes", timeout=300))
    if th:
        js.append(Job("h_der", 11, reach=(1, 2), core=False, bound="every byte string of n bytes", timeout=3000))
    for k, ls in ((0, (0, 1, 2, 50, 126, 127)), (1, (0, 1, 127, 128, 200, 255)), (2, (0, 5, 255, 256, 300, 1000)), (3, (1, 70, 300)), (4, (1, 300)), (8, (1, 20)), (9, (3,)), (20, (5,))):
        for l in ls:
            for cut in (0, 1, 2):
                js.append(Job("h_der_long", k, l, cut, reach=(), bound="every element (any tag) with a length of this form, whole, cut by a byte or followed by one"))
    for k in (0, 1, 2, 3, 4, 7, 8, 9, 12, 16, 17):
        for l in (0, 1, 2, 5, 130, 256, 300):
            if k == 0 and l > 127 or k == 1 and l > 255:
                continue
            js.append(Job("h_der_len", k, l, reach=(2,), bound="every length field of k bytes over l bytes of content", timeout=200))
    for d in (1, 2, 3, 5, 10, 20, 40):
        for n in (0, 1, 2, 3, 4, 5):
            for k in (0, 1, 2):
                if k or 2 * d + n < 120:
                    js.append(Job("h_der_nest", d, n, k, reach=(), bound="every content of n bytes in nested sequences", timeout=200))
    for m in (0, 1, 2, 3, 5, 9):
        for l in (0, 1, 20, 130):
            for n in (0, 1, 2, 3, 4):
                if m or l == 0:
                    js.append(Job("h_der_seq", m, l, n, reach=(), bound="every sequence of m octet strings and n more bytes", timeout=200))
    return dedup(js)


PROPS["C25"] = Prop(der_parse, METHOD + "paths are kept apart by the structure of the input; oracle: a scanner that turns the bytes into events (tag, place and length of the content), compared with the returned tree",
                    "every byte string of 0-10 bytes (thorough 11); elements of every known tag with short and 1- to 20-byte length forms and contents to 1000 bytes, whole, cut and followed by a byte; every length field of 1-17 bytes; sequences nested to depth 40 and of up to 9 elements, "
                    "around or followed by 0-5 arbitrary bytes", "other byte strings of more than 10 bytes; nesting so deep that the recursive parser exhausts the stack",
                    ["the text of error messages is not looked at (formatting is replaced by a stub)"])


def key_load(tier):
    th = tier == "thorough"
    js = []
    V = "every value of the modulus and exponent bytes"
    for pub in (0, 1):
        for n, d in ((1, 1), (2, 1), (3, 3), (1, 3), (4, 2)) + (((8, 8), (12, 3)) if pub else ()):
            js.append(Job("h_key_values", pub, n, d, 0, bound=V, timeout=200))
        if not pub:
            js.append(Job("h_key_values", 0, 2, 2, 1, bound=V + " and of the other integers", timeout=200))
        for n, d in ((64, 64), (65, 3), (127, 128), (128, 128), (129, 1), (256, 256), (257, 256), (513, 512)):
            for z in (0, 1) if n < 200 else (0, 257, 1):
                js.append(Job("h_key_zeros", pub, n, d, z * 256 if z == 1 else z, bound=V + " with the given number of leading zeroes"))
        L = 29 if pub else 53
        for w in (1, 2, 3) + ((4,) if th else ()):
            for pos in range(L):
                js.append(Job("h_key_mut", pub, pos, w, reach=(), bound="every value of w bytes at every place of a valid key structure", timeout=200 if not th else 600))
        for n in range(L + 1):
            js.append(Job("h_key_cut", pub, n, 0, reach=(1,) if n == L else (2,), bound="every prefix of a valid key structure"))
        js += [Job("h_key_cut", pub, L, x, reach=(2,), bound="every continuation of a valid key structure") for x in (1, 2, 3)]
        js += [Job("h_key_cut", pub, n, x, reach=(), bound="every continuation of a prefix of a valid key structure", timeout=200) for n in range(0, L, 1 if th else 4) for x in (1, 2)]
        right = 2 if pub else 9
        for k in range(0, 13):
            for o in range(6):
                js.append(Job("h_key_count", pub, k, o, reach=(2,) if k != right or o in (1, 2) else (), bound="every key structure with this many integers or outer elements"))
        for l in (0, 1, 8, 9, 10):
            for v in (0, 1, 2) if not pub else (0,):
                js.append(Job("h_key_oid", pub, l, v, reach=(2,), bound="every algorithm identifier of l bytes, every version of v bytes"))
        R = 10 if pub else 11
        for l in range(0, 16):
            js.append(Job("h_key_label", pub, l, 99, reach=(1, 2) if l == R else (2,), bound="every ASCII label of this length", timeout=200))
        js += [Job("h_key_label", pub, R, i, reach=(1, 2), bound="the right label with one character changed") for i in range(R)]
    return dedup(js)


PROPS["C26"] = Prop(key_load, METHOD + "oracle: a second parser of the two key structures on top of the DER scanner; the loaded key is compared with one loaded from a canonical structure with the expected numbers",
                    "every value of moduli and exponents to 3-12 bytes with all leading-zero patterns, and of moduli to 513 bytes with 0 or 1 leading zeroes; every value of 1-3 bytes (thorough 4) at every place of a valid structure; every prefix, and continuations; 0-12 integers; "
                    "missing and additional elements; every algorithm identifier of 0-10 bytes; every ASCII label of 0-15 characters", "other structures: combined deviations further apart than the window",
                    ["the text of error messages is not looked at (formatting is replaced by a stub)", "two keys are equal exactly if their numbers are (derived equality; the numbers themselves are observed through C20)"])


# ---- PEM ---------------------------------------------------------------------------------------
def pem_write(tier):
    th = tier == "thorough"
    js = []
    for n in (*range(0, 12), 46, 47, 48, 49, 50, 71, 94, 95, 96, 97, 98, 143, 144, 145, 191, 192, 193, 300, 480, 1000):
        for l in (0, 1, 11):
            js.append(Job("h_pem_write", l, n, bound="every single-line ASCII label and all data of these lengths"))
    for l in (2, 3, 20, 64, 65, 100):
        for n in (0, 5, 48, 100):
            js.append(Job("h_pem_write", l, n, bound="every single-line ASCII label and all data of these lengths"))
    if th:
        js += [Job("h_pem_write", 3, n, bound="every label and all data of these lengths", timeout=300) for n in range(0, 400)]
    for n in (*range(0, 14), 47, 48, 49, 50, 95, 96, 97) + ((*range(14, 47), 143, 144, 145, 192) if th else ()):
        js.append(Job("h_pem_rt", 2, n, 0, bound="every single-line label and all data of these lengths", timeout=300))
    for l, n, w in ((0, 3, 0), (1, 3, 0), (3, 3, 0), (4, 3, 0), (5, 1, 0), (8, 1, 0), (0, 3, 1), (1, 3, 1), (2, 0, 2), (0, 48, 1), (11, 4, 0)):
        js.append(Job("h_pem_rt", l, n, w, bound="every single-line label (w characters of two bytes) and all data of these lengths", timeout=300))
    return dedup(js)


PROPS["C27"] = Prop(pem_write, METHOD + "oracle: the PEM text written in the harness (an empty block may hold one empty line), and identity for reading back",
                    "writing: every single-line ASCII label of 0-100 characters and all data of the listed lengths to 1000 bytes (thorough: all to 399); reading back: all data of 0-13 bytes and around 48 and 96 (thorough 192), labels of 0-11 characters, with one or two two-byte characters",
                    "other lengths; characters of three and four bytes")


def pem_read(tier):
    th = tier == "thorough"
    js = []
    import_lens = [len(t) for t in PEM_TEXTS]
    for t, L in enumerate(import_lens):
        for pos in range(L + 1):
            for w in (1, 2, 3) + ((4,) if th else ()):
                for ins in (0, 1):
                    js.append(Job("h_pem_text", t, pos, w, ins, reach=(), bound="every ASCII replacement or insertion of w characters at every place of twelve texts", timeout=200 if not th else 600))
    for n in range(0, 5):
        js.append(Job("h_pem_body", n, 0, reach=(), bound="every ASCII body of n characters", timeout=300))
    for n in range(0, 9):
        js.append(Job("h_pem_body", n, 1, reach=(), bound="every body of n characters without white space or dashes", timeout=300))
    js += [Job("h_pem_any", n, reach=(2,), bound="every ASCII text of n characters", timeout=300) for n in range(0, 6 if th else 5)]
    return dedup(js)


PEM_TEXTS = [
    "-----BEGIN A-----\nQUJD\n-----END A-----", "x\n-----BEGIN AB C-----\nQUJD\nREU=\n-----END AB C-----\ny\n",
    "-----BEGIN A-----\r\n QUI=\t\r\n-----END A-----\r\n", "-----BEGIN A-----\n-----END A-----", "-----BEGIN A-----\nQQ==\n-----END B-----",
    "-----BEGIN A-----\n-----BEGIN A-----\nQQ==\n-----END A-----", "-----BEGIN A-----\nQQ==\n-----END A-----\n-----END A-----",
    "-----END A-----\n-----BEGIN A-----\nQQ==\n-----END A-----", "-----BEGIN A-----\nQQ==\n", "QQ==\n-----END A-----",
    "-----BEGIN A----\nQQ==\n-----END A-----", "-----BEGIN -----\nQQ\n==\n\n-----END -----\nQQ",
]
PROPS["C28"] = Prop(pem_read, METHOD + "paths are kept apart by the structure of the text; oracle: a second reader written in the harness (line splitting, trimming, state machine, strict base64)",
                    "every ASCII replacement and insertion of one to three characters (thorough four) at every place of twelve texts covering the accepted form and its deviations; every ASCII body of 0-4 characters and every one without white space of 0-8; every ASCII text of 0-4 (thorough 5) characters",
                    "non-ASCII texts; larger simultaneous changes", ["the text of error messages is not looked at (formatting is replaced by a stub)"])
