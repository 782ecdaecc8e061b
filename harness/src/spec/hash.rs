//! FIPS 180-4 and RFC 1319/1320/1321
use super::tables::*;

/// message, 0x80, zeroes, bit length in the last `lenbytes` bytes of the last block
fn pad(m: &[u8], block: usize, lenbytes: usize, big_endian: bool) -> Vec<u8> {
    let mut total = m.len() + 1 + lenbytes;
    while total % block != 0 {
        total += 1;
    }
    let mut p = vec![0u8; total];
    p[..m.len()].copy_from_slice(m);
    p[m.len()] = 0x80;
    let bits = m.len() as u128 * 8;
    for i in 0..lenbytes {
        let byte = (bits >> (8 * i)) as u8;
        if big_endian {
            p[total - 1 - i] = byte;
        } else {
            p[total - lenbytes + i] = byte;
        }
    }
    p
}
fn be32(b: &[u8], i: usize) -> u32 {
    u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])
}
fn le32(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])
}
fn be64(b: &[u8], i: usize) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[8 * i..8 * i + 8]);
    u64::from_be_bytes(x)
}
fn add(a: u32, b: u32) -> u32 {
    a.wrapping_add(b)
}

#[inline(never)]
pub fn sha1(m: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for blk in pad(m, 64, 8, true).chunks(64) {
        let mut w = [0u32; 80];
        for t in 0..80 {
            w[t] = if t < 16 { be32(blk, t) } else { (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1) };
        }
        let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for t in 0..80 {
            let f = if t < 20 {
                (b & c) ^ (!b & d)
            } else if t < 40 {
                b ^ c ^ d
            } else if t < 60 {
                (b & c) ^ (b & d) ^ (c & d)
            } else {
                b ^ c ^ d
            };
            let k = [0x5a827999u32, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6][t / 20];
            let tmp = add(add(add(add(a.rotate_left(5), f), e), k), w[t]);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = tmp;
        }
        h = [add(h[0], a), add(h[1], b), add(h[2], c), add(h[3], d), add(h[4], e)];
    }
    let mut o = [0u8; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

fn sha2_32(m: &[u8], iv: &[u32; 8]) -> [u8; 32] {
    let mut h = *iv;
    for blk in pad(m, 64, 8, true).chunks(64) {
        let mut w = [0u32; 64];
        for t in 0..64 {
            w[t] = if t < 16 {
                be32(blk, t)
            } else {
                let (x, y) = (w[t - 2], w[t - 15]);
                let s1 = x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10);
                let s0 = y.rotate_right(7) ^ y.rotate_right(18) ^ (y >> 3);
                add(add(add(s1, w[t - 7]), s0), w[t - 16])
            };
        }
        let mut v = h;
        for t in 0..64 {
            let (a, e) = (v[0], v[4]);
            let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let ch = (e & v[5]) ^ (!e & v[6]);
            let t1 = add(add(add(add(v[7], s1), ch), SHA256_K[t]), w[t]);
            let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
            let maj = (a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]);
            let t2 = add(s0, maj);
            v = [add(t1, t2), v[0], v[1], v[2], add(v[3], t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = add(h[i], v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
#[inline(never)]
pub fn sha256(m: &[u8]) -> [u8; 32] {
    sha2_32(m, &SHA256_H)
}
#[inline(never)]
pub fn sha224(m: &[u8]) -> [u8; 28] {
    let mut o = [0u8; 28];
    o.copy_from_slice(&sha2_32(m, &SHA224_H)[..28]);
    o
}

fn sha2_64(m: &[u8], iv: &[u64; 8]) -> [u8; 64] {
    let mut h = *iv;
    for blk in pad(m, 128, 16, true).chunks(128) {
        let mut w = [0u64; 80];
        for t in 0..80 {
            w[t] = if t < 16 {
                be64(blk, t)
            } else {
                let (x, y) = (w[t - 2], w[t - 15]);
                let s1 = x.rotate_right(19) ^ x.rotate_right(61) ^ (x >> 6);
                let s0 = y.rotate_right(1) ^ y.rotate_right(8) ^ (y >> 7);
                s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16])
            };
        }
        let mut v = h;
        for t in 0..80 {
            let (a, e) = (v[0], v[4]);
            let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
            let ch = (e & v[5]) ^ (!e & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(SHA512_K[t]).wrapping_add(w[t]);
            let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
            let maj = (a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 64];
    for i in 0..8 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
#[inline(never)]
pub fn sha512(m: &[u8]) -> [u8; 64] {
    sha2_64(m, &SHA512_H)
}
#[inline(never)]
pub fn sha384(m: &[u8]) -> [u8; 48] {
    let mut o = [0u8; 48];
    o.copy_from_slice(&sha2_64(m, &SHA384_H)[..48]);
    o
}

#[inline(never)]
pub fn md2(m: &[u8]) -> [u8; 16] {
    let n = 16 - m.len() % 16;
    let mut p = m.to_vec();
    for _ in 0..n {
        p.push(n as u8);
    }
    let mut c = [0u8; 16];
    let mut l = 0u8;
    for i in 0..p.len() / 16 {
        for j in 0..16 {
            c[j] ^= MD2_S[(p[i * 16 + j] ^ l) as usize];
            l = c[j];
        }
    }
    p.extend_from_slice(&c);
    let mut x = [0u8; 48];
    for i in 0..p.len() / 16 {
        for j in 0..16 {
            x[16 + j] = p[i * 16 + j];
            x[32 + j] = x[16 + j] ^ x[j];
        }
        let mut t = 0u8;
        for j in 0..18u8 {
            for k in 0..48 {
                x[k] ^= MD2_S[t as usize];
                t = x[k];
            }
            t = t.wrapping_add(j);
        }
    }
    let mut o = [0u8; 16];
    o.copy_from_slice(&x[..16]);
    o
}

#[inline(never)]
pub fn md4(m: &[u8]) -> [u8; 16] {
    let mut h: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    const IDX: [[usize; 16]; 3] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15],
        [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15],
    ];
    const SH: [[u32; 4]; 3] = [[3, 7, 11, 19], [3, 5, 9, 13], [3, 9, 11, 15]];
    const K: [u32; 3] = [0, 0x5a827999, 0x6ed9eba1];
    for blk in pad(m, 64, 8, false).chunks(64) {
        // v = (a, b, c, d); each step updates the word in the role of a, then the roles rotate
        let (mut a, mut b, mut c, mut d) = (h[0], h[1], h[2], h[3]);
        for r in 0..3 {
            for s in 0..16 {
                let f = match r {
                    0 => (b & c) | (!b & d),
                    1 => (b & c) | (b & d) | (c & d),
                    _ => b ^ c ^ d,
                };
                let t = add(add(add(a, f), le32(blk, IDX[r][s])), K[r]).rotate_left(SH[r][s % 4]);
                (a, b, c, d) = (d, t, b, c);
            }
        }
        h = [add(h[0], a), add(h[1], b), add(h[2], c), add(h[3], d)];
    }
    let mut o = [0u8; 16];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

#[inline(never)]
pub fn md5(m: &[u8]) -> [u8; 16] {
    let mut h: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    const SH: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    for blk in pad(m, 64, 8, false).chunks(64) {
        let (mut a, mut b, mut c, mut d) = (h[0], h[1], h[2], h[3]);
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((b & d) | (c & !d), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = add(add(add(a, f), le32(blk, g)), MD5_T[i]).rotate_left(SH[i / 16][i % 4]);
            (a, b, c, d) = (d, add(b, t), b, c);
        }
        h = [add(h[0], a), add(h[1], b), add(h[2], c), add(h[3], d)];
    }
    let mut o = [0u8; 16];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}
