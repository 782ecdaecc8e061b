//! FIPS 197, state bytes in input order (column major)
use super::tables::*;

fn xtime(b: u8) -> u8 {
    (b << 1) ^ (if b >> 7 == 1 { 0x1b } else { 0 })
}

fn key_schedule(key: &[u8]) -> Vec<[u8; 4]> {
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w: Vec<[u8; 4]> = Vec::with_capacity(4 * (nr + 1));
    for i in 0..nk {
        w.push([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
    }
    let mut rcon = 1u8;
    for i in nk..4 * (nr + 1) {
        let mut t = w[i - 1];
        if i % nk == 0 {
            t = [t[1], t[2], t[3], t[0]];
            for k in 0..4 {
                t[k] = AES_SBOX[t[k] as usize];
            }
            t[0] ^= rcon;
            rcon = xtime(rcon);
        } else if nk > 6 && i % nk == 4 {
            for k in 0..4 {
                t[k] = AES_SBOX[t[k] as usize];
            }
        }
        let p = w[i - nk];
        w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
    }
    w
}
fn add_round_key(s: &mut [u8; 16], w: &[[u8; 4]], r: usize) {
    for c in 0..4 {
        for k in 0..4 {
            s[4 * c + k] ^= w[4 * r + c][k];
        }
    }
}

#[inline(never)]
pub fn encrypt(key: &[u8], block: [u8; 16]) -> [u8; 16] {
    let w = key_schedule(key);
    let nr = key.len() / 4 + 6;
    let mut s = block;
    add_round_key(&mut s, &w, 0);
    for r in 1..=nr {
        let mut t = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                t[4 * c + row] = AES_SBOX[s[4 * ((c + row) % 4) + row] as usize];
            }
        }
        if r != nr {
            for c in 0..4 {
                let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                for i in 0..4 {
                    let (p, q) = (a[i], a[(i + 1) % 4]);
                    t[4 * c + i] = xtime(p) ^ (xtime(q) ^ q) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                }
            }
        }
        s = t;
        add_round_key(&mut s, &w, r);
    }
    s
}

#[inline(never)]
pub fn decrypt(key: &[u8], block: [u8; 16]) -> [u8; 16] {
    let w = key_schedule(key);
    let nr = key.len() / 4 + 6;
    let mut s = block;
    add_round_key(&mut s, &w, nr);
    for r in (0..nr).rev() {
        let mut t = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                t[4 * ((c + row) % 4) + row] = AES_INV_SBOX[s[4 * c + row] as usize];
            }
        }
        add_round_key(&mut t, &w, r);
        if r != 0 {
            for c in 0..4 {
                let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                let x2 = a.map(xtime);
                let x4 = x2.map(xtime);
                let x8 = x4.map(xtime);
                for i in 0..4 {
                    let (p, q, u, v) = (i, (i + 1) % 4, (i + 2) % 4, (i + 3) % 4);
                    t[4 * c + i] = (x8[p] ^ x4[p] ^ x2[p]) ^ (x8[q] ^ x2[q] ^ a[q]) ^ (x8[u] ^ x4[u] ^ a[u]) ^ (x8[v] ^ a[v]);
                }
            }
        }
        s = t;
    }
    s
}
