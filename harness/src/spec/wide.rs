//! Arithmetic modulo a wide number on little-endian 64-bit limbs, for concrete values.
pub const L: usize = 9;
pub type Wide = [u64; L];

fn add(a: &Wide, b: &Wide) -> Wide {
    let mut r = [0; L];
    let mut c = 0u128;
    for i in 0..L {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    r
}
fn ge(a: &Wide, b: &Wide) -> bool {
    for i in (0..L).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub(a: &Wide, b: &Wide) -> Wide {
    let mut r = [0; L];
    let mut borrow = 0u128;
    for i in 0..L {
        let s = (1u128 << 64) + a[i] as u128 - b[i] as u128 - borrow;
        r[i] = s as u64;
        borrow = 1 - (s >> 64);
    }
    r
}
fn bit(a: &Wide, i: usize) -> bool {
    a[i / 64] >> (i % 64) & 1 == 1
}
/// a * b mod n from the top bit down; a < n
fn mul_mod(a: &Wide, b: &Wide, n: &Wide) -> Wide {
    let mut r = [0; L];
    for i in (0..64 * L).rev() {
        r = add(&r, &r);
        if ge(&r, n) {
            r = sub(&r, n);
        }
        if bit(b, i) {
            r = add(&r, a);
            if ge(&r, n) {
                r = sub(&r, n);
            }
        }
    }
    r
}
pub fn rem(a: &Wide, n: &Wide) -> Wide {
    mul_mod(&one(), a, n)
}
fn one() -> Wide {
    let mut o = [0; L];
    o[0] = 1;
    o
}
/// m^e mod n, n > 1
pub fn pow_mod(m: &Wide, e: &Wide, n: &Wide) -> Wide {
    let m = mul_mod(&one(), m, n);
    let mut r = one();
    let mut started = false;
    for i in (0..64 * L).rev() {
        if started {
            r = mul_mod(&r, &r, n);
        }
        if bit(e, i) {
            started = true;
            r = mul_mod(&r, &m, n);
        }
    }
    r
}
pub fn be(a: &Wide) -> Vec<u8> {
    let mut v = vec![];
    for i in (0..L).rev() {
        v.extend_from_slice(&a[i].to_be_bytes());
    }
    v
}
/// a fixed number of exactly `bits` bits
pub fn fixed(bits: u64, seed: u64) -> Wide {
    let mut r = [0; L];
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(88172645463325252);
    for i in 0..L {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r[i] = x;
    }
    for i in 0..64 * L {
        if i as u64 >= bits {
            r[i / 64] &= !(1 << (i % 64));
        }
    }
    if bits > 0 {
        r[(bits as usize - 1) / 64] |= 1 << ((bits - 1) % 64);
    }
    r
}
