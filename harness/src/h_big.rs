//! big integers
use crate::spec::wide;
use crate::spec::num::*;
use crate::sym::*;
use cryptography::big::BigUint;
use std::cmp::Ordering;

/// n symbolic bytes, big endian; if `tight` the first is not zero (exactly n significant bytes)
fn digits(n: usize, tight: bool) -> Vec<u8> {
    let v = any_vec(n);
    if tight && n > 0 {
        assume(v[0] != 0);
    }
    v
}

/// exactly n significant bits, big endian
fn bits(n: usize) -> Vec<u8> {
    let v = any_vec((n + 7) / 8);
    if n > 0 {
        let top = (n - 1) % 8;
        assume(v[0] >> top == 1);
    }
    v
}
/// numerical order of two big endian numbers
fn order(x: &[u8], y: &[u8]) -> Ordering {
    let n = x.len().max(y.len());
    let mut r = 0u8;
    for i in 0..n {
        // i-th byte of both, from the top of the longer one
        let p = if i + x.len() >= n { x[i + x.len() - n] } else { 0 };
        let q = if i + y.len() >= n { y[i + y.len() - n] } else { 0 };
        let here = if p > q { 2 } else if p < q { 1 } else { 0 };
        r = if r == 0 { here } else { r };
    }
    match r {
        0 => Ordering::Equal,
        1 => Ordering::Less,
        _ => Ordering::Greater,
    }
}
/// b is exactly the number `want`, in its canonical form
pub fn same(b: &BigUint, want: Num, id: u32) {
    let v = b.to_be_bytes();
    let l = concretize(v.len() as u64) as usize;
    check(l <= W, id);
    let mut w = [0u8; W];
    for i in 0..l {
        w[i] = want.0[l - 1 - i];
    }
    check_eq(&v[..l], &w[..l], id);
    let mut hi = 0;
    for i in l..W {
        hi |= want.0[i];
    }
    check(hi == 0, id + 1);
    check(l == 0 || v[0] != 0, id + 2);
}
/// everything observable about b agrees with the number
fn full(b: &BigUint, want: Num, id: u32) {
    same(b, want, id);
    check(b.bits_used() == want.bits(), id + 3);
    let mut le = [0u8; W];
    for i in 0..W {
        le[i] = want.0[i];
    }
    let direct = BigUint::from_le_bytes(le);
    check(*b == direct, id + 4);
    check(b.cmp(&direct) == Ordering::Equal, id + 5);
}
/// len digits, big endian, without leading zeroes: fixed, but for w symbolic ones from `at` on
fn wide_num(len: usize, at: usize, w: usize) -> Vec<u8> {
    let mut v = message(len, at, w);
    if at == 0 && w > 0 && len > 0 {
        assume(v[0] != 0);
    } else if len > 0 {
        v[0] |= 1;
    }
    v
}
/// b is the number of these digits (the first may be zeroes), by everything that can be observed
fn is_number(b: &BigUint, digits: &[u8], id: u32) {
    let v = b.to_be_bytes();
    let l = concretize(v.len() as u64) as usize;
    check(l <= digits.len(), id);
    let z = digits.len() - l;
    check_eq(&v[..l], &digits[z..], id + 1);
    let mut hi = 0;
    for d in &digits[..z] {
        hi |= *d;
    }
    check(hi == 0, id + 2);
    check(l == 0 || v[0] != 0, id + 3);
    let bits = if l == 0 { 0 } else { 8 * l as u32 - v[0].leading_zeros() };
    check(b.bits_used() == bits, id + 4);
    check(*b == BigUint::from_be_bytes(digits), id + 5);
}
fn num_of(v: &[u8]) -> Num {
    Num::be(v)
}

crate::harnesses! {
    h_big_conv(n, _b, _c, _d) {
        join(2);
        let v = digits(n as usize, false);
        let want = num_of(&v);
        let b = BigUint::from_be_bytes(&v);
        reach(1);
        same(&b, want, 10);
        let mut r = v.clone();
        r.reverse();
        let l = BigUint::from_le_bytes(&r);
        same(&l, want, 20);
        check(b == l, 30);
    }
    h_big_u128(_a, _b, _c, _d) {
        let x = any_u128();
        let want = Num::le(&x.to_le_bytes());
        let b = BigUint::from(x);
        reach(1);
        same(&b, want, 10);
        check(b.as_u128() == Ok(x), 13);
        check(BigUint::from_be_bytes(x.to_be_bytes()) == b, 14);
        check(b.bits_used() == 128 - x.leading_zeros(), 15);
    }
    // exactly n significant bytes
    h_big_bits(n, _b, _c, _d) {
        let v = digits(n as usize, true);
        let want = num_of(&v);
        let b = BigUint::from_be_bytes(&v);
        reach(1);
        check(b.bits_used() == want.bits(), 1);
        match b.as_u128() {
            Ok(x) => {
                check(n <= 16, 2);
                check(Num::le(&x.to_le_bytes()).0 == want.0, 3);
            }
            Err(_) => check(n > 16, 4),
        }
    }
    h_big_isset(n, _b, _c, _d) {
        let v = digits(n as usize, true);
        let b = BigUint::from_be_bytes(&v);
        let i = any_u32();
        reach(1);
        let mut bit = false;
        for k in 0..8 * n as usize {
            if i as usize == k {
                bit = v[n as usize - 1 - k / 8] >> (k % 8) & 1 == 1;
            }
        }
        check(b.is_set(i) == bit, 1);
    }
    // one bit changed; i symbolic
    h_big_update(n, _b, _c, _d) {
        let n = n as usize;
        let v = digits(n, true);
        let mut b = BigUint::from_be_bytes(&v);
        let i = any_u32();
        let set = any_u8() & 1 == 1;
        let mut w = v.clone();
        let m = 1u8 << (i % 8);
        for k in 0..n {
            let x = w[n - 1 - k];
            let y = if set { x | m } else { x & !m };
            w[n - 1 - k] = if (i / 8) as usize == k { y } else { x };
        }
        reach(1);
        if i as usize >= 8 * n {
            panic_ok(true);
            b.update(i, set);
            check(false, 2);
        } else {
            assume(n == 0 || w[0] != 0);
            b.update(i, set);
            check_eq(&b.to_be_bytes(), &w, 1);
        }
    }
    // exactly la and lb significant bits; op: which way of comparing
    h_big_cmp(la, lb, op, _d) {
        join(2);
        let (x, y) = (bits(la as usize), bits(lb as usize));
        let (a, b) = (BigUint::from_be_bytes(&x), BigUint::from_be_bytes(&y));
        let want = order(&x, &y);
        reach(1);
        match op {
            0 => check(a.cmp(&b) == want, 1),
            1 => check((a == b) == (want == Ordering::Equal), 2),
            2 => check(a.partial_cmp(&b) == Some(want), 3),
            3 => check((a < b) == (want == Ordering::Less), 4),
            4 => check((a <= b) == (want != Ordering::Greater), 5),
            _ => check(a.clone().max(b.clone()) == if want == Ordering::Less { b.clone() } else { a.clone() }, 6),
        }
    }
    // any numbers of la and lb digits
    h_big_cmp_any(la, lb, _c, _d) {
        join(2);
        let (x, y) = (digits(la as usize, false), digits(lb as usize, false));
        let (a, b) = (BigUint::from_be_bytes(&x), BigUint::from_be_bytes(&y));
        let want = order(&x, &y);
        reach(1);
        check(a.cmp(&b) == want, 1);
    }
    h_big_add(la, lb, _c, _d) {
        let (x, y) = (digits(la as usize, true), digits(lb as usize, true));
        let mut a = BigUint::from_be_bytes(&x);
        let b = BigUint::from_be_bytes(&y);
        a += &b;
        reach(1);
        full(&a, num_of(&x).add(num_of(&y)), 10);
        check_eq(&b.to_be_bytes(), &y, 1);
    }
    h_big_add8(la, _b, _c, _d) {
        let x = digits(la as usize, true);
        let k = any_u8();
        let mut a = BigUint::from_be_bytes(&x);
        a += k;
        reach(1);
        full(&a, num_of(&x).add(Num::le(&[k])), 10);
    }
    h_big_sub(la, lb, op, _d) {
        join(2);
        let (x, y) = (digits(la as usize, true), digits(lb as usize, true));
        let mut a = BigUint::from_be_bytes(&x);
        let b = BigUint::from_be_bytes(&y);
        let (nx, ny) = (num_of(&x), num_of(&y));
        assume(nx.ge(ny));
        if op == 0 {
            a -= &b;
        } else {
            a = a - &b;
        }
        reach(1);
        full(&a, nx.sub(ny), 10);
    }
    h_big_shl(la, k, _c, _d) {
        join(2);
        let x = digits(la as usize, true);
        let mut a = BigUint::from_be_bytes(&x);
        a <<= k as u32;
        reach(1);
        full(&a, num_of(&x).shl(k as usize), 10);
    }
    h_big_shr(la, k, _c, _d) {
        join(2);
        let x = digits(la as usize, true);
        let mut a = BigUint::from_be_bytes(&x);
        a >>= k as u32;
        reach(1);
        full(&a, num_of(&x).shr(k as usize), 10);
    }
    // symbolic shift distance: below lim bits to the left, any u32 to the right
    h_big_shift(la, lim, _c, _d) {
        join(2);
        let x = digits(la as usize, true);
        let mut a = BigUint::from_be_bytes(&x);
        let mut b = a.clone();
        let k = any_u32();
        b >>= k;
        let mut w = Num([0; W]);
        for j in 0..8 * la as usize {
            if k as usize == j {
                w = num_of(&x).shr(j);
            }
        }
        same(&b, w, 20);
        assume((k as u64) < lim);
        a <<= k;
        reach(1);
        let mut w = Num([0; W]);
        for j in 0..lim as usize {
            if k as usize == j {
                w = num_of(&x).shl(j);
            }
        }
        same(&a, w, 10);
    }
    // exactly la and lb significant bits; long division first, one path per quotient
    h_big_rem(la, lb, _c, _d) {
        join(2);
        let (x, y) = (bits(la as usize), bits(lb as usize));
        let mut a = BigUint::from_be_bytes(&x);
        let b = BigUint::from_be_bytes(&y);
        let (mut nx, mut ny) = (0u128, 0u128);
        for d in &x { nx = nx << 8 | *d as u128; }
        for d in &y { ny = ny << 8 | *d as u128; }
        if la >= lb {
            for k in (0..=la - lb).rev() {
                if split((nx >= ny << k) as u64) == 1 {
                    nx -= ny << k;
                }
            }
        }
        a %= &b;
        reach(1);
        same(&a, Num::le(&nx.to_le_bytes()), 10);
        check_eq(&b.to_be_bytes(), &y, 1);
    }
    // the same, split by neither
    h_big_rem_all(la, lb, _c, _d) {
        join(2);
        let (x, y) = (bits(la as usize), bits(lb as usize));
        let mut a = BigUint::from_be_bytes(&x);
        let b = BigUint::from_be_bytes(&y);
        let (mut nx, mut ny) = (0u32, 0u32);
        for d in &x { nx = nx << 8 | *d as u32; }
        for d in &y { ny = ny << 8 | *d as u32; }
        a %= &b;
        reach(1);
        if la >= lb {
            for k in (0..=la - lb).rev() {
                let d = nx.wrapping_sub(ny << k);
                nx = if nx >= ny << k { d } else { nx };
            }
        }
        same(&a, Num::le(&nx.to_le_bytes()), 10);
    }
    // wide remainders: fixed numbers of these bit lengths, but for w bits of the dividend
    h_big_remw(a, b, win, _d) {
        join(2);
        let (w, shift) = (win / 65536, (win % 65536) as usize);
        let x = any_u64();
        assume(x >> w == 0);
        let x = split(x);
        let m = wide::fixed(b, b + 7);
        let mut v = wide::fixed(a, 3 * a + shift as u64);
        v[shift / 64] ^= x << (shift % 64);
        let want = wide::be(&wide::rem(&v, &m));
        let mut r = BigUint::from_be_bytes(wide::be(&v));
        r %= &BigUint::from_be_bytes(wide::be(&m));
        full(&r, Num::be(&want), 91);
        reach(1);
    }
    // the same operations on numbers of many digits: w symbolic digits from `at` on
    h_bigw_info(len, at, w, _d) {
        join(2);
        let (len, at, w) = (len as usize, at as usize, w as usize);
        let v = wide_num(len, at, w);
        let b = BigUint::from_be_bytes(&v);
        let mut r = v.clone();
        r.reverse();
        reach(1);
        is_number(&b, &v, 10);
        is_number(&BigUint::from_le_bytes(&r), &v, 20);
        let mut z = vec![0; 3];
        z.extend(&v);
        is_number(&BigUint::from_be_bytes(&z), &v, 30);
        check(b.as_u128().is_err() == (len > 16), 40);
        // the symbolic bits, those around them, the ends and beyond
        for i in 0..8 * len + 20 {
            let near = i + 12 > 8 * (len - (at + w).min(len)) && i < 8 * (len - at) + 12;
            if near || i < 3 || i + 3 > 8 * len || i % (61 + len / 5) == 0 {
                let bit = i < 8 * len && v[len - 1 - i / 8] >> (i % 8) & 1 == 1;
                check(b.is_set(i as u32) == bit, 41);
                if i < 8 * len - 8 {
                    let mut c = b.clone();
                    c.update(i as u32, !bit);
                    let mut u = v.clone();
                    u[len - 1 - i / 8] ^= 1 << (i % 8);
                    check_eq(&c.to_be_bytes(), &u, 42);
                }
            }
        }
        check(!b.is_set(u32::MAX), 43);
    }
    // numbers that share the fixed digits: any order of the symbolic ones
    h_bigw_cmp(la, lb, at, w) {
        join(2);
        let (la, lb, at, w) = (la as usize, lb as usize, at as usize, w as usize);
        let (x, y) = (wide_num(la, at, w), wide_num(lb, at, w));
        let (a, b) = (BigUint::from_be_bytes(&x), BigUint::from_be_bytes(&y));
        let want = order(&x, &y);
        reach(1);
        check(a.cmp(&b) == want, 1);
        check((a == b) == (want == Ordering::Equal), 2);
        check((a <= b) == (want != Ordering::Greater), 5);
    }
    h_bigw_add(la, lb, at, w) {
        join(2);
        let (la, lb, at, w) = (la as usize, lb as usize, at as usize, w as usize);
        let (x, y) = (wide_num(la, at, w), wide_num(lb, at, w));
        let n = la.max(lb) + 1;
        let mut s = vec![0u8; n];
        let mut c = 0;
        for i in 0..n {
            let p = if i < la { x[la - 1 - i] } else { 0 };
            let q = if i < lb { y[lb - 1 - i] } else { 0 };
            let t = p as u32 + q as u32 + c;
            s[n - 1 - i] = t as u8;
            c = t >> 8;
        }
        let mut a = BigUint::from_be_bytes(&x);
        let b = BigUint::from_be_bytes(&y);
        a += &b;
        reach(1);
        is_number(&a, &s, 10);
        // and back
        a -= &b;
        is_number(&a, &x, 20);
        let mut e = BigUint::from_be_bytes(&s) - &a;
        is_number(&e, &y, 30);
        e += 255u8;
        e -= &BigUint::from(255);
        is_number(&e, &y, 40);
    }
    h_bigw_shift(la, k, at, w) {
        join(2);
        let (la, k, at, w) = (la as usize, k as usize, at as usize, w as usize);
        let x = wide_num(la, at, w);
        let n = la + k / 8 + 1;
        let mut s = vec![0u8; n];
        for i in 0..la {
            let t = (x[la - 1 - i] as u32) << (k % 8);
            s[n - 1 - i - k / 8] |= t as u8;
            s[n - 2 - i - k / 8] |= (t >> 8) as u8;
        }
        let mut a = BigUint::from_be_bytes(&x);
        a <<= k as u32;
        reach(1);
        is_number(&a, &s, 10);
        a >>= k as u32;
        is_number(&a, &x, 20);
        // a number that loses its last digits
        let mut d = vec![0u8; la];
        for i in k / 8..la {
            let hi = if i + 1 < la { x[la - 2 - i] } else { 0 };
            let t = (hi as u32) << 8 | x[la - 1 - i] as u32;
            d[la - 1 - (i - k / 8)] = (t >> (k % 8)) as u8;
        }
        a >>= k as u32;
        is_number(&a, &d, 30);
    }
}
