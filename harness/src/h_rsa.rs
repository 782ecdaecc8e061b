//! RSA
use crate::h_key::*;
use crate::spec::num::Num;
use crate::spec::wide;
use crate::sym::*;
use cryptography::big::BigUint;
use cryptography::rsa::*;

fn be(v: u64) -> Vec<u8> {
    let mut b = v.to_be_bytes().to_vec();
    while b.len() > 0 && b[0] == 0 {
        b.remove(0);
    }
    b
}
/// m^e mod n by the definition: e products, each reduced
fn power(m: u64, e: u64, n: u64) -> u64 {
    let mut r = 1 % n;
    for _ in 0..e {
        r = r * (m % n) % n;
    }
    r
}

fn gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
fn lcm(a: u64, b: u64) -> u64 {
    a / gcd(a, b) * b
}
fn wide_gcd(mut x: u128, mut y: u128) -> u128 {
    while y != 0 {
        (x, y) = (y, x % y);
    }
    x
}
fn wide_lcm(a: u128, b: u128) -> u128 {
    a / wide_gcd(a, b) * b
}
/// a * b + c, exactly: (what exceeds 64 bits, the lower 64 bits)
fn product(a: u128, b: u64, c: u64) -> (u128, u64) {
    let low = (a as u64) as u128 * b as u128 + c as u128;
    ((a >> 64) * b as u128 + (low >> 64), low as u64)
}
fn trim(mut b: Vec<u8>) -> Vec<u8> {
    while b.len() > 0 && b[0] == 0 {
        b.remove(0);
    }
    b
}
fn big(v: u64) -> BigUint {
    BigUint::from_be_bytes(v.to_be_bytes())
}
/// bytes of n
fn length(n: u64) -> usize {
    be(n).len()
}
/// a padding scheme that turns one message into one block and back, and checks what it is given
struct Fixed<'a> {
    message: &'a [u8],
    block: &'a [u8],
    calls: std::cell::Cell<u32>,
}
impl PaddingScheme for &Fixed<'_> {
    fn encode(&self, label: &[u8], message: &[u8], n_len: usize) -> Vec<u8> {
        check(label.is_empty(), 31);
        check(n_len == self.block.len(), 32);
        check_eq(message, self.message, 33);
        self.calls.set(self.calls.get() + 1);
        self.block.to_vec()
    }
    fn decode(&self, label: &[u8], encoded: &[u8], n_len: usize) -> Result<Vec<u8>, &'static str> {
        check(label.is_empty(), 34);
        check(n_len == self.block.len(), 35);
        check_eq(encoded, self.block, 36);
        self.calls.set(self.calls.get() + 1);
        Ok(self.message.to_vec())
    }
}

crate::harnesses! {
    // key creation: primes concrete, every exponent of up to `bits` bits
    h_rsa_keys(p, q, bits, base) {
        join(1);
        let x = any_u64();
        assume(x >> bits == 0);
        let e = base + x;
        let l = lcm(p - 1, q - 1);
        // the inverse, by the definition
        let mut d = 0;
        for i in 0..l {
            d = if (e % l) * i % l == 1 % l { i } else { d };
        }
        let ok = (e % l) * d % l == 1 % l;
        panic_ok(!ok);
        let (private, public) = create_keys(big(p), big(q), big(e));
        panic_ok(false);
        check(ok, 21);
        check(private == private_key(&be(p * q), &d.to_be_bytes()), 22);
        check(public == public_key(&be(p * q), &e.to_be_bytes()), 23);
        reach(1);
    }
    // key creation with bigger primes: every invertible exponent of up to `bits` bits from `base` on; d is whatever
    // number below l satisfies e * d == k * l + 1 for some k
    h_rsa_inv(p, q, bits, base) {
        join(1);
        let (by, bits) = (bits / 256, bits % 256);
        let x = any_u64();
        assume(x >> bits == 0);
        let x = if by > 0 { split(x) } else { x };
        let e = base + x;
        let l = wide_lcm(p as u128 - 1, q as u128 - 1);
        let d = if by == 2 {
            // one exponent at a time (e below l): k counted up until e divides k * l + 1
            assume(wide_gcd(e as u128, l) == 1);
            let (mut r, mut k) = (1 % e, 0);
            while r != 0 {
                r = (r + (l % e as u128) as u64) % e;
                k += 1;
            }
            let (hi, lo) = product(l, k, 1);
            let (q, r) = (hi / e as u128, hi % e as u128);
            (q << 64) + ((r << 64) + lo as u128) / e as u128
        } else {
            let d = any_u128();
            let k = any_u64();
            assume(d < l);
            assume(k < e);
            assume(product(d, e, 0) == product(l, k, 1));
            d
        };
        let n = p as u128 * q as u128;
        let (private, public) = create_keys(big(p), big(q), big(e));
        check(private == private_key(&trim(n.to_be_bytes().to_vec()), &d.to_be_bytes()), 25);
        check(public == public_key(&trim(n.to_be_bytes().to_vec()), &e.to_be_bytes()), 26);
        reach(1);
    }
    // an exponent that shares the factor g with lcm(p - 1, q - 1) is refused
    h_rsa_noinv(p, q, g, bits) {
        join(1);
        let x = any_u64();
        assume(x >> bits == 0);
        panic_ok(true);
        create_keys(big(p), big(q), big(g * x));
        check(false, 27);
    }
    // keys of concrete primes and exponent undo each other: every message of w bits from base on below the modulus
    h_rsa_pair(pq, e, base, order) {
        join(2);
        let (p, q) = (pq / 65536, pq % 65536);
        let (w, base) = (base / 65536, base % 65536);
        let m = any_u64();
        assume(m >> w == 0);
        let m = m + base;
        assume(m < p * q);
        let (private, public) = create_keys(big(p), big(q), big(e));
        let (private, public) = (RsaEncryption::from(private), RsaEncryption::from(public));
        let r = if order == 0 { private.decrypt(public.encrypt(big(m))) } else { public.encrypt(private.decrypt(big(m))) };
        crate::h_big::same(&r, Num::be(&m.to_be_bytes()), 24);
        reach(1);
    }
    // messages: modulus n, exponents e and d, padded blocks from base on with w symbolic bits
    h_rsa_message(n, ed, base, mw) {
        join(2);
        let (e, d) = (ed / 65536, ed % 65536);
        let (mlen, w) = (mw as usize / 256, mw % 256);
        let x = any_u64();
        assume(x >> w == 0);
        let len = length(n);
        let m = base + x;
        assume(m < n && m >> (8 * (len - 1)) == 0);
        let full = m.to_be_bytes();
        let block = &full[8 - len..];
        let message = any_vec(mlen);
        let pad = Fixed { message: &message, block, calls: std::cell::Cell::new(0) };
        let public = RsaEncryption::from(public_key(&be(n), &be(e)));
        let private = RsaEncryption::from(private_key(&be(n), &be(d)));
        let c = public.encrypt_message(&message, &pad);
        check(pad.calls.get() == 1, 41);
        check(c.len() == len, 42);
        let got = private.decrypt_message(&c, &pad);
        check(pad.calls.get() == 2, 43);
        check_eq(&got, &message, 44);
        reach(1);
    }
    // encryption alone: the ciphertext is the power, as long as the modulus
    h_rsa_cipher(n, e, base, mw) {
        join(2);
        let (mlen, w) = (mw as usize / 256, mw % 256);
        let x = any_u64();
        assume(x >> w == 0);
        let len = length(n);
        let m = base + x;
        assume(m < n && m >> (8 * (len - 1)) == 0);
        let full = m.to_be_bytes();
        let message = any_vec(mlen);
        let pad = Fixed { message: &message, block: &full[8 - len..], calls: std::cell::Cell::new(0) };
        let public = RsaEncryption::from(public_key(&be(n), &be(e)));
        let c = public.encrypt_message(&message, &pad);
        check(pad.calls.get() == 1, 45);
        let want = power(m, e, n).to_be_bytes();
        check_eq(&c, &want[8 - len..], 46);
        reach(1);
    }
    // decryption alone: any ciphertext of clen bytes with w symbolic bits
    h_rsa_plain(n, d, base, cw) {
        join(2);
        let (clen, w) = (cw as usize / 256, cw % 256);
        let x = any_u64();
        assume(x >> w == 0);
        let len = length(n);
        let c = base + x;
        let m = power(c, d, n).to_be_bytes();
        let message = any_vec(3);
        let pad = Fixed { message: &message, block: &m[8 - len..], calls: std::cell::Cell::new(0) };
        let private = RsaEncryption::from(private_key(&be(n), &be(d)));
        let full = c.to_be_bytes();
        let got = private.decrypt_message(&full[8 - clen..], &pad);
        check(pad.calls.get() == 1, 47);
        check_eq(&got, &message, 48);
        reach(1);
    }
    // modulus and exponent concrete, every message of `bits` bits
    h_rsa_msg(n, e, bits, private) {
        join(2);
        let m = any_u64();
        assume(m >> bits == 0);
        let want = power(m, e, n);
        let k = if private == 1 {
            RsaEncryption::from(private_key(&be(n), &be(e)))
        } else {
            RsaEncryption::from(public_key(&be(n), &be(e)))
        };
        let b = BigUint::from_be_bytes(m.to_be_bytes());
        let c = if private == 1 { k.decrypt(b) } else { k.encrypt(b) };
        crate::h_big::same(&c, Num::be(&want.to_be_bytes()), 1);
        reach(1);
    }
    // modulus, exponent and message concrete but for w bits of the message at `shift`
    h_rsa_win(n, e, base, win) {
        join(2);
        let (w, shift) = (win / 256, win % 256);
        let x = any_u64();
        assume(x >> w == 0);
        let m = base ^ x << shift;
        let want = power(m, e, n);
        let k = RsaEncryption::from(public_key(&be(n), &be(e)));
        let c = k.encrypt(BigUint::from_be_bytes(m.to_be_bytes()));
        crate::h_big::same(&c, Num::be(&want.to_be_bytes()), 1);
        reach(1);
    }
    // message and modulus concrete, every exponent of up to `bits` bits
    h_rsa_exp(m, n, bits, _d) {
        join(2);
        let e = any_u64();
        assume(e >> bits == 0);
        let mut want = 1 % n;
        let mut p = 1 % n;
        for i in 1..1u64 << bits {
            p = p * (m % n) % n;
            want = if e == i { p } else { want };
        }
        let k = RsaEncryption::from(private_key(&be(n), &e.to_be_bytes()));
        let c = k.decrypt(BigUint::from_be_bytes(be(m)));
        crate::h_big::same(&c, Num::be(&want.to_be_bytes()), 1);
        reach(1);
    }
    // exponent and message concrete, every modulus of exactly `bits` bits
    h_rsa_mod(m, e, bits, _d) {
        join(2);
        let n = any_u64();
        assume(n >> (bits - 1) == 1 && n > 1);
        let want = power(m, e, n);
        let k = RsaEncryption::from(public_key(&n.to_be_bytes(), &be(e)));
        let c = k.encrypt(BigUint::from_be_bytes(be(m)));
        crate::h_big::same(&c, Num::be(&want.to_be_bytes()), 1);
        reach(1);
    }
    // wide numbers: modulus, exponent and message fixed numbers of these bit lengths, but for w bits of the message
    h_rsa_wide(nbits, ebits, mbits, win) {
        join(2);
        let (w, shift) = (win / 65536, (win % 65536) as usize);
        let n = wide::fixed(nbits, nbits);
        // an exponent below 2^16 is itself; 65536 + k stands for a fixed number of k bits
        let mut e = wide::fixed(ebits % 65536, ebits);
        if ebits < 65536 {
            e = [0; wide::L];
            e[0] = ebits;
        }
        let x = any_u64();
        assume(x >> w == 0);
        let x = split(x);
        let mut m = wide::fixed(mbits, 3 * mbits + shift as u64);
        m[shift / 64] ^= x << (shift % 64);
        let want = wide::be(&wide::pow_mod(&m, &e, &n));
        let k = RsaEncryption::from(private_key(&trim(wide::be(&n)), &trim(wide::be(&e))));
        let c = k.decrypt(BigUint::from_be_bytes(wide::be(&m)));
        crate::h_big::same(&c, Num::be(&want), 1);
        reach(1);
    }
    // messages under wide keys, in both directions: the block (ciphertext) is a fixed number of mbits bits but for w bits
    h_rsa_wmsg(nbits, ebits, mbits, win) {
        join(2);
        let (w, shift) = (win / 65536, (win % 65536) as usize);
        let n = wide::fixed(nbits, nbits);
        let mut e = wide::fixed(ebits % 65536, ebits);
        if ebits < 65536 {
            e = [0; wide::L];
            e[0] = ebits;
        }
        let x = any_u64();
        assume(x >> w == 0);
        let x = split(x);
        let mut m = wide::fixed(mbits, 3 * mbits + shift as u64);
        m[shift / 64] ^= x << (shift % 64);
        let len = (nbits as usize + 7) / 8;
        let (mb, rb) = (wide::be(&m), wide::be(&wide::pow_mod(&m, &e, &n)));
        let (mb, rb) = (&mb[mb.len() - len..], &rb[rb.len() - len..]);
        let (nb, eb) = (trim(wide::be(&n)), trim(wide::be(&e)));
        let message = any_vec(5);
        let pad = Fixed { message: &message, block: mb, calls: std::cell::Cell::new(0) };
        let c = RsaEncryption::from(public_key(&nb, &eb)).encrypt_message(&message, &pad);
        check(pad.calls.get() == 1, 51);
        check_eq(&c, rb, 52);
        let pad = Fixed { message: &message, block: rb, calls: std::cell::Cell::new(0) };
        let got = RsaEncryption::from(private_key(&nb, &eb)).decrypt_message(mb, &pad);
        check(pad.calls.get() == 1, 53);
        check_eq(&got, &message, 54);
        reach(1);
    }
}
