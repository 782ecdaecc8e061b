//! hash value conversions, padding, block encryption, stream cipher

use crate::sym::*;
use cryptography as c;
use cryptography::pad::{BitPadding, PkcsPadding};
use cryptography::sha::*;
use cryptography::{BlockCipher, BlockCipherMode, BlockEncryption, EcbMode, StreamCipher};
use hex::FromHex;
use std::cell::RefCell;

fn be(words: &[u64], size: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for w in words {
        for k in (0..size).rev() {
            o.push((w >> (8 * k)) as u8);
        }
    }
    o
}

macro_rules! words {
    ($w:ty, $n:expr, $h:ty, $sz:expr) => {{
        let mut ws = [0 as $w; $n];
        for x in ws.iter_mut() {
            *x = any_u64() as $w;
        }
        let want = be(&ws.map(|x| x as u64), $sz);
        let h: $h = ws.into();
        let h2 = h.clone();
        reach(1);
        check(h == h2, 5);
        let bytes: [u8; $n * $sz] = h.clone().into();
        check_eq(&bytes, &want, 1);
        let back: [$w; $n] = h.into();
        check_eq(&be(&back.map(|x| x as u64), $sz), &want, 2);
        // equality is equality of the values
        let mut ws2 = ws;
        let i = concretize((any_u8() as usize % $n) as u64) as usize;
        ws2[i] = any_u64() as $w;
        let g: $h = ws2.into();
        check((g == h2) == (ws2[i] == ws[i]), 3);
    }};
}

fn digit(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

fn hex_parse<const N: usize, H: FromHex + Into<[u8; N]>>(len: usize, at: usize, nsym: usize) {
    let mut s: Vec<u8> = (0..len).map(|i| b"0123456789abcdefABCDEF"[(i * 7 + 3) % 22]).collect();
    let end = (at + nsym).min(len);
    if at < end {
        any_fill(&mut s[at..end]);
    }
    let mut ok = len == 2 * N;
    let mut want = [0u8; N];
    for i in 0..len {
        let d = digit(s[i]);
        ok = ok & d.is_some();
        if i < 2 * N {
            want[i / 2] = want[i / 2] << 4 | d.unwrap_or(0);
        }
    }
    let got = H::from_hex(&s);
    match got {
        Ok(h) => {
            reach(1);
            check(ok, 1);
            let b: [u8; N] = h.into();
            check_eq(&b, &want, 2);
        }
        Err(_) => {
            reach(2);
            check(!ok, 3);
        }
    }
}

fn pkcs_pad<const N: usize>(len: usize) {
    let data = any_vec(len);
    if len >= N {
        panic_ok(true);
        reach(1);
        let _ = PkcsPadding::<N>.pad(&data);
        check(false, 9);
        return;
    }
    let b = PkcsPadding::<N>.pad(&data);
    reach(1);
    let mut want = [(N - len) as u8; N];
    for i in 0..len {
        want[i] = data[i];
    }
    check_eq(&b, &want, 1);
    check(PkcsPadding::<N>.unpad(b) == len, 2);
}

/// last: the final byte if below 256, else symbolic
fn pkcs_unpad<const N: usize>(last: u64) {
    let mut b: [u8; N] = any();
    if last < 256 {
        b[N - 1] = last as u8;
    }
    let n = b[N - 1] as usize;
    let mut ok = n >= 1 && n <= N;
    for i in 0..N {
        // byte i is one of the last n
        ok &= !(N - i <= n) || b[i] as usize == n;
    }
    reach(3);
    if ok {
        reach(1);
        check(PkcsPadding::<N>.unpad(b) == N - n, 1);
    } else {
        reach(2);
        panic_ok(true);
        let _ = PkcsPadding::<N>.unpad(b);
        check(false, 2);
    }
}

fn bit_pad<const N: usize>(len: usize) {
    let data = any_vec(len);
    if len >= N {
        panic_ok(true);
        reach(1);
        let _ = BitPadding::<N>.pad(&data);
        check(false, 9);
        return;
    }
    let b = BitPadding::<N>.pad(&data);
    reach(1);
    let mut want = [0u8; N];
    for i in 0..len {
        want[i] = data[i];
    }
    let clean = want;
    want[len] = 0x80;
    check_eq(&b, &want, 1);
    let (u, l) = BitPadding::<N>.unpad(b);
    check(l == len, 2);
    check_eq(&u, &clean, 3);
}

/// the bytes from position `zero` on are zero, the others symbolic; the last of these not zero unless zero == N
fn bit_unpad<const N: usize>(zero: usize) {
    let mut b: [u8; N] = any();
    for i in zero..N {
        b[i] = 0;
    }
    if zero > 0 && zero < N {
        assume(b[zero - 1] != 0);
    }
    reach(3);
    let mut pos = N; // of the marker, if the tail is well formed
    let mut clean = b;
    let mut open = true; // only zeroes so far, from the end
    for i in (0..N).rev() {
        if open && b[i] == 0x80 {
            pos = i;
        }
        if open {
            clean[i] = 0;
        }
        open &= b[i] == 0;
    }
    if pos < N {
        reach(1);
        let (u, l) = BitPadding::<N>.unpad(b);
        check(l == pos, 1);
        check_eq(&u, &clean, 2);
    } else {
        reach(2);
        panic_ok(true);
        let _ = BitPadding::<N>.unpad(b);
        check(false, 3);
    }
}

macro_rules! by_size {
    ($n:expr, $f:ident $args:tt, $($k:literal)*) => {
        match $n {
            $($k => $f::<$k> $args,)*
            _ => {}
        }
    };
}

// A cipher about which nothing is known: every call returns fresh arbitrary bytes and is recorded.
struct Log<const N: usize> {
    ins: RefCell<Vec<[u8; N]>>,
    outs: RefCell<Vec<[u8; N]>>,
    dirs: RefCell<Vec<u8>>,
}
impl<const N: usize> Log<N> {
    fn new() -> Self {
        Log { ins: RefCell::new(vec![]), outs: RefCell::new(vec![]), dirs: RefCell::new(vec![]) }
    }
    fn call(&self, b: [u8; N], dir: u8) -> [u8; N] {
        let o: [u8; N] = any();
        self.ins.borrow_mut().push(b);
        self.outs.borrow_mut().push(o);
        self.dirs.borrow_mut().push(dir);
        o
    }
}
struct AnyMode<'a, const N: usize>(&'a Log<N>, u64);
struct AnyCipher<'a, const N: usize>(&'a Log<N>);
impl<'a, const N: usize> BlockCipher<N> for AnyCipher<'a, N> {
    fn encrypt(&self, b: [u8; N]) -> [u8; N] {
        self.0.call(b, 1)
    }
    fn decrypt(&self, b: [u8; N]) -> [u8; N] {
        self.0.call(b, 2)
    }
}
impl<'a, const N: usize> BlockCipherMode<N> for AnyMode<'a, N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, _c: &C, b: [u8; N]) -> [u8; N] {
        self.1 += 1;
        check(self.1 == self.0.ins.borrow().len() as u64 + 1, 20); // one mode instance, every call
        self.0.call(b, 3)
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, _c: &C, b: [u8; N]) -> [u8; N] {
        self.1 += 1;
        check(self.1 == self.0.ins.borrow().len() as u64 + 1, 20);
        self.0.call(b, 4)
    }
}

fn block_enc<const N: usize>(len: usize, ecb: bool) {
    let msg = any_vec(len);
    let log = Log::<N>::new();
    let mut got = Vec::new();
    if ecb {
        BlockEncryption::encrypt(AnyCipher(&log), EcbMode::<N>, &msg, |b| got.push(b));
    } else {
        let unused = Log::<N>::new();
        BlockEncryption::encrypt(AnyCipher(&unused), AnyMode(&log, 0), &msg, |b| got.push(b));
    }
    reach(1);
    let nb = len / N + 1;
    let mut padded = msg.clone();
    while padded.len() < nb * N {
        padded.push((nb * N - len) as u8);
    }
    let ins: Vec<u8> = log.ins.borrow().iter().flatten().cloned().collect();
    let outs: Vec<u8> = log.outs.borrow().iter().flatten().cloned().collect();
    check(log.dirs.borrow().iter().all(|d| *d == if ecb { 1 } else { 3 }), 4);
    check_eq(&ins, &padded, 1);
    check_eq(&got, &outs, 2);
}

fn block_dec<const N: usize>(len: usize, ecb: bool, lastb: u64) {
    let ct = any_vec(len);
    let log = Log::<N>::new();
    let mut got = Vec::new();
    let whole = len > 0 && len % N == 0;
    panic_ok(true);
    if !whole {
        reach(1);
        if ecb {
            BlockEncryption::decrypt(AnyCipher(&log), EcbMode::<N>, &ct, |b| got.push(b));
        } else {
            let unused = Log::<N>::new();
            BlockEncryption::decrypt(AnyCipher(&unused), AnyMode(&log, 0), &ct, |b| got.push(b));
        }
        check(false, 9);
        return;
    }
    let want_calls = len / N;
    // the last block the mode hands out decides: fixed beforehand
    let mut fixed = Fixed::<N>::new(want_calls);
    if lastb < 256 {
        fixed.outs[want_calls - 1][N - 1] = lastb as u8;
    }
    let last = fixed.outs[want_calls - 1];
    let n = last[N - 1] as usize;
    let mut ok = n >= 1 && n <= N;
    for i in 0..N {
        ok &= !(N - i <= n) || last[i] as usize == n;
    }
    panic_ok(!ok);
    let used = RefCell::new(Vec::new());
    if ecb {
        BlockEncryption::decrypt(FixedCipher(&fixed, &used), EcbMode::<N>, &ct, |b| got.push(b));
    } else {
        let unused = Log::<N>::new();
        BlockEncryption::decrypt(AnyCipher(&unused), FixedMode(&fixed, &used, 0), &ct, |b| got.push(b));
    }
    panic_ok(false);
    reach(1);
    check(ok, 3);
    let ins: Vec<u8> = used.borrow().iter().flatten().cloned().collect();
    check_eq(&ins, &ct, 1);
    let all: Vec<u8> = fixed.outs.iter().flatten().cloned().collect();
    check(got.len() + n == all.len(), 4);
    let k = concretize(got.len() as u64) as usize;
    check_eq(&got, &all[..k], 2);
}

struct Fixed<const N: usize> {
    outs: Vec<[u8; N]>,
}
impl<const N: usize> Fixed<N> {
    fn new(n: usize) -> Self {
        Fixed { outs: (0..n).map(|_| any()).collect() }
    }
}
struct FixedCipher<'a, const N: usize>(&'a Fixed<N>, &'a RefCell<Vec<[u8; N]>>);
impl<'a, const N: usize> BlockCipher<N> for FixedCipher<'a, N> {
    fn encrypt(&self, _b: [u8; N]) -> [u8; N] {
        check(false, 21);
        [0; N]
    }
    fn decrypt(&self, b: [u8; N]) -> [u8; N] {
        let i = self.1.borrow().len();
        self.1.borrow_mut().push(b);
        check(i < self.0.outs.len(), 22);
        self.0.outs[i]
    }
}
struct FixedMode<'a, const N: usize>(&'a Fixed<N>, &'a RefCell<Vec<[u8; N]>>, usize);
impl<'a, const N: usize> BlockCipherMode<N> for FixedMode<'a, N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, _c: &C, _b: [u8; N]) -> [u8; N] {
        check(false, 21);
        [0; N]
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, _c: &C, b: [u8; N]) -> [u8; N] {
        let i = self.1.borrow().len();
        check(i == self.2, 20);
        self.2 += 1;
        self.1.borrow_mut().push(b);
        check(i < self.0.outs.len(), 22);
        self.0.outs[i]
    }
}

/// cipher block chaining over a keyed byte permutation: an ordinary mode, for the round trip
struct Cbc<const N: usize>([u8; N]);
struct Toy<const N: usize>([u8; N]);
impl<const N: usize> BlockCipher<N> for Toy<N> {
    fn encrypt(&self, b: [u8; N]) -> [u8; N] {
        let mut o = [0; N];
        for i in 0..N {
            o[(i + 1) % N] = b[i].wrapping_add(self.0[i]).rotate_left(3);
        }
        o
    }
    fn decrypt(&self, b: [u8; N]) -> [u8; N] {
        let mut o = [0; N];
        for i in 0..N {
            o[i] = b[(i + 1) % N].rotate_right(3).wrapping_sub(self.0[i]);
        }
        o
    }
}
impl<const N: usize> BlockCipherMode<N> for Cbc<N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, c: &C, mut b: [u8; N]) -> [u8; N] {
        for i in 0..N {
            b[i] ^= self.0[i];
        }
        self.0 = c.encrypt(b);
        self.0
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: [u8; N]) -> [u8; N] {
        let mut o = c.decrypt(b);
        for i in 0..N {
            o[i] ^= self.0[i];
        }
        self.0 = b;
        o
    }
}
fn block_rt<const N: usize>(len: usize) {
    let msg = any_vec(len);
    let key: [u8; N] = any();
    let iv: [u8; N] = any();
    let mut ct = Vec::new();
    BlockEncryption::encrypt(Toy(key), Cbc(iv), &msg, |b| ct.push(b));
    check(ct.len() == (len / N + 1) * N, 1);
    let mut pt = Vec::new();
    BlockEncryption::decrypt(Toy(key), Cbc(iv), &ct, |b| pt.push(b));
    reach(1);
    check_eq(&pt, &msg, 2);
}

harnesses! {
    h_hv_words(bits, _b, _c, _d) {
        match bits {
            160 => words!(u32, 5, Hash160, 4),
            224 => words!(u32, 7, Hash224, 4),
            256 => words!(u32, 8, Hash256, 4),
            384 => words!(u64, 6, Hash384, 8),
            512 => words!(u64, 8, Hash512, 8),
            _ => {}
        }
    }
    h_hv_hex(n, len, at, nsym) {
        let (len, at, nsym) = (len as usize, at as usize, nsym as usize);
        match n {
            20 => hex_parse::<20, Hash160>(len, at, nsym),
            28 => hex_parse::<28, Hash224>(len, at, nsym),
            32 => hex_parse::<32, Hash256>(len, at, nsym),
            48 => hex_parse::<48, Hash384>(len, at, nsym),
            64 => hex_parse::<64, Hash512>(len, at, nsym),
            _ => {}
        }
    }
    h_pkcs_pad(n, len, _c, _d) {
        by_size!(n, pkcs_pad(len as usize), 1 2 3 4 5 7 8 9 12 15 16 17 24 31 32 33 48 63 64 65 100 127 128 129 200 254 255);
    }
    h_pkcs_unpad(n, b, _c, _d) {
        by_size!(n, pkcs_unpad(b), 1 2 3 4 5 7 8 9 12 15 16 17 24 31 32 33 48 63 64 65 100 127 128 129 200 254 255);
    }
    h_bit_pad(n, len, _c, _d) {
        by_size!(n, bit_pad(len as usize), 1 2 3 4 5 7 8 9 12 15 16 17 24 31 32 33 48 63 64 65 100 127 128 129 200 254 255 256 257 300 512);
    }
    h_bit_unpad(n, b, _c, _d) {
        by_size!(n, bit_unpad(b as usize), 1 2 3 4 5 7 8 9 12 15 16 17 24 31 32 33 48 63 64 65 100 127 128 129 200 254 255 256 257 300 512);
    }
    h_block_enc(n, len, ecb, _d) {
        by_size!(n, block_enc(len as usize, ecb != 0), 1 2 3 4 5 8 16 24 32 64 128 255);
    }
    h_block_dec(n, len, ecb, last) {
        by_size!(n, block_dec(len as usize, ecb != 0, last), 1 2 3 4 5 8 16 24 32 64 128 255);
    }
    h_block_rt(n, len, _c, _d) {
        by_size!(n, block_rt(len as usize), 1 2 3 4 5 8 16 24 32 64 128 255);
    }
    // data in three calls of lengths a, b, c over one key stream; the second call is only drawn to b-d bytes
    h_stream(a, b, e, d) {
        let total = (a + b + e) as usize;
        let keys = any_vec(total + 3);
        let data = any_vec(total);
        let (a, b, d) = (a as usize, b as usize, d as usize);
        let mut s = StreamCipher::new(keys.clone());
        let mut got: Vec<u8> = s.encrypt(data[..a].to_vec()).collect();
        got.extend(s.encrypt(data[a..a + b].to_vec()).take(b - d));
        got.extend(s.encrypt(data[a + b - d..].to_vec()));
        reach(1);
        let mut want = Vec::new();
        for i in 0..total {
            want.push(data[i] ^ keys[i]);
        }
        check_eq(&got, &want, 1);
        let mut s = StreamCipher::new(keys.clone());
        let back: Vec<u8> = s.encrypt(got).collect();
        check_eq(&back, &data, 2);
        // nothing beyond was consumed
        let rest: Vec<u8> = s.encrypt([0u8, 0, 0]).collect();
        check_eq(&rest, &keys[total..], 3);
    }
    // one byte at a time, interleaved with an empty call, over an endless stream given as an iterator
    h_stream_bytes(n, _b, _c, _d) {
        let keys = any_vec(n as usize);
        let data = any_vec(n as usize);
        let mut s = StreamCipher::new(keys.iter().cloned().chain(std::iter::repeat(7)));
        reach(1);
        for i in 0..n as usize {
            let none: Vec<u8> = s.encrypt(std::iter::empty()).collect();
            check(none.is_empty(), 1);
            let mut it = s.encrypt(std::iter::once(data[i]));
            let x = it.next();
            check(x == Some(data[i] ^ keys[i]), 2);
            check(it.next().is_none(), 3);
        }
        let mut it = s.encrypt(vec![1, 2, 3]);
        check(it.size_hint() == (3, Some(3)) || it.size_hint().0 <= 3, 4);
        check(it.next() == Some(1 ^ 7), 5);
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = c::md5(&[]);
}
