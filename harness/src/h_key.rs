//! loading RSA keys
use crate::spec::der::*;
use crate::sym::*;
use cryptography::pem::PEM;
use cryptography::rsa::{PrivateKey, PublicKey};

pub const RSA_OID: [u8; 9] = [42, 134, 72, 134, 247, 13, 1, 1, 1];
pub const PRIVATE: &str = "PRIVATE KEY";
pub const PUBLIC: &str = "PUBLIC KEY";

pub fn ints(v: &[&[u8]]) -> Vec<u8> {
    let mut b = vec![];
    for x in v {
        b.extend_from_slice(&der(2, x));
    }
    der(0x30, &b)
}
pub fn algorithm() -> Vec<u8> {
    let c = cat(&[&der(6, &RSA_OID), &der(5, &[])]);
    der(0x30, &c)
}
pub fn pkcs8(inner: &[u8]) -> Vec<u8> {
    let c = cat(&[&der(2, &[0]), &algorithm(), &der(4, inner)]);
    der(0x30, &c)
}
pub fn spki(inner: &[u8]) -> Vec<u8> {
    let bits = cat(&[&[0], inner]);
    let c = cat(&[&algorithm(), &der(3, &bits)]);
    der(0x30, &c)
}
pub fn load_private(data: Vec<u8>) -> Result<PrivateKey, String> {
    PrivateKey::try_from(PEM { label: PRIVATE.to_string(), data })
}
pub fn load_public(data: Vec<u8>) -> Result<PublicKey, String> {
    PublicKey::try_from(PEM { label: PUBLIC.to_string(), data })
}
/// the key with this modulus and exponent, from the plainest encoding
pub fn private_key(n: &[u8], d: &[u8]) -> PrivateKey {
    load_private(pkcs8(&ints(&[&[0], n, &[3], d, &[5], &[7], &[1], &[1], &[1]]))).unwrap()
}
pub fn public_key(n: &[u8], e: &[u8]) -> PublicKey {
    load_public(spki(&ints(&[n, e]))).unwrap()
}
/// without leading zeroes
fn stripped(v: &[u8]) -> &[u8] {
    let mut k = 0;
    while k < v.len() && split((v[k] == 0) as u64) == 1 {
        k += 1;
    }
    &v[k..]
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    split((d == 0) as u64) == 1
}
fn tags(ev: &[Ev], want: &[u8]) -> bool {
    ev.len() == want.len() && ev.iter().zip(want).all(|(e, &w)| e.tag == w)
}
fn at(buf: &[u8], e: Ev) -> Vec<u8> {
    buf[e.at..e.at + e.len].to_vec()
}
/// modulus and private exponent of a PKCS#8 RSA key
fn private_fields(buf: &mut [u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let ev = scan(buf)?;
    if !tags(&ev, &[0x30, 2, 0x30, 6, 5, 0, 4, 0]) {
        return None;
    }
    if !same_bytes(&at(buf, ev[1]), &[0]) || !same_bytes(&at(buf, ev[3]), &RSA_OID) {
        return None;
    }
    let inner = &mut buf[ev[6].at..ev[6].at + ev[6].len];
    let ev = scan(inner)?;
    if !tags(&ev, &[0x30, 2, 2, 2, 2, 2, 2, 2, 2, 2, 0]) || !same_bytes(&at(inner, ev[1]), &[0]) {
        return None;
    }
    Some((at(inner, ev[2]), at(inner, ev[4])))
}
/// modulus and public exponent of a SubjectPublicKeyInfo
fn public_fields(buf: &mut [u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let ev = scan(buf)?;
    if !tags(&ev, &[0x30, 0x30, 6, 5, 0, 3, 0]) || !same_bytes(&at(buf, ev[2]), &RSA_OID) {
        return None;
    }
    if !same_bytes(&buf[ev[5].at..ev[5].at + 1], &[0]) {
        return None;
    }
    let inner = &mut buf[ev[5].at + 1..ev[5].at + ev[5].len];
    let ev = scan(inner)?;
    if !tags(&ev, &[0x30, 2, 2, 0]) {
        return None;
    }
    Some((at(inner, ev[1]), at(inner, ev[2])))
}
fn decide_private(mut buf: Vec<u8>) {
    let want = private_fields(&mut buf);
    match (load_private(buf), want) {
        (Ok(k), Some((n, d))) => {
            let (n, d) = (stripped(&n), stripped(&d));
            check(k == private_key(n, d), 1);
            // and no other key
            let d2 = number(d.len(), 0);
            let n2 = number(n.len(), 0);
            check((k == private_key(n, &d2)) == same_bytes(d, &d2), 2);
            check((k == private_key(&n2, d)) == same_bytes(n, &n2), 3);
            reach(1);
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check(false, 4),
        (Err(_), Some(_)) => check(false, 5),
    }
}
fn decide_public(mut buf: Vec<u8>) {
    let want = public_fields(&mut buf);
    match (load_public(buf), want) {
        (Ok(k), Some((n, e))) => {
            let (n, e) = (stripped(&n), stripped(&e));
            check(k == public_key(n, e), 11);
            let e2 = number(e.len(), 0);
            let n2 = number(n.len(), 0);
            check((k == public_key(n, &e2)) == same_bytes(e, &e2), 12);
            check((k == public_key(&n2, e)) == same_bytes(n, &n2), 13);
            reach(1);
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check(false, 14),
        (Err(_), Some(_)) => check(false, 15),
    }
}
/// len bytes: z zeroes, then a non-zero one, then anything
fn number(len: usize, z: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    if z < len {
        any_fill(&mut v[z..]);
        assume(v[z] != 0);
    }
    v
}
fn encoded(public: bool, n: &[u8], d: &[u8], o: usize, tight: bool) -> Vec<u8> {
    if public {
        return spki(&ints(&[n, d]));
    }
    let x = || if tight { number(o, 0) } else { any_vec(o) };
    pkcs8(&ints(&[&[0], n, &x(), d, &x(), &x(), &x(), &x(), &x()]))
}
fn template(public: bool) -> Vec<u8> {
    if public {
        spki(&ints(&[&[0x0c, 0xa1], &[0x11]]))
    } else {
        pkcs8(&ints(&[&[0], &[0x0c, 0xa1], &[0x11], &[0x0a, 0xc1], &[61], &[53], &[53], &[49], &[38]]))
    }
}
fn decide(public: bool, buf: Vec<u8>) {
    if public { decide_public(buf) } else { decide_private(buf) }
}

crate::harnesses! {
    // every value of all integers: modulus of n bytes, exponent of d bytes, the others of o bytes
    h_key_values(public, n, d, o) {
        join(1);
        let (n, d, o) = (any_vec(n as usize), any_vec(d as usize), o as usize);
        decide(public != 0, encoded(public != 0, &n, &d, o, false));
    }
    // the same, the integers starting with exactly zn, zd and no zero bytes
    h_key_zeros(public, n, d, zeros) {
        join(1);
        let (zn, zd) = (zeros as usize / 256, zeros as usize % 256);
        let (n, d) = (number(n as usize, zn), number(d as usize, zd));
        decide(public != 0, encoded(public != 0, &n, &d, 3, true));
    }
    // a valid key with w arbitrary bytes at a position
    h_key_mut(public, pos, w, _d) {
        join(1);
        let mut b = template(public != 0);
        if pos as usize >= b.len() {
            return;
        }
        let end = (pos as usize + w as usize).min(b.len());
        any_fill(&mut b[pos as usize..end]);
        decide(public != 0, b);
    }
    // a valid key cut to len bytes, or followed by extra arbitrary ones
    h_key_cut(public, len, extra, _d) {
        join(1);
        let mut b = template(public != 0);
        b.truncate(len as usize);
        b.extend_from_slice(&any_vec(extra as usize));
        decide(public != 0, b);
    }
    // k integers inside; `outer`: 0 as it should be, 1 an element missing at the end, 2 one more, 3 algorithm
    // without parameters, 4 algorithm with another parameter, 5 another after the null
    h_key_count(public, k, outer, _d) {
        join(1);
        let mut v = vec![];
        for i in 0..k {
            v.extend_from_slice(&der(2, &if i == 0 && public == 0 { vec![0] } else { any_vec(1) }));
        }
        let inner = der(0x30, &v);
        let alg = match outer {
            3 => der(0x30, &der(6, &RSA_OID)),
            4 => der(0x30, &cat(&[&der(6, &RSA_OID), &der(4, &any_vec(1))])),
            5 => der(0x30, &cat(&[&der(6, &RSA_OID), &der(5, &[]), &der(5, &[])])),
            _ => algorithm(),
        };
        let key = if public != 0 { der(3, &cat(&[&[0], &inner])) } else { der(4, &inner) };
        let mut c = if public != 0 { alg } else { cat(&[&der(2, &[0]), &alg]) };
        if outer != 1 {
            c = cat(&[&c, &key]);
        }
        if outer == 2 {
            c = cat(&[&c, &der(5, &[])]);
        }
        decide(public != 0, der(0x30, &c));
    }
    // the algorithm: every object identifier of len bytes; the versions: every integer of vlen bytes
    h_key_oid(public, len, vlen, _d) {
        join(1);
        let alg = der(0x30, &cat(&[&der(6, &any_vec(len as usize)), &der(5, &[])]));
        let b = if public != 0 {
            cat(&[&alg, &der(3, &cat(&[&[0], &ints(&[&[0x0c, 0xa1], &[0x11]])]))])
        } else {
            let v = any_vec(vlen as usize);
            cat(&[&der(2, &v), &alg, &der(4, &ints(&[&any_vec(vlen as usize), &[0x0c, 0xa1], &[0x11], &[0x0a, 0xc1], &[61], &[53], &[53], &[49], &[38]]))])
        };
        decide(public != 0, der(0x30, &b));
    }
    // the label: len bytes of the right label repeated, all (pos = 99) or the one at pos arbitrary (ASCII)
    h_key_label(public, len, pos, _d) {
        join(1);
        let right = if public != 0 { PUBLIC.as_bytes() } else { PRIVATE.as_bytes() };
        let mut l: Vec<u8> = (0..len as usize).map(|i| right[i % right.len()]).collect();
        if pos == 99 {
            any_fill(&mut l);
        } else if (pos as usize) < l.len() {
            l[pos as usize] = any_u8();
        }
        for &b in &l {
            assume(b < 0x80);
        }
        let ok = same_bytes(&l, right);
        let label = unsafe { String::from_utf8_unchecked(l) };
        let data = template(public != 0);
        let got = if public != 0 {
            PublicKey::try_from(PEM { label, data }).is_ok()
        } else {
            PrivateKey::try_from(PEM { label, data }).is_ok()
        };
        check(got == ok, 21);
        if ok { reach(1) } else { reach(2) }
    }
}
