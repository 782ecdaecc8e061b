//! DER
use crate::spec::der::*;
use crate::sym::*;
use cryptography::pem::asn1::Asn1;

fn leaf(got: &[u8], want: &[u8], id: u32) {
    check_eq(got, want, id);
}
/// the tree is the one the events describe; returns the event after it
fn walk(t: &Asn1, ev: &[Ev], i: usize, buf: &[u8]) -> usize {
    let e = ev[i];
    let c = &buf[e.at..e.at + e.len];
    match t {
        Asn1::Integer(v) => {
            check(e.tag == 2, 10);
            leaf(v, c, 11);
        }
        Asn1::BitString(v, unused) => {
            check(e.tag == 3, 12);
            check(*unused == c[0], 13);
            leaf(v, &c[1..], 14);
        }
        Asn1::OctetString(v) => {
            check(e.tag == 4, 15);
            leaf(v, c, 16);
        }
        Asn1::Null => check(e.tag == 5, 17),
        Asn1::ObjectIdentifier(v) => {
            check(e.tag == 6, 18);
            leaf(v, c, 19);
        }
        Asn1::Sequence(els) => {
            check(e.tag == 0x30, 20);
            let mut j = i + 1;
            for el in els.iter() {
                check(ev[j].tag != 0, 21);
                if ev[j].tag == 0 {
                    return j + 1;
                }
                j = walk(el, ev, j, buf);
            }
            check(ev[j].tag == 0, 22);
            return j + 1;
        }
    }
    i + 1
}
fn decide(buf: &mut [u8]) {
    let want = scan(buf);
    let got = Asn1::try_from(&*buf);
    match (&got, &want) {
        (Ok(t), Some(ev)) => {
            walk(t, ev, 0, buf);
            reach(1);
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check(false, 1),
        (Err(_), Some(_)) => check(false, 2),
    }
}

crate::harnesses! {
    // every byte string of n bytes
    h_der(n, _b, _c, _d) {
        join(1);
        let mut b = any_vec(n as usize);
        decide(&mut b);
    }
    // one element of len bytes of content, its length in k bytes (0: short form); cut or followed by delta bytes
    h_der_long(k, len, cut, _d) {
        join(1);
        let tag = TAGS[split(any_u8() as u64 % 5) as usize];
        let content: Vec<u8> = if tag == 5 { vec![] } else { any_vec(len as usize) };
        let mut b = tlv(tag, k as usize, &content);
        if cut == 1 {
            b.pop();
        } else if cut == 2 {
            b.push(any_u8());
        }
        decide(&mut b);
    }
    // the length bytes themselves symbolic, k of them, with `len` bytes of content there
    h_der_len(k, len, _c, _d) {
        join(1);
        let content = any_vec(len as usize);
        let mut b = tlv(4, k as usize, &content);
        let at = if k == 0 { 1 } else { 2 };
        let n = if k == 0 { 1 } else { k as usize };
        any_fill(&mut b[at..at + n]);
        decide(&mut b);
    }
    // a sequence nested to the given depth around n symbolic bytes, the lengths in k bytes
    h_der_nest(depth, n, k, _d) {
        join(1);
        let mut b = any_vec(n as usize);
        for _ in 0..depth {
            b = tlv(0x30, k as usize, &b);
        }
        decide(&mut b);
    }
    // a sequence of m octet strings of len bytes, then n symbolic bytes
    h_der_seq(m, len, n, _d) {
        join(1);
        let mut b = vec![];
        for _ in 0..m {
            let c = any_vec(len as usize);
            b.extend_from_slice(&der(4, &c));
        }
        b.extend_from_slice(&any_vec(n as usize));
        let mut b = der(0x30, &b);
        decide(&mut b);
    }
}
