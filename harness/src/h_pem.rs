//! PEM texts
use crate::spec::pem;
use crate::sym::*;
use cryptography::pem::PEM;
use std::fmt::Write;

fn ascii(v: &[u8]) {
    for &b in v {
        assume(b < 0x80);
    }
}
fn text_of(p: &PEM) -> String {
    let mut s = String::with_capacity(64);
    check(write!(s, "{}", p).is_ok(), 1);
    s
}
fn decide(text: Vec<u8>) {
    let want = pem::read(&text);
    let s = unsafe { String::from_utf8_unchecked(text) };
    match (s.parse::<PEM>(), want) {
        (Ok(p), Some((label, data))) => {
            check_eq(p.label.as_bytes(), &label, 11);
            check_eq(&p.data, &data, 12);
            reach(1);
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check(false, 13),
        (Err(_), Some(_)) => check(false, 14),
    }
}
const T: [&str; 12] = [
    "-----BEGIN A-----\nQUJD\n-----END A-----",
    "x\n-----BEGIN AB C-----\nQUJD\nREU=\n-----END AB C-----\ny\n",
    "-----BEGIN A-----\r\n QUI=\t\r\n-----END A-----\r\n",
    "-----BEGIN A-----\n-----END A-----",
    "-----BEGIN A-----\nQQ==\n-----END B-----",
    "-----BEGIN A-----\n-----BEGIN A-----\nQQ==\n-----END A-----",
    "-----BEGIN A-----\nQQ==\n-----END A-----\n-----END A-----",
    "-----END A-----\n-----BEGIN A-----\nQQ==\n-----END A-----",
    "-----BEGIN A-----\nQQ==\n",
    "QQ==\n-----END A-----",
    "-----BEGIN A----\nQQ==\n-----END A-----",
    "-----BEGIN -----\nQQ\n==\n\n-----END -----\nQQ",
];

crate::harnesses! {
    // write: label of l symbolic bytes, data of n symbolic bytes
    h_pem_write(l, n, _c, _d) {
        join(0);
        let (label, data) = (any_vec(l as usize), any_vec(n as usize));
        ascii(&label);
        for &b in &label {
            assume(b != b'\n');
        }
        let want = pem::write(&label, &data);
        let p = PEM { label: unsafe { String::from_utf8_unchecked(label) }, data };
        let s = text_of(&p);
        if n == 0 && s.len() == want.len() + 1 {
            // an empty line in an empty block
            let mut w = want.clone();
            w.insert("-----BEGIN -----\n".len() + l as usize, b'\n');
            check_eq(s.as_bytes(), &w, 2);
        } else {
            check_eq(s.as_bytes(), &want, 2);
        }
        reach(1);
    }
    // write, then read
    h_pem_rt(l, n, wide, _d) {
        join(1);
        let (mut label, data) = (any_vec(l as usize), any_vec(n as usize));
        ascii(&label);
        for _ in 0..wide {
            // a character of two bytes
            let c = any::<2>();
            assume(c[0] >= 0xc2 && c[0] <= 0xdf && c[1] >= 0x80 && c[1] <= 0xbf);
            label.extend_from_slice(&c);
        }
        for &b in &label {
            assume(b != b'\n');
        }
        let p = PEM { label: unsafe { String::from_utf8_unchecked(label.clone()) }, data: data.clone() };
        let s = text_of(&p);
        match s.parse::<PEM>() {
            Ok(q) => {
                check_eq(q.label.as_bytes(), &label, 3);
                check_eq(&q.data, &data, 4);
            }
            Err(_) => check(false, 5),
        }
        reach(1);
    }
    // a text with w arbitrary ASCII bytes in place of (ins = 0) or before (ins = 1) the ones at pos
    h_pem_text(t, pos, w, ins) {
        join(1);
        let base = T[t as usize].as_bytes();
        let (pos, w) = (pos as usize, w as usize);
        if pos > base.len() {
            return;
        }
        let x = any_vec(w);
        ascii(&x);
        let mut text = base[..pos].to_vec();
        text.extend_from_slice(&x);
        let rest = if ins == 1 { pos } else { (pos + w).min(base.len()) };
        text.extend_from_slice(&base[rest..]);
        decide(text);
    }
    // n arbitrary ASCII characters between the lines (plain: none of them white space or a dash)
    h_pem_body(n, plain, _c, _d) {
        join(1);
        let x = any_vec(n as usize);
        ascii(&x);
        if plain == 1 {
            for &b in &x {
                assume(b > 32 && b != b'-');
            }
        }
        let mut text = b"-----BEGIN A-----\n".to_vec();
        text.extend_from_slice(&x);
        text.extend_from_slice(b"\n-----END A-----\n");
        decide(text);
    }
    // any n ASCII characters
    h_pem_any(n, _b, _c, _d) {
        join(1);
        let x = any_vec(n as usize);
        ascii(&x);
        decide(x);
    }
}
