//! DER as the crate supports it: one element of the known types filling the whole input.
//! An element is a tag, a length (short form, or long form of 1 to 16 bytes, minimal or not) and that
//! many bytes of content; a bit string has at least the byte with its unused bits, a null has no
//! content, the content of a sequence is elements one after the other.
//!
//! `Scan` reads bytes that may be symbolic: every byte that decides the structure is split into the
//! values that are valid there (and written back as a constant) and one symbolic rest that is not.
use crate::sym::split;

#[derive(Clone, Copy)]
pub struct Ev {
    /// tag, or 0 for the end of a sequence
    pub tag: u8,
    pub at: usize,
    pub len: usize,
}

pub struct Scan<'a> {
    pub buf: &'a mut [u8],
    pub ev: Vec<Ev>,
}

pub const TAGS: [u8; 6] = [0x02, 0x03, 0x04, 0x05, 0x06, 0x30];

impl Scan<'_> {
    fn tag(&mut self, at: usize) -> Option<u8> {
        let t = self.buf[at];
        let known = (t == 2) | (t == 3) | (t == 4) | (t == 5) | (t == 6) | (t == 0x30);
        let c = split(if known { t as u64 } else { 256 });
        if c == 256 {
            return None;
        }
        self.buf[at] = c as u8;
        Some(c as u8)
    }
    /// (content start, content length)
    fn length(&mut self, at: usize, end: usize) -> Option<(usize, usize)> {
        if at >= end {
            return None;
        }
        let left = end - at - 1;
        let b = self.buf[at] as u64;
        let c = split(if b < 0x80 {
            if b <= left as u64 { b } else { 256 }
        } else if (0x81..=0x90).contains(&b) {
            if (b - 0x80) <= left as u64 { b } else { 257 }
        } else {
            258
        });
        if c >= 256 {
            return None;
        }
        self.buf[at] = c as u8;
        if c < 0x80 {
            return Some((at + 1, c as usize));
        }
        let k = (c - 0x80) as usize;
        let left = left - k;
        let mut v = 0u128;
        for i in 0..k {
            v = v << 8 | self.buf[at + 1 + i] as u128;
        }
        let l = split(if v <= left as u128 { v as u64 } else { u64::MAX });
        if l == u64::MAX {
            return None;
        }
        for i in 0..k {
            self.buf[at + 1 + i] = if k - 1 - i < 8 { (l >> (8 * (k - 1 - i))) as u8 } else { 0 };
        }
        Some((at + 1 + k, l as usize))
    }
    /// the element at `at`; where it ends
    pub fn element(&mut self, at: usize, end: usize) -> Option<usize> {
        if at >= end {
            return None;
        }
        let tag = self.tag(at)?;
        let (start, len) = self.length(at + 1, end)?;
        self.ev.push(Ev { tag, at: start, len });
        match tag {
            3 if len == 0 => return None,
            5 if len != 0 => return None,
            0x30 => {
                let mut p = start;
                while p < start + len {
                    p = self.element(p, start + len)?;
                }
                self.ev.push(Ev { tag: 0, at: p, len: 0 });
            }
            _ => {}
        }
        Some(start + len)
    }
    pub fn whole(&mut self) -> bool {
        let n = self.buf.len();
        self.element(0, n) == Some(n)
    }
}
pub fn scan(buf: &mut [u8]) -> Option<Vec<Ev>> {
    let mut s = Scan { buf, ev: Vec::with_capacity(64) };
    if s.whole() { Some(s.ev) } else { None }
}
/// an element with this content; `k` bytes of long-form length, or 0 for the short form
pub fn tlv(tag: u8, k: usize, content: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(content.len() + 2 + k);
    v.push(tag);
    let l = content.len() as u64;
    if k == 0 {
        v.push(l as u8);
    } else {
        v.push(0x80 | k as u8);
        for i in (0..k).rev() {
            v.push(if i < 8 { (l >> (8 * i)) as u8 } else { 0 });
        }
    }
    v.extend_from_slice(content);
    v
}
/// bytes the minimal DER length takes after the first
pub fn minimal(len: usize) -> usize {
    if len < 128 {
        0
    } else {
        let mut k = 1;
        while len >> (8 * k) != 0 {
            k += 1;
        }
        k
    }
}
pub fn der(tag: u8, content: &[u8]) -> Vec<u8> {
    tlv(tag, minimal(content.len()), content)
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::with_capacity(parts.iter().map(|p| p.len()).sum());
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
