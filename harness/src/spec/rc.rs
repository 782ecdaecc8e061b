//! RFC 2268 (RC2), RC4, and Rivest's RC5-32
use super::tables::*;

pub struct Rc2([u16; 64]);
impl Rc2 {
    #[inline(never)]
    pub fn new(key: &[u8], bits: usize) -> Rc2 {
        let t = key.len();
        let t8 = (bits + 7) / 8;
        let tm = (255u32 % (1u32 << (8 + bits as u32 - 8 * t8 as u32))) as u8;
        let mut l = [0u8; 128];
        for i in 0..128 {
            l[i] = if i < t { key[i] } else { RC2_PI[l[i - 1].wrapping_add(l[i - t]) as usize] };
        }
        l[128 - t8] = RC2_PI[(l[128 - t8] & tm) as usize];
        let mut i = 128 - t8;
        while i > 0 {
            i -= 1;
            l[i] = RC2_PI[(l[i + 1] ^ l[i + t8]) as usize];
        }
        let mut k = [0u16; 64];
        for i in 0..64 {
            k[i] = l[2 * i] as u16 + 256 * l[2 * i + 1] as u16;
        }
        Rc2(k)
    }
    #[inline(never)]
    pub fn encrypt(&self, b: [u8; 8]) -> [u8; 8] {
        let k = &self.0;
        let mut r = [0u16; 4];
        for i in 0..4 {
            r[i] = b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8;
        }
        let mut j = 0;
        let mixes = [5, 6, 5];
        for phase in 0..3 {
            for _ in 0..mixes[phase] {
                for i in 0..4 {
                    let (p, q, u) = (r[(i + 3) % 4], r[(i + 2) % 4], r[(i + 1) % 4]);
                    let s = [1u32, 2, 3, 5][i];
                    r[i] = r[i].wrapping_add(k[j]).wrapping_add(p & q).wrapping_add(!p & u);
                    r[i] = (r[i] << s) | (r[i] >> (16 - s));
                    j += 1;
                }
            }
            if phase < 2 {
                for i in 0..4 {
                    r[i] = r[i].wrapping_add(k[(r[(i + 3) % 4] & 63) as usize]);
                }
            }
        }
        let mut o = [0u8; 8];
        for i in 0..4 {
            o[2 * i] = r[i] as u8;
            o[2 * i + 1] = (r[i] >> 8) as u8;
        }
        o
    }
    #[inline(never)]
    pub fn decrypt(&self, b: [u8; 8]) -> [u8; 8] {
        let k = &self.0;
        let mut r = [0u16; 4];
        for i in 0..4 {
            r[i] = b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8;
        }
        let mut j = 64;
        let mixes = [5, 6, 5];
        for phase in 0..3 {
            for _ in 0..mixes[phase] {
                for i in (0..4).rev() {
                    j -= 1;
                    let (p, q, u) = (r[(i + 3) % 4], r[(i + 2) % 4], r[(i + 1) % 4]);
                    let s = [1u32, 2, 3, 5][i];
                    r[i] = (r[i] >> s) | (r[i] << (16 - s));
                    r[i] = r[i].wrapping_sub(k[j]).wrapping_sub(p & q).wrapping_sub(!p & u);
                }
            }
            if phase < 2 {
                for i in (0..4).rev() {
                    r[i] = r[i].wrapping_sub(k[(r[(i + 3) % 4] & 63) as usize]);
                }
            }
        }
        let mut o = [0u8; 8];
        for i in 0..4 {
            o[2 * i] = r[i] as u8;
            o[2 * i + 1] = (r[i] >> 8) as u8;
        }
        o
    }
}

#[inline(never)]
pub fn rc4(key: &[u8], n: usize) -> Vec<u8> {
    let mut s = [0u8; 256];
    for i in 0..256 {
        s[i] = i as u8;
    }
    let mut j = 0u8;
    for i in 0..256 {
        j = j.wrapping_add(s[i]).wrapping_add(key[i % key.len()]);
        let t = s[i];
        s[i] = s[j as usize];
        s[j as usize] = t;
    }
    let mut o = Vec::with_capacity(n);
    let (mut i, mut j) = (0u8, 0u8);
    for _ in 0..n {
        i = i.wrapping_add(1);
        j = j.wrapping_add(s[i as usize]);
        let t = s[i as usize];
        s[i as usize] = s[j as usize];
        s[j as usize] = t;
        o.push(s[s[i as usize].wrapping_add(s[j as usize]) as usize]);
    }
    o
}

pub struct Rc5 {
    s: Vec<u32>,
    r: usize,
}
impl Rc5 {
    #[inline(never)]
    pub fn new(key: &[u8], r: usize) -> Rc5 {
        let b = key.len();
        let c = if b == 0 { 1 } else { (b + 3) / 4 };
        let mut l = vec![0u32; c];
        let mut i = b;
        while i > 0 {
            i -= 1;
            l[i / 4] = (l[i / 4] << 8).wrapping_add(key[i] as u32);
        }
        let t = 2 * (r + 1);
        let mut s = vec![0u32; t];
        s[0] = 0xb7e15163;
        for i in 1..t {
            s[i] = s[i - 1].wrapping_add(0x9e3779b9);
        }
        let (mut a, mut b, mut i, mut j) = (0u32, 0u32, 0, 0);
        let n = if t > c { t } else { c };
        for _ in 0..3 * n {
            s[i] = s[i].wrapping_add(a).wrapping_add(b).rotate_left(3);
            a = s[i];
            let ab = a.wrapping_add(b);
            l[j] = l[j].wrapping_add(a).wrapping_add(b).rotate_left(ab & 31);
            b = l[j];
            i += 1;
            if i == t {
                i = 0;
            }
            j += 1;
            if j == c {
                j = 0;
            }
        }
        Rc5 { s, r }
    }
    #[inline(never)]
    pub fn encrypt(&self, blk: [u8; 8]) -> [u8; 8] {
        let mut a = u32::from_le_bytes([blk[0], blk[1], blk[2], blk[3]]).wrapping_add(self.s[0]);
        let mut b = u32::from_le_bytes([blk[4], blk[5], blk[6], blk[7]]).wrapping_add(self.s[1]);
        for i in 1..=self.r {
            a = (a ^ b).rotate_left(b & 31).wrapping_add(self.s[2 * i]);
            b = (b ^ a).rotate_left(a & 31).wrapping_add(self.s[2 * i + 1]);
        }
        let mut o = [0u8; 8];
        o[..4].copy_from_slice(&a.to_le_bytes());
        o[4..].copy_from_slice(&b.to_le_bytes());
        o
    }
    #[inline(never)]
    pub fn decrypt(&self, blk: [u8; 8]) -> [u8; 8] {
        let mut a = u32::from_le_bytes([blk[0], blk[1], blk[2], blk[3]]);
        let mut b = u32::from_le_bytes([blk[4], blk[5], blk[6], blk[7]]);
        for i in (1..=self.r).rev() {
            b = b.wrapping_sub(self.s[2 * i + 1]).rotate_right(a & 31) ^ a;
            a = a.wrapping_sub(self.s[2 * i]).rotate_right(b & 31) ^ b;
        }
        let mut o = [0u8; 8];
        o[..4].copy_from_slice(&a.wrapping_sub(self.s[0]).to_le_bytes());
        o[4..].copy_from_slice(&b.wrapping_sub(self.s[1]).to_le_bytes());
        o
    }
}
