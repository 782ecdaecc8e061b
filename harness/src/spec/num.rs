//! Natural numbers as fixed-width little-endian byte arrays: school-book arithmetic.
pub const W: usize = 72;
#[derive(Clone, Copy)]
pub struct Num(pub [u8; W]);

impl Num {
    pub fn le(b: &[u8]) -> Num {
        let mut n = Num([0; W]);
        for i in 0..b.len() {
            n.0[i] = b[i];
        }
        n
    }
    pub fn be(b: &[u8]) -> Num {
        let mut n = Num([0; W]);
        for i in 0..b.len() {
            n.0[i] = b[b.len() - 1 - i];
        }
        n
    }
    pub fn add(self, o: Num) -> Num {
        let mut r = [0; W];
        let mut c = 0u32;
        for i in 0..W {
            let s = self.0[i] as u32 + o.0[i] as u32 + c;
            r[i] = s as u8;
            c = s >> 8;
        }
        Num(r)
    }
    /// self - o, for self >= o
    pub fn sub(self, o: Num) -> Num {
        let mut r = [0; W];
        let mut borrow = 0u32;
        for i in 0..W {
            let s = 256 + self.0[i] as u32 - o.0[i] as u32 - borrow;
            r[i] = s as u8;
            borrow = 1 - (s >> 8);
        }
        Num(r)
    }
    /// self >= o: the subtraction does not borrow at the end
    pub fn ge(self, o: Num) -> bool {
        let mut borrow = 0u32;
        for i in 0..W {
            let s = 256 + self.0[i] as u32 - o.0[i] as u32 - borrow;
            borrow = 1 - (s >> 8);
        }
        borrow == 0
    }
    pub fn bit(self, i: usize) -> u8 {
        if i / 8 >= W {
            0
        } else {
            self.0[i / 8] >> (i % 8) & 1
        }
    }
    /// k: concrete
    pub fn shl(self, k: usize) -> Num {
        let mut r = [0u8; W];
        for i in 0..8 * W {
            if i >= k {
                r[i / 8] |= self.bit(i - k) << (i % 8);
            }
        }
        Num(r)
    }
    pub fn shr(self, k: usize) -> Num {
        let mut r = [0u8; W];
        for i in 0..8 * W {
            if k < 8 * W && i + k < 8 * W {
                r[i / 8] |= self.bit(i + k) << (i % 8);
            }
        }
        Num(r)
    }
    pub fn is_zero(self) -> bool {
        let mut x = 0;
        for b in self.0 {
            x |= b;
        }
        x == 0
    }
    /// number of significant bits
    pub fn bits(self) -> u32 {
        let mut n = 0;
        for i in 0..W {
            let b = self.0[i];
            if b != 0 {
                n = 8 * i as u32 + 8 - b.leading_zeros();
            }
        }
        n
    }
}
