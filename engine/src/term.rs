//! Hash-consed bit-vector terms with simplifying constructors.
//! Widths are 1..=128 bits (wider intermediate values are rejected).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const,
    Var,
    Lin,
    Xor,
    And,
    Or,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Rotl,
    Concat,
    Extract,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    Lookup,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub aux: u32,
    pub args: Box<[T]>,
    pub cs: Box<[u128]>,
}

pub struct Node {
    pub k: std::rc::Rc<Key>,
    pub k0: u128, // known zero bits
    pub k1: u128, // known one bits
    pub lo: u128,
    pub hi: u128,
    pub slo: i128,
    pub shi: i128,
    pub leaves: u16, // number of leaves if this is an ite tree over constants (1 = const), 0 = not
}

pub struct Terms {
    pub n: Vec<Node>,
    map: FxMap<std::rc::Rc<Key>, T>,
    pub tables: Vec<std::rc::Rc<[T]>>,
    table_map: FxMap<std::rc::Rc<[T]>, u32>,
    pub table_const: Vec<bool>,
    dist_memo: FxMap<(u32, u32, u128), T>,
    pub nvars: u32,
    pub max_leaves: u16,
    eqk: FxMap<(T, T), u128>, // (result of eq(x, k), x) -> k
    pub lin_ors: FxSet<T>, // Or nodes that were used as a summand
    bf: FxMap<T, (Box<[T]>, u32)>, // bitwise function of at most five terms: sorted leaves, truth table
    bf_map: FxMap<(u16, Box<[T]>, u32), T>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Terms {
    pub fn new() -> Self {
        Terms {
            n: Vec::new(),
            map: FxMap::default(),
            tables: Vec::new(),
            table_map: FxMap::default(),
            table_const: Vec::new(),
            dist_memo: FxMap::default(),
            nvars: 0,
            max_leaves: 600,
            eqk: FxMap::default(),
            lin_ors: FxSet::default(),
            bf: FxMap::default(),
            bf_map: FxMap::default(),
        }
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 {
        self.n[t as usize].k.w
    }
    #[inline]
    pub fn op(&self, t: T) -> Op {
        self.n[t as usize].k.op
    }
    #[inline]
    pub fn key(&self, t: T) -> std::rc::Rc<Key> {
        self.n[t as usize].k.clone()
    }
    #[inline]
    pub fn as_const(&self, t: T) -> Option<u128> {
        let k = &self.n[t as usize].k;
        if k.op == Op::Const {
            Some(k.cs[0])
        } else {
            None
        }
    }
    pub fn is_true(&self, t: T) -> bool {
        self.as_const(t) == Some(1)
    }
    pub fn is_false(&self, t: T) -> bool {
        self.as_const(t) == Some(0)
    }
    pub fn is_constite(&self, t: T) -> bool {
        self.n[t as usize].leaves > 0
    }

    pub fn children<'a>(&self, t: T, out: &mut Vec<T>) {
        let k = &self.n[t as usize].k;
        out.extend_from_slice(&k.args);
        if k.op == Op::Lookup && !self.table_const[k.aux as usize] {
            out.extend_from_slice(&self.tables[k.aux as usize]);
        }
    }

    fn raw(&mut self, op: Op, w: u16, aux: u32, args: Vec<T>, cs: Vec<u128>) -> T {
        assert!(w >= 1 && w <= 128, "unsupported width {w}");
        let key = Key { op, w, aux, args: args.into_boxed_slice(), cs: cs.into_boxed_slice() };
        if let Some(&t) = self.map.get(&key) {
            return t;
        }
        let m = mask(w);
        let smin = sext(1u128 << (w - 1), w);
        let smax = (m >> 1) as i128;
        let (mut k0, mut k1, mut lo, mut hi) = (0u128, 0u128, 0u128, m);
        let (mut slo, mut shi) = (smin, smax);
        let mut leaves = 0u16;
        macro_rules! nd {
            ($t:expr) => {
                &self.n[$t as usize]
            };
        }
        let a = &key.args;
        match op {
            Op::Const => {
                let c = key.cs[0];
                k0 = !c & m;
                k1 = c;
                lo = c;
                hi = c;
                slo = sext(c, w);
                shi = slo;
                leaves = 1;
            }
            Op::Var => {}
            Op::Lin => {
                // unsigned range when no wrap
                let mut l = Some(key.cs[0]);
                let mut h = Some(key.cs[0]);
                let mut sl = Some(sext(key.cs[0], w));
                let mut sh = sl;
                let mut tz = if key.cs[0] == 0 { 128 } else { key.cs[0].trailing_zeros() };
                for (i, &x) in a.iter().enumerate() {
                    let c = key.cs[i + 1];
                    let n = nd!(x);
                    l = l.and_then(|v| n.lo.checked_mul(c).and_then(|p| v.checked_add(p)));
                    h = h.and_then(|v| n.hi.checked_mul(c).and_then(|p| v.checked_add(p)));
                    let sc = sext(c, w);
                    let p1 = n.slo.checked_mul(sc);
                    let p2 = n.shi.checked_mul(sc);
                    if let (Some(p1), Some(p2)) = (p1, p2) {
                        sl = sl.and_then(|v| v.checked_add(p1.min(p2)));
                        sh = sh.and_then(|v| v.checked_add(p1.max(p2)));
                    } else {
                        sl = None;
                    }
                    let t0 = (!n.k0).trailing_zeros() + c.trailing_zeros();
                    tz = tz.min(t0);
                }
                if let (Some(l), Some(h)) = (l, h) {
                    if h <= m {
                        lo = l;
                        hi = h;
                    }
                }
                if let (Some(l), Some(h)) = (sl, sh) {
                    if l >= smin && h <= smax {
                        slo = l;
                        shi = h;
                    }
                }
                if tz > 0 {
                    k0 |= mask(tz.min(w as u32) as u16) & m;
                }
            }
            Op::Xor => {
                let c = key.cs[0];
                k0 = !c & m;
                k1 = c;
                for &x in a.iter() {
                    let n = nd!(x);
                    let (a0, a1) = (k0, k1);
                    k0 = (a0 & n.k0) | (a1 & n.k1);
                    k1 = (a0 & n.k1) | (a1 & n.k0);
                }
            }
            Op::And => {
                let c = key.cs[0];
                k0 = !c & m;
                k1 = c;
                for &x in a.iter() {
                    let n = nd!(x);
                    k0 |= n.k0;
                    k1 &= n.k1;
                    hi = hi.min(n.hi);
                }
                hi = hi.min(c);
            }
            Op::Or => {
                let c = key.cs[0];
                k0 = !c & m;
                k1 = c;
                for &x in a.iter() {
                    let n = nd!(x);
                    k0 &= n.k0;
                    k1 |= n.k1;
                    lo = lo.max(n.lo);
                }
                lo = lo.max(c);
            }
            Op::Mul => {
                let (x, y) = (nd!(a[0]), nd!(a[1]));
                if let Some(h) = x.hi.checked_mul(y.hi) {
                    if h <= m {
                        hi = h;
                        lo = x.lo * y.lo;
                    }
                }
                let ps: Vec<Option<i128>> = [(x.slo, y.slo), (x.slo, y.shi), (x.shi, y.slo), (x.shi, y.shi)]
                    .iter()
                    .map(|(p, q)| p.checked_mul(*q))
                    .collect();
                if ps.iter().all(|p| p.is_some()) {
                    let l = ps.iter().map(|p| p.unwrap()).min().unwrap();
                    let h = ps.iter().map(|p| p.unwrap()).max().unwrap();
                    if l >= smin && h <= smax {
                        slo = l;
                        shi = h;
                    }
                }
                let tz = (!x.k0).trailing_zeros() + (!y.k0).trailing_zeros();
                if tz > 0 {
                    k0 |= mask(tz.min(w as u32) as u16) & m;
                }
            }
            Op::UDiv => {
                let (x, y) = (nd!(a[0]), nd!(a[1]));
                // division by zero gives all ones in SMT-LIB
                if y.lo > 0 {
                    hi = x.hi / y.lo;
                    lo = x.lo / y.hi;
                }
            }
            Op::URem => {
                let (x, y) = (nd!(a[0]), nd!(a[1]));
                hi = x.hi;
                if y.lo > 0 {
                    hi = hi.min(y.hi - 1);
                }
            }
            Op::SDiv | Op::SRem => {}
            Op::Shl => {}
            Op::LShr => {
                hi = nd!(a[0]).hi;
            }
            Op::AShr => {}
            Op::Rotl => {}
            Op::Concat => {
                let mut pos = w;
                let (mut l, mut h) = (0u128, 0u128);
                for &x in a.iter() {
                    let n = nd!(x);
                    pos -= n.k.w;
                    k0 |= n.k0 << pos;
                    k1 |= n.k1 << pos;
                    l |= n.lo << pos;
                    h |= n.hi << pos;
                }
                lo = l;
                hi = h;
                if key.cs.len() > 0 {
                    unreachable!()
                }
            }
            Op::Extract => {
                let n = nd!(a[0]);
                let s = key.aux;
                k0 = (n.k0 >> s) & m;
                k1 = (n.k1 >> s) & m;
                if (n.hi >> s) <= m {
                    hi = n.hi >> s;
                    lo = n.lo >> s;
                }
            }
            Op::SExt => {
                let n = nd!(a[0]);
                let nw = n.k.w;
                k0 = n.k0;
                k1 = n.k1;
                let top = m & !mask(nw);
                if n.k0 >> (nw - 1) & 1 == 1 {
                    k0 |= top;
                }
                if n.k1 >> (nw - 1) & 1 == 1 {
                    k1 |= top;
                }
                slo = n.slo;
                shi = n.shi;
            }
            Op::Ite => {
                let (x, y) = (nd!(a[1]), nd!(a[2]));
                k0 = x.k0 & y.k0;
                k1 = x.k1 & y.k1;
                lo = x.lo.min(y.lo);
                hi = x.hi.max(y.hi);
                slo = x.slo.min(y.slo);
                shi = x.shi.max(y.shi);
                if x.leaves > 0 && y.leaves > 0 {
                    let l = x.leaves as u32 + y.leaves as u32;
                    if l <= self.max_leaves as u32 {
                        leaves = l as u16;
                    }
                }
            }
            Op::Eq | Op::Ult | Op::Slt => {}
            Op::Lookup => {
                let tab = self.tables[key.aux as usize].clone();
                k0 = m;
                k1 = m;
                lo = m;
                hi = 0;
                for &e in tab.iter() {
                    let n = nd!(e);
                    k0 &= n.k0;
                    k1 &= n.k1;
                    lo = lo.min(n.lo);
                    hi = hi.max(n.hi);
                }
            }
        }
        // combine known bits and ranges
        lo = lo.max(k1);
        hi = hi.min(!k0 & m);
        // common prefix of lo/hi gives known bits
        let diff = lo ^ hi;
        if lo <= hi {
            let nb = 128 - diff.leading_zeros(); // differing low bits
            let pm = if nb >= 128 { 0 } else { !mask(nb as u16) & m };
            if nb == 0 || nb < 128 {
                let pm = if nb == 0 { m } else { pm };
                k1 |= lo & pm;
                k0 |= !lo & pm;
            }
        }
        // signed from unsigned
        if hi <= smax as u128 {
            slo = slo.max(lo as i128);
            shi = shi.min(hi as i128);
        }
        if slo >= 0 && shi <= smax {
            let (l2, h2) = (slo as u128, shi as u128);
            lo = lo.max(l2);
            hi = hi.min(h2);
        }
        let rc = std::rc::Rc::new(key);
        let t = self.n.len() as T;
        self.n.push(Node { k: rc.clone(), k0, k1, lo, hi, slo, shi, leaves });
        // fully known?
        if op != Op::Const && (k0 | k1) & m == m {
            let c = self.c(w, k1);
            self.map.insert(rc, c);
            return c;
        }
        self.map.insert(rc, t);
        t
    }

    pub fn c(&mut self, w: u16, v: u128) -> T {
        self.raw(Op::Const, w, 0, vec![], vec![v & mask(w)])
    }
    pub fn bool(&mut self, b: bool) -> T {
        self.c(1, b as u128)
    }
    pub fn var(&mut self, idx: u32, w: u16) -> T {
        if idx >= self.nvars {
            self.nvars = idx + 1;
        }
        self.raw(Op::Var, w, idx, vec![], vec![])
    }

    // ---- constant-leaf ite distribution -----------------------------------------
    /// applies f to every constant leaf of an ite tree
    pub fn map_leaves(&mut self, t: T, f: &mut dyn FnMut(&mut Terms, u128) -> T) -> T {
        let mut memo: FxMap<T, T> = FxMap::default();
        self.map_leaves_rec(t, f, &mut memo)
    }
    fn map_leaves_rec(&mut self, t: T, f: &mut dyn FnMut(&mut Terms, u128) -> T, memo: &mut FxMap<T, T>) -> T {
        if let Some(c) = self.as_const(t) {
            return f(self, c);
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let k = self.key(t);
        debug_assert!(k.op == Op::Ite);
        let a = self.map_leaves_rec(k.args[1], f, memo);
        let b = self.map_leaves_rec(k.args[2], f, memo);
        let r = self.ite(k.args[0], a, b);
        memo.insert(t, r);
        r
    }
    fn dist(&mut self, tag: u32, aux: u128, t: T, f: &mut dyn FnMut(&mut Terms, u128) -> T) -> T {
        let kk = (tag, t, aux);
        if let Some(&r) = self.dist_memo.get(&kk) {
            return r;
        }
        let r = self.map_leaves(t, f);
        self.dist_memo.insert(kk, r);
        r
    }
    fn ci(&self, t: T) -> bool {
        let l = self.n[t as usize].leaves;
        l > 1
    }
    pub fn leaves_of(&self, t: T, out: &mut Vec<u128>) {
        // distinct leaves
        let mut seen = FxSet::default();
        let mut st = vec![t];
        let mut vals: FxSet<u128> = FxSet::default();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Some(c) = self.as_const(x) {
                if vals.insert(c) {
                    out.push(c);
                }
            } else {
                let k = &self.n[x as usize].k;
                st.push(k.args[1]);
                st.push(k.args[2]);
            }
        }
    }

    // ---- arithmetic ---------------------------------------------------------------
    fn lin_parts(&self, t: T, coef: u128, acc: &mut Vec<(T, u128)>, c0: &mut u128, m: u128) {
        let k = &self.n[t as usize].k;
        match k.op {
            Op::Const => *c0 = c0.wrapping_add(coef.wrapping_mul(k.cs[0])) & m,
            Op::Lin => {
                *c0 = c0.wrapping_add(coef.wrapping_mul(k.cs[0])) & m;
                for (i, &a) in k.args.iter().enumerate() {
                    acc.push((a, coef.wrapping_mul(k.cs[i + 1]) & m));
                }
            }
            Op::Or if k.args.iter().all(|&a| k.cs[0] & !self.n[a as usize].k0 == 0) && k.args.len() <= 4 && self.complement_disjoint(&k.args) => {
                *c0 = c0.wrapping_add(coef.wrapping_mul(k.cs[0])) & m;
                for &a in k.args.iter() {
                    acc.push((a, coef & m));
                }
            }
            _ => acc.push((t, coef & m)),
        }
    }
    /// pairwise disjoint because one conjunction contains the complement of a conjunct of the other
    fn complement_disjoint(&self, ts: &[T]) -> bool {
        let base = |x: T| -> (Vec<T>, u128) {
            let k = &self.n[x as usize].k;
            if k.op == Op::Xor { (k.args.to_vec(), k.cs[0]) } else { (vec![x], 0) }
        };
        let conj = |x: T| -> Vec<T> {
            let k = &self.n[x as usize].k;
            if k.op == Op::And { k.args.to_vec() } else { vec![x] }
        };
        for i in 0..ts.len() {
            for j in 0..i {
                let m = mask(self.w(ts[i]));
                let mut ok = !self.n[ts[i] as usize].k0 & !self.n[ts[j] as usize].k0 & m == 0;
                if ok {
                    continue;
                }
                for a in conj(ts[i]) {
                    let (ba, ca) = base(a);
                    for b in conj(ts[j]) {
                        let (bb, cb) = base(b);
                        if ca ^ cb == m && ba == bb {
                            ok = true;
                        }
                    }
                }
                if !ok {
                    return false;
                }
            }
        }
        true
    }
    pub fn lin(&mut self, w: u16, c0: u128, parts: &[(T, u128)]) -> T {
        let m = mask(w);
        let mut c = c0 & m;
        let mut acc = Vec::with_capacity(parts.len() + 2);
        for &(t, k) in parts {
            debug_assert_eq!(self.w(t), w);
            if self.op(t) == Op::Or {
                self.lin_ors.insert(t);
            }
            self.lin_parts(t, k, &mut acc, &mut c, m);
        }
        for e in acc.iter_mut() {
            let (mut t, k) = *e;
            if self.op(t) == Op::Or && w > 1 && self.n[t as usize].k.cs[0] != 0 {
                // x | c = (x & ~c) + c
                let kk = self.key(t);
                let x = self.or(&kk.args, 0);
                t = self.and(&[x], !kk.cs[0] & m);
                c = c.wrapping_add(k.wrapping_mul(kk.cs[0])) & m;
                e.0 = t;
            }
            if self.op(t) == Op::Concat {
                // constant pieces join the constant
                let kk = self.key(t);
                let (mut v, mut pos, mut cc) = (Vec::with_capacity(kk.args.len()), w, 0u128);
                for &p in kk.args.iter() {
                    let pw = self.w(p);
                    pos -= pw;
                    match self.as_const(p) {
                        Some(x) => {
                            cc |= x << pos;
                            v.push(self.c(pw, 0));
                        }
                        None => v.push(p),
                    }
                }
                if cc != 0 {
                    c = c.wrapping_add(k.wrapping_mul(cc)) & m;
                    t = self.concat(&v);
                    e.0 = t;
                }
            }
        }
        acc.sort_unstable_by_key(|x| x.0);
        let mut out: Vec<(T, u128)> = Vec::with_capacity(acc.len());
        for (t, k) in acc {
            if let Some(l) = out.last_mut() {
                if l.0 == t {
                    l.1 = l.1.wrapping_add(k) & m;
                    continue;
                }
            }
            out.push((t, k));
        }
        out.retain(|x| x.1 != 0);
        if out.is_empty() {
            return self.c(w, c);
        }
        // (x & c1) + (~x & c2) is their Or
        let masked: Vec<usize> = (0..out.len())
            .filter(|&i| {
                let k = &self.n[out[i].0 as usize].k;
                k.op == Op::And && k.args.len() == 1
            })
            .collect();
        for (n, &i) in masked.iter().enumerate() {
            for &j in &masked[..n] {
                if out[i].1 != out[j].1 {
                    continue;
                }
                let (x, y) = (self.n[out[i].0 as usize].k.args[0], self.n[out[j].0 as usize].k.args[0]);
                let nx = self.not(x);
                if nx == y {
                    let o = self.or(&[out[i].0, out[j].0], 0);
                    if self.op(o) != Op::Or {
                        out[i].0 = o;
                        out.remove(j);
                        return self.lin(w, c, &out);
                    }
                }
            }
        }
        if out.len() == 1 {
            if out[0].1 == 1 && c == 0 {
                return out[0].0;
            }
            if w == 1 {
                return self.xor(&[out[0].0], c);
            }
            let (t, k) = out[0];
            if self.ci(t) {
                return self.map_leaves(t, &mut |s, v| s.c(w, v.wrapping_mul(k).wrapping_add(c)));
            }
            // ~x = -1 - x
            if k == m && c == m {
                return self.xor(&[t], m);
            }
        }
        if w == 1 {
            let v: Vec<T> = out.iter().map(|x| x.0).collect();
            return self.xor(&v, c);
        }
        if out.iter().all(|x| x.1 == 1) {
            // disjoint bits: an Or (concatenation)
            let mut used = c;
            let mut ok = true;
            for &(t, _) in &out {
                let p = !self.n[t as usize].k0 & m;
                if used & p != 0 {
                    ok = false;
                    break;
                }
                used |= p;
            }
            if ok {
                let v: Vec<T> = out.iter().map(|x| x.0).collect();
                if let Some(t) = self.try_disjoint(w, c, &v) {
                    return t;
                }
                return self.or(&v, c);
            }
        }
        let args: Vec<T> = out.iter().map(|x| x.0).collect();
        let mut cs = Vec::with_capacity(out.len() + 1);
        cs.push(c);
        cs.extend(out.iter().map(|x| x.1));
        self.raw(Op::Lin, w, 0, args, cs)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.lin(w, 0, &[(a, 1), (b, 1)])
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.lin(w, 0, &[(a, 1), (b, mask(w))])
    }
    pub fn addc(&mut self, a: T, c: u128) -> T {
        let w = self.w(a);
        self.lin(w, c, &[(a, 1)])
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.as_const(a) {
            return self.lin_mulc(b, c, w);
        }
        if let Some(c) = self.as_const(b) {
            return self.lin_mulc(a, c, w);
        }
        if w == 1 {
            return self.and(&[a, b], 1);
        }
        for (x, y) in [(a, b), (b, a)] {
            if self.ci(x) && self.n[x as usize].leaves <= 16 {
                return self.map_leaves(x, &mut |s, v| s.lin_mulc(y, v, w));
            }
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Mul, w, 0, vec![x, y], vec![])
    }
    fn lin_mulc(&mut self, a: T, c: u128, w: u16) -> T {
        if c != 0 && c.is_power_of_two() && self.op(a) != Op::Lin {
            return self.shlc(a, c.trailing_zeros() as u16);
        }
        self.lin(w, 0, &[(a, c)])
    }
    /// a / b where b is not 0 (division by 0 is undefined in the IR, and rustc guards against it)
    pub fn udiv_nz(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
        let need = (128 - (na.hi.max(nb.hi)).leading_zeros() as u16).max(1);
        if nb.lo == 0 && need < w && self.as_const(b).is_none() {
            let x = self.extract(a, need - 1, 0);
            let y = self.extract(b, need - 1, 0);
            let r = self.div(Op::UDiv, x, y);
            return self.zext(r, w);
        }
        self.div(Op::UDiv, a, b)
    }
    pub fn div(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let v = match op {
                Op::UDiv => {
                    if y == 0 {
                        m
                    } else {
                        x / y
                    }
                }
                Op::URem => {
                    if y == 0 {
                        x
                    } else {
                        x % y
                    }
                }
                Op::SDiv | Op::SRem => eval_sdiv(op, x, y, w),
                _ => unreachable!(),
            };
            return self.c(w, v);
        }
        if let Some(y) = self.as_const(b) {
            if y == 1 {
                return match op {
                    Op::UDiv | Op::SDiv => a,
                    _ => self.c(w, 0),
                };
            }
            if y.is_power_of_two() && (op == Op::UDiv || op == Op::URem) {
                let k = y.trailing_zeros() as u16;
                return if op == Op::UDiv { self.lshrc(a, k) } else { self.and(&[a], y - 1) };
            }
            if self.ci(a) {
                return self.dist(op as u32 + 100, y, a, &mut |s, v| {
                    let x = s.c(w, v);
                    let y = s.c(w, y);
                    s.div(op, x, y)
                });
            }
        }
        // operands known to be small: do it at the smaller width (a remainder by 0 is the dividend at every width)
        if op == Op::UDiv || op == Op::URem {
            let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
            if nb.lo > 0 && na.hi < nb.lo {
                return if op == Op::UDiv { self.c(w, 0) } else { a };
            }
            if nb.lo > 0 || op == Op::URem {
                let need = 128 - (na.hi.max(nb.hi)).leading_zeros() as u16;
                let need = need.max(1);
                if need < w {
                    let x = self.extract(a, need - 1, 0);
                    let y = self.extract(b, need - 1, 0);
                    let r = self.div(op, x, y);
                    return self.zext(r, w);
                }
            }
        }
        if (op == Op::SDiv || op == Op::SRem)
            && self.n[a as usize].slo >= 0
            && self.n[b as usize].slo >= 0
            && self.n[b as usize].lo > 0
        {
            return self.div(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
        }
        self.raw(op, w, 0, vec![a, b], vec![])
    }

    // ---- bitwise --------------------------------------------------------------------
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        self.xor(&[a], mask(w))
    }
    pub fn xor2(&mut self, a: T, b: T) -> T {
        self.xor(&[a, b], 0)
    }
    pub fn xor(&mut self, ts: &[T], c0: u128) -> T {
        let w = self.w(ts[0]);
        let m = mask(w);
        let mut c = c0 & m;
        let mut v: Vec<T> = Vec::with_capacity(ts.len() + 2);
        for &t in ts {
            let k = &self.n[t as usize].k;
            match k.op {
                Op::Const => c ^= k.cs[0],
                Op::Xor => {
                    c ^= k.cs[0];
                    v.extend_from_slice(&k.args);
                }
                _ => v.push(t),
            }
        }
        v.sort_unstable();
        let mut out: Vec<T> = Vec::with_capacity(v.len());
        for t in v {
            if out.last() == Some(&t) {
                out.pop();
            } else {
                out.push(t);
            }
        }
        if out.is_empty() {
            return self.c(w, c);
        }
        if out.len() == 1 && c == 0 {
            return out[0];
        }
        if out.len() == 1 && self.ci(out[0]) {
            return self.map_leaves(out[0], &mut |s, v| s.c(w, v ^ c));
        }
        if w > 1 {
            let mut used = c;
            let mut ok = true;
            for &t in &out {
                let p = !self.n[t as usize].k0 & m;
                if used & p != 0 {
                    ok = false;
                    break;
                }
                used |= p;
            }
            if ok {
                if let Some(t) = self.try_disjoint(w, c, &out) {
                    return t;
                }
                return self.or(&out, c);
            }
        }
        if w == 1 && out.len() == 2 && c == 0 {
            // x ^ y of comparisons: keep
        }
        if w > 1 && c == 0 && out.len() <= 3 {
            if let Some(t) = self.as_maj(Op::Xor, &out) {
                return t;
            }
        }
        self.bitwise(Op::Xor, w, out, c)
    }
    /// Or of terms whose possibly-set bits are pairwise disjoint, as a concatenation of pieces.
    fn try_disjoint(&mut self, w: u16, c: u128, ts: &[T]) -> Option<T> {
        if ts.len() == 1 && c == 0 {
            return Some(ts[0]);
        }
        let m = mask(w);
        // owner per bit
        let mut pieces: Vec<(i32, u16, u16)> = Vec::new(); // owner (-1 const), hi, lo
        let poss: Vec<u128> = ts.iter().map(|&t| !self.n[t as usize].k0 & m).collect();
        let mut i = w;
        while i > 0 {
            i -= 1;
            let mut own = -1i32;
            for (j, p) in poss.iter().enumerate() {
                if p >> i & 1 == 1 {
                    own = j as i32;
                    break;
                }
            }
            if let Some(l) = pieces.last_mut() {
                if l.0 == own {
                    l.2 = i;
                    continue;
                }
            }
            pieces.push((own, i, i));
        }
        // (a selection by a constant mask stays one)
        let masked = ts.iter().any(|&t| self.op(t) == Op::And && self.n[t as usize].k.args.len() == 1);
        if pieces.len() > if masked { 8 } else { 20 } {
            return None;
        }
        let mut out = Vec::with_capacity(pieces.len());
        for (own, hi, lo) in pieces {
            if own < 0 {
                out.push(self.c(hi - lo + 1, c >> lo));
            } else {
                let t = ts[own as usize];
                let mut e = self.extract(t, hi, lo);
                let cc = (c >> lo) & mask(hi - lo + 1);
                if cc != 0 {
                    e = self.or(&[e], cc);
                }
                out.push(e);
            }
        }
        Some(self.concat(&out))
    }
    pub fn and2(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.and(&[a, b], mask(w))
    }
    pub fn or2(&mut self, a: T, b: T) -> T {
        self.or(&[a, b], 0)
    }
    pub fn and(&mut self, ts: &[T], c0: u128) -> T {
        let w = self.w(ts[0]);
        let m = mask(w);
        let mut c = c0 & m;
        let mut v: Vec<T> = Vec::with_capacity(ts.len() + 2);
        for &t in ts {
            let k = &self.n[t as usize].k;
            match k.op {
                Op::Const => c &= k.cs[0],
                Op::And => {
                    c &= k.cs[0];
                    v.extend_from_slice(&k.args);
                }
                _ => v.push(t),
            }
        }
        v.sort_unstable();
        v.dedup();
        // bits that may be one in every argument
        let mut poss = c;
        for &t in &v {
            poss &= !self.n[t as usize].k0;
        }
        if poss == 0 {
            return self.c(w, 0);
        }
        // constant is irrelevant where arguments are zero anyway
        if v.is_empty() {
            return self.c(w, c);
        }
        if v.len() == 1 {
            let t = v[0];
            let p = !self.n[t as usize].k0 & m;
            if p & !c == 0 {
                return t;
            }
            if self.ci(t) {
                return self.map_leaves(t, &mut |s, v| s.c(w, v & c));
            }
            // masks become concatenations
            if let Some(r) = self.mask_pieces(t, c & p, w) {
                return r;
            }
        }
        if w == 1 {
            // complementary pair?
            for &t in &v {
                let nt = self.not(t);
                if v.binary_search(&nt).is_ok() {
                    return self.c(1, 0);
                }
            }
            // absorption: drop Or args containing another conjunct; x & (x|y) = x
            let set: FxSet<T> = v.iter().cloned().collect();
            let mut v2 = Vec::with_capacity(v.len());
            let mut changed = false;
            for &t in &v {
                let k = self.key(t);
                if k.op == Op::Or && k.args.iter().any(|x| set.contains(x)) {
                    changed = true;
                    continue;
                }
                // x & (!x | y) = x & y
                if k.op == Op::Or {
                    let mut keep = Vec::new();
                    let mut ch = false;
                    for &x in k.args.iter() {
                        let nx = self.not(x);
                        if set.contains(&nx) {
                            ch = true;
                        } else {
                            keep.push(x);
                        }
                    }
                    if ch {
                        changed = true;
                        if keep.is_empty() {
                            return self.c(1, 0);
                        }
                        let r = self.or(&keep, 0);
                        v2.push(r);
                        continue;
                    }
                }
                v2.push(t);
            }
            if changed {
                if v2.is_empty() {
                    return self.c(1, 1);
                }
                return self.and(&v2, 1);
            }
        } else {
            // wide complementary pair: x & ~x
            for i in 0..v.len() {
                if self.op(v[i]) == Op::Xor {
                    let nt = self.not(v[i]);
                    if v.binary_search(&nt).is_ok() {
                        return self.c(w, 0);
                    }
                }
            }
        }
        if v.len() == 1 && c == m {
            return v[0];
        }
        // constant bits where an argument is zero anyway do not matter
        let p = v.iter().fold(m, |p, &t| p & !self.n[t as usize].k0);
        c = if p & !c == 0 { m } else { c & p };
        self.bitwise(Op::And, w, v, c)
    }
    fn mask_pieces(&mut self, t: T, c: u128, w: u16) -> Option<T> {
        let mut pieces: Vec<(bool, u16, u16)> = Vec::new();
        let mut i = w;
        while i > 0 {
            i -= 1;
            let b = c >> i & 1 == 1;
            if let Some(l) = pieces.last_mut() {
                if l.0 == b {
                    l.2 = i;
                    continue;
                }
            }
            pieces.push((b, i, i));
        }
        if pieces.len() > 5 {
            return None;
        }
        let mut out = Vec::new();
        for (b, hi, lo) in pieces {
            if b {
                out.push(self.extract(t, hi, lo));
            } else {
                out.push(self.c(hi - lo + 1, 0));
            }
        }
        Some(self.concat(&out))
    }
    pub fn or(&mut self, ts: &[T], c0: u128) -> T {
        let w = self.w(ts[0]);
        let m = mask(w);
        let mut c = c0 & m;
        let mut v: Vec<T> = Vec::with_capacity(ts.len() + 2);
        for &t in ts {
            let k = &self.n[t as usize].k;
            match k.op {
                Op::Const => c |= k.cs[0],
                Op::Or => {
                    c |= k.cs[0];
                    v.extend_from_slice(&k.args);
                }
                _ => v.push(t),
            }
        }
        v.sort_unstable();
        v.dedup();
        if c == m {
            return self.c(w, m);
        }
        // args that add nothing
        v.retain(|&t| !self.n[t as usize].k0 & m & !c != 0);
        if v.is_empty() {
            return self.c(w, c);
        }
        if v.len() == 1 && c == 0 {
            return v[0];
        }
        if v.len() == 1 && self.ci(v[0]) {
            return self.map_leaves(v[0], &mut |s, v| s.c(w, v | c));
        }
        if w == 1 {
            for &t in &v {
                let nt = self.not(t);
                if v.binary_search(&nt).is_ok() {
                    return self.c(1, 1);
                }
            }
            let set: FxSet<T> = v.iter().cloned().collect();
            let mut v2 = Vec::with_capacity(v.len());
            let mut changed = false;
            for &t in &v {
                let k = self.key(t);
                if k.op == Op::And && k.args.iter().any(|x| set.contains(x)) {
                    changed = true;
                    continue;
                }
                if k.op == Op::And {
                    let mut keep = Vec::new();
                    let mut ch = false;
                    for &x in k.args.iter() {
                        let nx = self.not(x);
                        if set.contains(&nx) {
                            ch = true;
                        } else {
                            keep.push(x);
                        }
                    }
                    if ch {
                        changed = true;
                        if keep.is_empty() {
                            return self.c(1, 1);
                        }
                        let r = self.and(&keep, 1);
                        v2.push(r);
                        continue;
                    }
                }
                v2.push(t);
            }
            if changed {
                if v2.is_empty() {
                    return self.c(1, 0);
                }
                return self.or(&v2, 0);
            }
            // (a & x) | (a & !x) = a   (two And args differing in one complementary literal)
            if v.len() == 2 {
                let (k1, k2) = (self.key(v[0]), self.key(v[1]));
                if k1.op == Op::And && k2.op == Op::And {
                    let s1: Vec<T> = k1.args.iter().filter(|x| !k2.args.contains(x)).cloned().collect();
                    let s2: Vec<T> = k2.args.iter().filter(|x| !k1.args.contains(x)).cloned().collect();
                    let common: Vec<T> = k1.args.iter().filter(|x| k2.args.contains(x)).cloned().collect();
                    if !common.is_empty() {
                        let r1 = if s1.is_empty() { self.c(1, 1) } else { self.and(&s1, 1) };
                        let r2 = if s2.is_empty() { self.c(1, 1) } else { self.and(&s2, 1) };
                        let o = self.or(&[r1, r2], 0);
                        let mut cc = common;
                        cc.push(o);
                        return self.and(&cc, 1);
                    }
                }
            }
        } else {
            let mut used = c;
            let mut ok = true;
            for &t in &v {
                let p = !self.n[t as usize].k0 & m & !c;
                if used & p != 0 {
                    ok = false;
                    break;
                }
                used |= p;
            }
            if ok && (v.len() > 1 || !self.n[v[0] as usize].k0 & c == 0) {
                if let Some(t) = self.try_disjoint(w, c, &v) {
                    return t;
                }
            }
        }
        if w > 1 && c == 0 && v.len() <= 3 {
            if let Some(t) = self.as_maj(Op::Or, &v) {
                return t;
            }
        }
        let p = v.iter().fold(0, |p, &t| p | self.n[t as usize].k1);
        c &= !p;
        if v.len() == 1 && c == 0 {
            return v[0];
        }
        if w > 1 && v.len() >= 2 {
            if let Some(t) = self.or_rotate(&v, c) {
                return t;
            }
        }
        self.bitwise(Op::Or, w, v, c)
    }
    /// the value of c when s has the value v (None: c depends on something else)
    fn eval_at(&self, c: T, s: T, v: u128, depth: u32) -> Option<u128> {
        if c == s {
            return Some(v);
        }
        let k = &self.n[s as usize].k;
        if k.op == Op::Concat && k.args.len() == 2 && k.args[1] == c && self.as_const(k.args[0]) == Some(0) {
            return Some(v & mask(self.w(c)));
        }
        let k = &self.n[c as usize].k;
        match k.op {
            Op::Const => return Some(k.cs[0]),
            Op::Var | Op::Lookup => return None,
            _ => {}
        }
        if depth == 0 {
            return None;
        }
        let mut vals = Vec::with_capacity(k.args.len());
        for &a in k.args.iter() {
            vals.push((a, self.eval_at(a, s, v, depth - 1)?));
        }
        Some(self.eval_node(c, &|t| vals.iter().find(|x| x.0 == t).unwrap().1, &|_| 0))
    }
    /// c says that the rotation amount s (modulo w) is zero
    fn says_zero(&mut self, c: T, s: T, w: u16) -> bool {
        let k = self.key(c);
        if k.op != Op::Eq {
            return false;
        }
        let lb = w.trailing_zeros() as u16;
        for (z, e) in [(k.args[0], k.args[1]), (k.args[1], k.args[0])] {
            if self.as_const(z) != Some(0) {
                continue;
            }
            let ke = self.key(e);
            let we = self.w(e);
            let low = if we == lb {
                if ke.op == Op::Extract && ke.aux == 0 { self.low_lin(ke.args[0], lb) } else { e }
            } else if we > lb && self.n[e as usize].hi < w as u128 {
                self.low_lin(e, lb)
            } else {
                continue;
            };
            if low == self.low_lin(s, lb) {
                return true;
            }
        }
        false
    }
    /// x << s | x >> (w - s) in its usual shapes
    fn or_rotate(&mut self, v: &[T], c: u128) -> Option<T> {
        let w = self.w(v[0]);
        if !w.is_power_of_two() || w < 8 {
            return None;
        }
        // (is a left shift, value, amount, guard, value of the guard that selects the shift)
        let shape = |s: &Self, t: T| -> Option<(bool, T, T, Option<(T, u128)>)> {
            let k = &s.n[t as usize].k;
            match k.op {
                Op::Shl | Op::LShr => Some((k.op == Op::Shl, k.args[0], k.args[1], None)),
                Op::Ite => {
                    for (x, z, g) in [(k.args[1], k.args[2], 1), (k.args[2], k.args[1], 0)] {
                        let kx = &s.n[x as usize].k;
                        if matches!(kx.op, Op::Shl | Op::LShr) && s.as_const(z) == Some(0) {
                            return Some((kx.op == Op::Shl, kx.args[0], kx.args[1], Some((k.args[0], g))));
                        }
                    }
                    None
                }
                _ => None,
            }
        };
        let sh: Vec<(usize, (bool, T, T, Option<(T, u128)>))> = v.iter().enumerate().filter_map(|(i, &t)| shape(self, t).map(|x| (i, x))).collect();
        let lb = w.trailing_zeros() as u16;
        for (i, (l1, x1, s1, g1)) in &sh {
            for (j, (l2, x2, s2, g2)) in &sh {
                if !(*l1 && !*l2 && x1 == x2) || (g1.is_some() && g2.is_some()) {
                    continue;
                }
                let (h1, h2) = (self.n[*s1 as usize].hi, self.n[*s2 as usize].hi);
                if h1 > w as u128 || h2 > w as u128 || (h1 == w as u128 && h2 == w as u128) {
                    continue;
                }
                let (a, b) = (self.low_lin(*s1, lb), self.low_lin(*s2, lb));
                let sum = self.add(a, b);
                if self.as_const(sum) != Some(0) {
                    continue;
                }
                if let Some((g, val)) = g1.or(*g2) {
                    // the guard may only drop a shift by nothing
                    let plain = if g1.is_some() { *s2 } else { *s1 };
                    let hp = self.n[plain as usize].hi;
                    if hp >= w as u128 {
                        continue;
                    }
                    if !(val == 0 && self.says_zero(g, plain, w)) && (1..w as u128).any(|q| self.eval_at(g, plain, q, 6) != Some(val)) {
                        continue;
                    }
                }
                let r = self.rotl(*x1, *s1);
                let mut rest: Vec<T> = (0..v.len()).filter(|k| k != i && k != j).map(|k| v[k]).collect();
                rest.push(r);
                return Some(self.or(&rest, c));
            }
        }
        None
    }
    /// And/Or/Xor of terms. Bitwise functions of at most five terms are shared by truth table, so
    /// that the different ways to write a choice or a majority give one term.
    fn bitwise(&mut self, op: Op, w: u16, v: Vec<T>, c: u128) -> T {
        let m = mask(w);
        let plain = match op {
            Op::Xor => c == 0 || c == m,
            Op::And => c == m,
            _ => c == 0,
        };
        if w == 1 || v.len() > 5 {
            return self.raw(op, w, 0, v, vec![c]);
        }
        // a constant counts as one more leaf (the smaller of it and its complement)
        let konst = if plain { None } else { Some((self.c(w, c.min(!c & m)), c != c.min(!c & m))) };
        let mut leaves: Vec<T> = Vec::with_capacity(8);
        leaves.extend(konst.map(|k| k.0));
        for &t in &v {
            match self.bf.get(&t) {
                Some((l, _)) => leaves.extend_from_slice(l),
                None => leaves.push(t),
            }
            if leaves.len() > 25 {
                break;
            }
        }
        leaves.sort_unstable();
        leaves.dedup();
        if leaves.len() > 5 {
            return self.raw(op, w, 0, v, vec![c]);
        }
        let n = leaves.len();
        let full: u32 = if n == 5 { !0 } else { (1u32 << (1 << n)) - 1 };
        let one = |t: T, leaves: &[T]| {
            let p = leaves.binary_search(&t).unwrap();
            let mut f = 0u32;
            for i in 0..1usize << n {
                f |= ((i >> p & 1) as u32) << i;
            }
            f
        };
        let mut tt = if op == Op::And || (op == Op::Xor && plain && c == m) { full } else { 0 };
        let mut fs: Vec<u32> = Vec::new();
        if let Some((k, neg)) = konst {
            let f = one(k, &leaves);
            fs.push(if neg { !f & full } else { f });
        }
        for &t in &v {
            match self.bf.get(&t) {
                Some((l, g)) => {
                    let mut f = 0u32;
                    let pos: Vec<usize> = l.iter().map(|x| leaves.binary_search(x).unwrap()).collect();
                    for i in 0..1usize << n {
                        let mut j = 0;
                        for (b, p) in pos.iter().enumerate() {
                            j |= (i >> p & 1) << b;
                        }
                        f |= (g >> j & 1) << i;
                    }
                    fs.push(f);
                }
                None => fs.push(one(t, &leaves)),
            }
        }
        for f in fs {
            match op {
                Op::And => tt &= f,
                Op::Or => tt |= f,
                _ => tt ^= f,
            }
        }
        // leaves that do not matter
        let mut p = 0;
        while p < leaves.len() {
            let n = leaves.len();
            let dep = (0..1usize << n).any(|i| i >> p & 1 == 0 && (tt >> i ^ tt >> (i | 1 << p)) & 1 == 1);
            if dep {
                p += 1;
                continue;
            }
            let mut g = 0u32;
            for j in 0..1usize << (n - 1) {
                let i = (j & ((1 << p) - 1)) | (j >> p) << (p + 1);
                g |= (tt >> i & 1) << j;
            }
            tt = g;
            leaves.remove(p);
        }
        let n = leaves.len();
        let full: u32 = if n == 5 { !0 } else { (1u32 << (1 << n)) - 1 };
        if n == 0 {
            return self.c(w, if tt & 1 == 1 { m } else { 0 });
        }
        if n == 1 && tt == 2 {
            return leaves[0];
        }
        if leaves.iter().all(|&l| self.as_const(l).is_some()) {
            let mut r = 0u128;
            for i in 0..1usize << n {
                if tt >> i & 1 == 1 {
                    r |= leaves.iter().enumerate().fold(m, |a, (p, &l)| {
                        let k = self.as_const(l).unwrap();
                        a & if i >> p & 1 == 1 { k } else { !k }
                    });
                }
            }
            return self.c(w, r & m);
        }
        let key = (w, leaves.clone().into_boxed_slice(), tt);
        if let Some(&t) = self.bf_map.get(&key) {
            return t;
        }
        let bit = |i: usize| tt >> i & 1;
        let t = 'r: {
            // affine: an Xor of the leaves
            let par = |i: usize| (i.count_ones() & 1) as u32;
            if (0..1usize << n).all(|i| bit(i) == bit(0) ^ par(i)) {
                let mut k = if bit(0) == 1 { m } else { 0 };
                let mut ls = Vec::new();
                for &l in &leaves {
                    match self.as_const(l) {
                        Some(x) => k ^= x,
                        None => ls.push(l),
                    }
                }
                break 'r self.raw(Op::Xor, w, 0, ls, vec![k]);
            }
            // one literal per leaf: an And or an Or
            if tt.count_ones() == 1 || (!tt & full).count_ones() == 1 {
                let and = tt.count_ones() == 1;
                let at = if and { tt.trailing_zeros() } else { (!tt & full).trailing_zeros() } as usize;
                let mut lits = Vec::new();
                let mut k = if and { m } else { 0 };
                for (i, &l) in leaves.iter().enumerate() {
                    let neg = (at >> i & 1 == 1) != and;
                    let l = if neg { self.not(l) } else { l };
                    match self.as_const(l) {
                        Some(x) if and => k &= x,
                        Some(x) => k |= x,
                        None => lits.push(l),
                    }
                }
                lits.sort_unstable();
                if lits.len() == 1 && !(v.len() == 1 && op == if and { Op::And } else { Op::Or }) {
                    break 'r if and { self.and(&lits, k) } else { self.or(&lits, k) };
                }
                break 'r self.raw(if and { Op::And } else { Op::Or }, w, 0, lits, vec![k]);
            }
            // choice: s ? x : y  as (s & x) | (~s & y)
            if n == 3 {
                for s in 0..3 {
                    let o: Vec<usize> = (0..3).filter(|&q| q != s).collect();
                    for (a, b) in [(o[0], o[1]), (o[1], o[0])] {
                        for neg in 0..4usize {
                            let ok = (0..8usize).all(|i| {
                                let r = if i >> s & 1 == 1 { (i >> a & 1) ^ (neg & 1) } else { (i >> b & 1) ^ (neg >> 1) };
                                bit(i) == r as u32
                            });
                            if !ok {
                                continue;
                            }
                            let (ls, mut la, mut lb) = (leaves[s], leaves[a], leaves[b]);
                            if neg & 1 == 1 {
                                la = self.not(la);
                            }
                            if neg >> 1 == 1 {
                                lb = self.not(lb);
                            }
                            let x = self.and2(ls, la);
                            let ns = self.not(ls);
                            let y = self.and2(ns, lb);
                            let apart = (!self.n[x as usize].k0 & m) & (!self.n[y as usize].k0 & m) == 0;
                            if self.op(x) == Op::And && self.op(y) == Op::And && x != y && !apart {
                                break 'r self.raw(Op::Or, w, 0, vec![x.min(y), x.max(y)], vec![0]);
                            }
                        }
                    }
                }
            }
            self.raw(op, w, 0, v, vec![c])
        };
        self.bf.insert(t, (key.1.clone(), tt));
        self.bf_map.insert(key, t);
        t
    }
    /// the majority function in any of its usual shapes, as (a&b)|(a&c)|(b&c)
    fn as_maj(&mut self, op: Op, v: &[T]) -> Option<T> {
        let m = mask(self.w(v[0]));
        let two = |s: &Self, t: T, op: Op| -> Option<(T, T)> {
            let k = &s.n[t as usize].k;
            let neutral = if op == Op::And { m } else { 0 };
            (k.op == op && k.args.len() == 2 && k.cs[0] == neutral).then(|| (k.args[0], k.args[1]))
        };
        let mut abc = None;
        if v.len() == 2 {
            for (p, q) in [(v[0], v[1]), (v[1], v[0])] {
                // a & (b op c)  op  b & c
                if let (Some((x, y)), Some((b, c))) = (two(self, p, Op::And), two(self, q, Op::And)) {
                    for (a, s) in [(x, y), (y, x)] {
                        if two(self, s, op) == Some((b, c)) {
                            abc = Some([a, b, c]);
                        }
                    }
                }
                // (a ^ b) & (b ^ c) ^ b
                if op == Op::Xor {
                    if let Some((x, y)) = two(self, p, Op::And) {
                        if let (Some((a, b)), Some((c, d))) = (two(self, x, Op::Xor), two(self, y, Op::Xor)) {
                            let r = |u: T, v: T| if u == q { Some(v) } else if v == q { Some(u) } else { None };
                            if let (Some(a), Some(c)) = (r(a, b), r(c, d)) {
                                abc = Some([a, q, c]);
                            }
                        }
                    }
                }
            }
        } else if v.len() == 3 && op == Op::Xor {
            // ab ^ ac ^ bc
            if let (Some((a, b)), Some((c, d)), Some((e, f))) = (two(self, v[0], Op::And), two(self, v[1], Op::And), two(self, v[2], Op::And)) {
                let mut s = vec![a, b, c, d, e, f];
                s.sort_unstable();
                if s[0] == s[1] && s[2] == s[3] && s[4] == s[5] && s[1] != s[2] && s[3] != s[4] {
                    abc = Some([s[0], s[2], s[4]]);
                }
            }
        }
        let mut a = abc?;
        a.sort_unstable();
        let x = self.and2(a[0], a[1]);
        let y = self.and2(a[0], a[2]);
        let z = self.and2(a[1], a[2]);
        Some(self.or(&[x, y, z], 0))
    }

    // ---- shifts ----------------------------------------------------------------------
    pub fn shlc(&mut self, a: T, k: u16) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.c(w, 0);
        }
        let x = self.extract(a, w - 1 - k, 0);
        let z = self.c(k, 0);
        self.concat(&[x, z])
    }
    pub fn lshrc(&mut self, a: T, k: u16) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.c(w, 0);
        }
        let x = self.extract(a, w - 1, k);
        self.zext(x, w)
    }
    pub fn shift(&mut self, op: Op, a: T, amt: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(amt) {
            let k = if k >= w as u128 { w } else { k as u16 };
            return match op {
                Op::Shl => self.shlc(a, k),
                Op::LShr => self.lshrc(a, k),
                Op::AShr => {
                    let k = k.min(w - 1);
                    let x = self.extract(a, w - 1, k);
                    self.sext(x, w)
                }
                Op::Rotl => unreachable!(),
                _ => unreachable!(),
            };
        }
        if self.is_false(a) {
            return a;
        }
        if self.ci(amt) && self.n[amt as usize].leaves <= 40 {
            return self.map_leaves(amt, &mut |s, v| {
                let aw = s.w(amt);
                let v = s.c(aw, v);
                s.shift(op, a, v)
            });
        }
        if let Some(av) = self.as_const(a) {
            // constant shifted by small symbolic amount: table
            let n = &self.n[amt as usize];
            if n.hi < 64 {
                let hi = n.hi;
                let mut ents = Vec::new();
                for i in 0..=hi {
                    let v = match op {
                        Op::Shl => {
                            if i >= w as u128 {
                                0
                            } else {
                                av << i
                            }
                        }
                        Op::LShr => {
                            if i >= w as u128 {
                                0
                            } else {
                                av >> i
                            }
                        }
                        Op::AShr => (sext(av, w) >> i.min(w as u128 - 1)) as u128,
                        _ => unreachable!(),
                    };
                    ents.push(self.c(w, v));
                }
                return self.lookup(amt, ents);
            }
        }
        if op == Op::AShr && self.n[a as usize].slo >= 0 {
            return self.shift(Op::LShr, a, amt);
        }
        self.raw(op, w, 0, vec![a, amt], vec![])
    }
    /// rotate left of a by amt (same width), amt taken modulo the width (width a power of two)
    pub fn rotl(&mut self, a: T, amt: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(amt) {
            let k = (k % w as u128) as u16;
            if k == 0 {
                return a;
            }
            let lo = self.extract(a, w - 1, w - k);
            let hi = self.extract(a, w - 1 - k, 0);
            return self.concat(&[hi, lo]);
        }
        assert!(w.is_power_of_two());
        // only the low bits of the amount count
        let lb = w.trailing_zeros() as u16;
        let am = self.low_lin(amt, lb);
        let am = self.zext(am, w);
        if self.as_const(am).is_some() {
            return self.rotl(a, am);
        }
        let ka = self.key(a);
        if ka.op == Op::Rotl {
            let x = self.extract(am, lb - 1, 0);
            let y = self.extract(ka.args[1], lb - 1, 0);
            let z = self.add(x, y);
            let z = self.zext(z, w);
            return self.rotl(ka.args[0], z);
        }
        if self.ci(am) && self.n[am as usize].leaves <= 40 {
            return self.map_leaves(am, &mut |s, v| {
                let v = s.c(w, v);
                s.rotl(a, v)
            });
        }
        self.raw(Op::Rotl, w, 0, vec![a, am], vec![])
    }
    /// the low bits of t, with a sum taken apart (so that amounts cancel)
    fn low_lin(&mut self, t: T, n: u16) -> T {
        let k = self.key(t);
        if k.op == Op::Lin {
            let mut parts = Vec::new();
            for (i, &a) in k.args.iter().enumerate() {
                let x = self.low_lin(a, n);
                parts.push((x, k.cs[i + 1] & mask(n)));
            }
            return self.lin(n, k.cs[0] & mask(n), &parts);
        }
        self.extract(t, n - 1, 0)
    }
    pub fn fshl(&mut self, a: T, b: T, amt: T) -> T {
        let w = self.w(a);
        if a == b && w.is_power_of_two() {
            return self.rotl(a, amt);
        }
        if let Some(k) = self.as_const(amt) {
            let k = (k % w as u128) as u16;
            if k == 0 {
                return a;
            }
            let hi = self.extract(a, w - 1 - k, 0);
            let lo = self.extract(b, w - 1, w - k);
            return self.concat(&[hi, lo]);
        }
        let wc = self.c(w, w as u128);
        let k = self.div(Op::URem, amt, wc);
        let x = self.shift(Op::Shl, a, k);
        let inv = self.sub(wc, k);
        let y = self.shift(Op::LShr, b, inv);
        let z = self.c(w, 0);
        let kz = self.eq(k, z);
        let o = self.or(&[x, y], 0);
        self.ite(kz, a, o)
    }
    pub fn fshr(&mut self, a: T, b: T, amt: T) -> T {
        let w = self.w(a);
        if a == b && w.is_power_of_two() {
            let z = self.c(w, 0);
            let n = self.sub(z, amt);
            return self.rotl(a, n);
        }
        if let Some(k) = self.as_const(amt) {
            let k = (k % w as u128) as u16;
            if k == 0 {
                return b;
            }
            let hi = self.extract(a, k - 1, 0);
            let lo = self.extract(b, w - 1, k);
            return self.concat(&[hi, lo]);
        }
        let wc = self.c(w, w as u128);
        let k = self.div(Op::URem, amt, wc);
        let y = self.shift(Op::LShr, b, k);
        let inv = self.sub(wc, k);
        let x = self.shift(Op::Shl, a, inv);
        let z = self.c(w, 0);
        let kz = self.eq(k, z);
        let o = self.or(&[x, y], 0);
        self.ite(kz, b, o)
    }

    // ---- structure ----------------------------------------------------------------------
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.c(w - aw, 0);
        self.concat(&[z, a])
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.c(w, sext(c, aw) as u128);
        }
        if self.n[a as usize].k0 >> (aw - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        if self.n[a as usize].k1 >> (aw - 1) & 1 == 1 {
            let z = self.c(w - aw, !0);
            return self.concat(&[z, a]);
        }
        if self.ci(a) {
            return self.map_leaves(a, &mut |s, v| s.c(w, sext(v, aw) as u128));
        }
        if self.op(a) == Op::SExt {
            let i = self.key(a).args[0];
            return self.sext(i, w);
        }
        if aw == 1 {
            let o = self.c(w, !0);
            let z = self.c(w, 0);
            return self.ite(a, o, z);
        }
        self.raw(Op::SExt, w, 0, vec![a], vec![])
    }
    pub fn concat(&mut self, ts: &[T]) -> T {
        let mut v: Vec<T> = Vec::with_capacity(ts.len());
        let mut w = 0u16;
        for &t in ts {
            w += self.w(t);
            if self.op(t) == Op::Concat {
                let k = self.key(t);
                for &x in k.args.iter() {
                    self.concat_push(&mut v, x);
                }
            } else {
                self.concat_push(&mut v, t);
            }
        }
        if v.len() == 1 {
            return v[0];
        }
        assert!(w <= 128, "concat too wide: {w}");
        // many pieces of one word in place between zeroes: a mask (the inverse of mask_pieces)
        if v.len() > 5 {
            let (mut src, mut pos, mut m, mut ok) = (None, w, 0u128, true);
            for &p in &v {
                let pw = self.w(p);
                pos -= pw;
                let k = &self.n[p as usize].k;
                if k.op == Op::Const && k.cs[0] == 0 {
                } else if k.op == Op::Extract && k.aux as u16 == pos && self.w(k.args[0]) == w && src.is_none_or(|s| s == k.args[0]) {
                    src = Some(k.args[0]);
                    m |= mask(pw) << pos;
                } else {
                    ok = false;
                    break;
                }
            }
            if ok {
                return self.raw(Op::And, w, 0, vec![src.unwrap()], vec![m]);
            }
        }
        // all pieces ite trees over constants
        let tot: u32 = v.iter().map(|&x| (self.n[x as usize].leaves as u32).saturating_sub(1)).sum();
        if v.iter().all(|&x| self.is_constite(x)) && tot <= 300 {
            if v.iter().filter(|&&x| self.ci(x)).count() == 1 {
                // exactly one non-constant piece
                let i = v.iter().position(|&x| self.ci(x)).unwrap();
                let mut hi = 0u128;
                let mut lo = 0u128;
                let mut low = 0u16;
                for &x in &v[..i] {
                    hi = if self.w(x) >= 128 { 0 } else { hi << self.w(x) } | self.as_const(x).unwrap();
                }
                for &x in &v[i + 1..] {
                    lo = lo << self.w(x) | self.as_const(x).unwrap();
                    low += self.w(x);
                }
                let pw = self.w(v[i]);
                let t = v[i];
                let base = (if pw + low >= 128 { 0 } else { hi << (pw + low) }) | lo;
                return self.map_leaves(t, &mut |s, x| s.c(w, base | (x << low)));
            }
            // same top condition everywhere?
            if let Some(r) = self.concat_pull(&v, w) {
                return r;
            }
        } else if v.iter().all(|&x| self.op(x) == Op::Ite)
            && v.iter().all(|&x| self.n[x as usize].k.args[0] == self.n[v[0] as usize].k.args[0])
        {
            let c = self.n[v[0] as usize].k.args[0];
            let a: Vec<T> = v.iter().map(|&x| self.n[x as usize].k.args[1]).collect();
            let b: Vec<T> = v.iter().map(|&x| self.n[x as usize].k.args[2]).collect();
            let x = self.concat(&a);
            let y = self.concat(&b);
            return self.ite(c, x, y);
        }
        self.raw(Op::Concat, w, 0, v, vec![])
    }
    fn concat_pull(&mut self, v: &[T], _w: u16) -> Option<T> {
        let first = v.iter().find(|&&x| self.ci(x)).cloned()?;
        let c = self.n[first as usize].k.args[0];
        for &x in v {
            if self.ci(x) && self.n[x as usize].k.args[0] != c {
                return None;
            }
        }
        let mut a = Vec::new();
        let mut b = Vec::new();
        for &x in v {
            if self.ci(x) {
                let k = self.key(x);
                a.push(k.args[1]);
                b.push(k.args[2]);
            } else {
                a.push(x);
                b.push(x);
            }
        }
        let x = self.concat(&a);
        let y = self.concat(&b);
        Some(self.ite(c, x, y))
    }
    fn concat_push(&mut self, v: &mut Vec<T>, t: T) {
        if let Some(&l) = v.last() {
            if let (Some(a), Some(b)) = (self.as_const(l), self.as_const(t)) {
                let (wa, wb) = (self.w(l), self.w(t));
                let c = self.c(wa + wb, a << wb | b);
                *v.last_mut().unwrap() = c;
                return;
            }
            let (ka, kb) = (self.key(l), self.key(t));
            // adjacent extracts of one term
            let (src_a, lo_a) = if ka.op == Op::Extract { (ka.args[0], ka.aux as u16) } else { (l, 0) };
            let (src_b, lo_b) = if kb.op == Op::Extract { (kb.args[0], kb.aux as u16) } else { (t, 0) };
            if src_a == src_b && lo_a == lo_b + kb.w && (ka.op == Op::Extract) {
                v.pop();
                let e = self.extract(src_a, lo_a + ka.w - 1, lo_b);
                self.concat_push(v, e);
                return;
            }
        }
        v.push(t);
    }
    pub fn extract(&mut self, t: T, hi: u16, lo: u16) -> T {
        let w = self.w(t);
        debug_assert!(hi < w && lo <= hi);
        if lo == 0 && hi == w - 1 {
            return t;
        }
        let ew = hi - lo + 1;
        if let Some(c) = self.as_const(t) {
            return self.c(ew, c >> lo);
        }
        if self.ci(t) {
            return self.dist(1, (hi as u128) << 16 | lo as u128, t, &mut |s, v| s.c(ew, v >> lo));
        }
        let k = self.key(t);
        match k.op {
            Op::Extract => {
                return self.extract(k.args[0], hi + k.aux as u16, lo + k.aux as u16);
            }
            Op::Concat => {
                let mut pos = w;
                let mut out = Vec::new();
                for &x in k.args.iter() {
                    let xw = self.w(x);
                    pos -= xw; // x covers [pos, pos+xw)
                    let xl = pos;
                    let xh = pos + xw - 1;
                    if xh < lo || xl > hi {
                        continue;
                    }
                    let h = hi.min(xh) - xl;
                    let l = lo.max(xl) - xl;
                    out.push(self.extract(x, h, l));
                }
                return self.concat(&out);
            }
            Op::SExt => {
                let iw = self.w(k.args[0]);
                if hi < iw {
                    return self.extract(k.args[0], hi, lo);
                }
                if lo < iw {
                    let x = self.extract(k.args[0], iw - 1, lo);
                    return self.sext(x, ew);
                }
                let s = self.extract(k.args[0], iw - 1, iw - 1);
                return self.sext(s, ew);
            }
            Op::And if k.args.len() == 1 && k.cs[0] >> lo & mask(ew) == mask(ew) => {
                return self.extract(k.args[0], hi, lo);
            }
            Op::Xor | Op::And | Op::Or => {
                if ew == 1 || k.args.iter().all(|&x| matches!(self.op(x), Op::Concat | Op::Extract | Op::SExt)) {
                    let v: Vec<T> = k.args.iter().map(|&x| x).collect();
                    let mut e = Vec::with_capacity(v.len());
                    for x in v {
                        e.push(self.extract(x, hi, lo));
                    }
                    let c = k.cs[0] >> lo;
                    return match k.op {
                        Op::Xor => self.xor(&e, c),
                        Op::And => self.and(&e, c),
                        _ => self.or(&e, c & mask(ew)),
                    };
                }
            }
            Op::Lin => {
                if lo == 0 {
                    // narrow additions that were widened
                    let all = k.args.iter().all(|&x| {
                        let kx = &self.n[x as usize].k;
                        (kx.op == Op::Concat && self.as_const(kx.args[0]) == Some(0)
                            && w - self.w(kx.args[0]) <= ew)
                            || (kx.op == Op::SExt && self.w(kx.args[0]) <= ew)
                            || (kx.op == Op::Ite && ew <= 8 && false)
                    });
                    if all {
                        let mut parts = Vec::new();
                        for (i, &x) in k.args.iter().enumerate() {
                            let e = self.extract(x, hi, 0);
                            parts.push((e, k.cs[i + 1]));
                        }
                        return self.lin(ew, k.cs[0], &parts);
                    }
                }
            }
            Op::Ite => {
                // push into ite when a branch simplifies
                let a = self.n[k.args[1] as usize].k.op;
                let b = self.n[k.args[2] as usize].k.op;
                let good = |o: Op| matches!(o, Op::Const | Op::Concat | Op::Extract);
                if good(a) && good(b) {
                    let x = self.extract(k.args[1], hi, lo);
                    let y = self.extract(k.args[2], hi, lo);
                    return self.ite(k.args[0], x, y);
                }
            }
            Op::Lookup => {
                if self.table_const[k.aux as usize] {
                    let tab = self.tables[k.aux as usize].clone();
                    let mut ents = Vec::with_capacity(tab.len());
                    for &e in tab.iter() {
                        ents.push(self.extract(e, hi, lo));
                    }
                    return self.lookup(k.args[0], ents);
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, ew, lo as u32, vec![t], vec![])
    }
    pub fn bswap(&mut self, t: T) -> T {
        let w = self.w(t);
        let n = w / 8;
        let mut v = Vec::new();
        for i in 0..n {
            v.push(self.extract(t, i * 8 + 7, i * 8));
        }
        self.concat(&v)
    }
    pub fn bitrev(&mut self, t: T) -> T {
        let w = self.w(t);
        let mut v = Vec::new();
        for i in 0..w {
            v.push(self.extract(t, i, i));
        }
        self.concat(&v)
    }
    pub fn ctlz(&mut self, t: T) -> T {
        let w = self.w(t);
        if let Some(c) = self.as_const(t) {
            let v = if c == 0 { w as u32 } else { c.leading_zeros() - (128 - w as u32) };
            return self.c(w, v as u128);
        }
        if self.ci(t) {
            return self.map_leaves(t, &mut |s, c| {
                let v = if c == 0 { w as u32 } else { c.leading_zeros() - (128 - w as u32) };
                s.c(w, v as u128)
            });
        }
        let mut r = self.c(w, w as u128);
        for i in 0..w {
            let b = self.extract(t, i, i);
            let v = self.c(w, (w - 1 - i) as u128);
            r = self.ite(b, v, r);
        }
        r
    }
    pub fn cttz(&mut self, t: T) -> T {
        let w = self.w(t);
        if let Some(c) = self.as_const(t) {
            let v = if c == 0 { w as u32 } else { c.trailing_zeros() };
            return self.c(w, v as u128);
        }
        let mut r = self.c(w, w as u128);
        for i in (0..w).rev() {
            let b = self.extract(t, i, i);
            let v = self.c(w, i as u128);
            r = self.ite(b, v, r);
        }
        r
    }
    pub fn ctpop(&mut self, t: T) -> T {
        let w = self.w(t);
        let mut parts = Vec::new();
        for i in 0..w {
            let b = self.extract(t, i, i);
            let z = self.zext(b, w);
            parts.push((z, 1));
        }
        self.lin(w, 0, &parts)
    }

    // ---- predicates -----------------------------------------------------------------------
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.c(1, 1);
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        let r = self.eq_(a, b);
        if self.w(a) <= 10 && self.as_const(r).is_none() {
            if let Some(k) = self.as_const(b) {
                self.eqk.insert((r, a), k);
            }
        }
        r
    }
    fn eq_(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
        if na.k1 & nb.k0 != 0 || na.k0 & nb.k1 != 0 || na.hi < nb.lo || nb.hi < na.lo || na.shi < nb.slo || nb.shi < na.slo {
            return self.c(1, 0);
        }
        if w == 1 {
            let x = self.xor(&[a, b], 1);
            return x;
        }
        if let Some(c) = self.as_const(b) {
            if self.ci(a) {
                return self.dist(2, c, a, &mut |s, v| s.bool(v == c));
            }
            let k = self.key(a);
            match k.op {
                Op::Concat => {
                    let mut pos = w;
                    let mut v = Vec::new();
                    for &x in k.args.iter() {
                        let xw = self.w(x);
                        pos -= xw;
                        let cc = self.c(xw, c >> pos);
                        v.push(self.eq(x, cc));
                    }
                    return self.and(&v, 1);
                }
                Op::Lin => {
                    if k.cs[0] != 0 {
                        let m = mask(w);
                        let parts: Vec<(T, u128)> = k.args.iter().cloned().zip(k.cs[1..].iter().cloned()).collect();
                        let l = self.lin(w, 0, &parts);
                        let r = self.c(w, c.wrapping_sub(k.cs[0]) & m);
                        return self.eq(l, r);
                    }
                    if k.args.len() == 1 {
                        let cf = k.cs[1];
                        if cf & 1 == 1 {
                            // odd coefficient: multiply by inverse
                            let mut inv = cf;
                            for _ in 0..7 {
                                inv = inv.wrapping_mul(2u128.wrapping_sub(cf.wrapping_mul(inv)));
                            }
                            let r = self.c(w, c.wrapping_mul(inv));
                            return self.eq(k.args[0], r);
                        }
                    }
                    if k.args.len() == 2 && c == 0 && k.cs[1] == 1 && k.cs[2] == mask(w) {
                        return self.eq(k.args[0], k.args[1]);
                    }
                    if k.args.len() == 2 && c == 0 && k.cs[2] == 1 && k.cs[1] == mask(w) {
                        return self.eq(k.args[0], k.args[1]);
                    }
                }
                Op::Xor => {
                    if k.cs[0] != 0 {
                        let l = self.xor(&k.args, 0);
                        let r = self.c(w, c ^ k.cs[0]);
                        return self.eq(l, r);
                    }
                    if c == 0 && k.args.len() == 2 {
                        return self.eq(k.args[0], k.args[1]);
                    }
                }
                Op::Or => {
                    if c == 0 {
                        let mut v = Vec::new();
                        for &x in k.args.iter() {
                            v.push(self.eq(x, b));
                        }
                        return self.and(&v, 1);
                    }
                }
                Op::SExt => {
                    let iw = self.w(k.args[0]);
                    let ic = c & mask(iw);
                    if sext(ic, iw) as u128 & mask(w) == c {
                        let r = self.c(iw, ic);
                        return self.eq(k.args[0], r);
                    }
                    return self.c(1, 0);
                }
                Op::Lookup => {
                    if self.table_const[k.aux as usize] {
                        let tab = self.tables[k.aux as usize].clone();
                        let mut ents = Vec::with_capacity(tab.len());
                        for &e in tab.iter() {
                            let v = self.as_const(e).unwrap() == c;
                            ents.push(self.bool(v));
                        }
                        return self.lookup(k.args[0], ents);
                    }
                }
                Op::Ite => {
                    let x = k.args[1];
                    let y = k.args[2];
                    // push when one branch is decided
                    let ex = self.as_const(x).is_some();
                    let ey = self.as_const(y).is_some();
                    if ex || ey {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(k.args[0], p, q);
                    }
                }
                _ => {}
            }
        } else {
            if self.ci(a) && self.ci(b) {
                let (la, lb) = (self.n[a as usize].leaves, self.n[b as usize].leaves);
                if (la as u32) * (lb as u32) <= 4096 {
                    let (a, b) = if la < lb { (a, b) } else { (b, a) };
                    return self.dist(3, b as u128, a, &mut |s, v| {
                        let c = s.c(w, v);
                        s.eq(b, c)
                    });
                }
            }
            let (ka, kb) = (self.key(a), self.key(b));
            if ka.op == Op::Lin || kb.op == Op::Lin {
                let d = self.lin(w, 0, &[(a, 1), (b, mask(w))]);
                if let Some(c) = self.as_const(d) {
                    return self.bool(c == 0);
                }
                let kd = self.key(d);
                if kd.op != Op::Lin || kd.args.len() <= 1 {
                    let z = self.c(w, 0);
                    return self.eq(d, z);
                }
            }
            if ka.op == Op::Concat && kb.op == Op::Concat {
                // split at common boundaries
                let za = self.w(ka.args[0]);
                let zb = self.w(kb.args[0]);
                let h = za.min(zb);
                let a1 = self.extract(a, w - 1, w - h);
                let b1 = self.extract(b, w - 1, w - h);
                let a2 = self.extract(a, w - 1 - h, 0);
                let b2 = self.extract(b, w - 1 - h, 0);
                let e1 = self.eq(a1, b1);
                if self.is_false(e1) {
                    return e1;
                }
                let e2 = self.eq(a2, b2);
                return self.and(&[e1, e2], 1);
            }
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Eq, 1, 0, vec![x, y], vec![])
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(1, 0);
        }
        let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
        if na.hi < nb.lo {
            return self.c(1, 1);
        }
        if na.lo >= nb.hi {
            return self.c(1, 0);
        }
        if w == 1 {
            let x = self.not(a);
            return self.and(&[x, b], 1);
        }
        // strip common known-zero high bits
        let poss = !(na.k0 & nb.k0) & mask(w);
        let need = (128 - poss.leading_zeros() as u16).max(1);
        if need < w {
            let x = self.extract(a, need - 1, 0);
            let y = self.extract(b, need - 1, 0);
            return self.ult(x, y);
        }
        if let Some(c) = self.as_const(b) {
            if c == 1 {
                let z = self.c(w, 0);
                return self.eq(a, z);
            }
            if c == mask(w) {
                return self.ne(a, b);
            }
            if self.ci(a) {
                return self.dist(4, c, a, &mut |s, v| s.bool(v < c));
            }
            if c == 1u128 << (w - 1) {
                let s = self.extract(a, w - 1, w - 1);
                return self.not(s);
            }
            if c.is_power_of_two() {
                let k = c.trailing_zeros() as u16;
                let h = self.extract(a, w - 1, k);
                let z = self.c(w - k, 0);
                return self.eq(h, z);
            }
            if let Some(t) = self.cmp_table(a, &|v| v < c) {
                return t;
            }
        }
        if let Some(c) = self.as_const(a) {
            if c == 0 {
                return self.ne(b, a);
            }
            if self.ci(b) {
                return self.dist(5, c, b, &mut |s, v| s.bool(c < v));
            }
            // c < b  <=>  !(b < c+1)
            let c1 = self.c(w, c + 1);
            let r = self.ult(b, c1);
            return self.not(r);
        }
        if self.ci(a) && self.ci(b) {
            let (la, lb) = (self.n[a as usize].leaves, self.n[b as usize].leaves);
            if (la as u32) * (lb as u32) <= 4096 {
                return self.dist(6, b as u128, a, &mut |s, v| {
                    let c = s.c(w, v);
                    s.ult(c, b)
                });
            }
        }
        self.raw(Op::Ult, 1, 0, vec![a, b], vec![])
    }
    fn cmp_table(&mut self, a: T, f: &dyn Fn(u128) -> bool) -> Option<T> {
        let k = self.key(a);
        if k.op == Op::Lookup && self.table_const[k.aux as usize] {
            let tab = self.tables[k.aux as usize].clone();
            let mut ents = Vec::with_capacity(tab.len());
            for &e in tab.iter() {
                let v = f(self.as_const(e).unwrap());
                ents.push(self.bool(v));
            }
            return Some(self.lookup(k.args[0], ents));
        }
        None
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(1, 0);
        }
        let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
        if na.shi < nb.slo {
            return self.c(1, 1);
        }
        if na.slo >= nb.shi {
            return self.c(1, 0);
        }
        if na.slo >= 0 && nb.slo >= 0 {
            return self.ult(a, b);
        }
        if w == 1 {
            let x = self.not(b);
            return self.and(&[x, a], 1);
        }
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if self.as_const(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, w - 1);
            return self.not(s);
        }
        if let Some(c) = self.as_const(b) {
            if self.ci(a) {
                return self.map_leaves(a, &mut |s, v| s.bool(sext(v, w) < sext(c, w)));
            }
            if let Some(t) = self.cmp_table(a, &|v| sext(v, w) < sext(c, w)) {
                return t;
            }
        }
        if let Some(c) = self.as_const(a) {
            if self.ci(b) {
                return self.map_leaves(b, &mut |s, v| s.bool(sext(c, w) < sext(v, w)));
            }
            if let Some(t) = self.cmp_table(b, &|v| sext(c, w) < sext(v, w)) {
                return t;
            }
        }
        self.raw(Op::Slt, 1, 0, vec![a, b], vec![])
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // normalise negated conditions
        {
            let k = &self.n[c as usize].k;
            if k.op == Op::Xor && k.cs[0] == 1 && (k.args.len() == 1) {
                let c2 = k.args[0];
                return self.ite(c2, b, a);
            }
            if k.op == Op::Xor && k.cs[0] == 1 {
                let c2 = self.not(c);
                return self.ite(c2, b, a);
            }
        }
        if w == 1 {
            if let Some(v) = self.as_const(a) {
                return if v == 1 {
                    self.or(&[c, b], 0)
                } else {
                    let nc = self.not(c);
                    self.and(&[nc, b], 1)
                };
            }
            if let Some(v) = self.as_const(b) {
                return if v == 0 {
                    self.and(&[c, a], 1)
                } else {
                    let nc = self.not(c);
                    self.or(&[nc, a], 0)
                };
            }
            if a == c {
                return self.or(&[c, b], 0);
            }
            if b == c {
                return self.and(&[c, a], 1);
            }
            let nb = self.not(b);
            if a == nb {
                // c ? !b : b  = c ^ b
                return self.xor(&[c, b], 0);
            }
        }
        let (ka, kb) = (self.key(a), self.key(b));
        // a rotation that is skipped when the amount is zero
        for (x, k, val, r) in [(a, &kb, 1, b), (b, &ka, 0, a)] {
            if k.op == Op::Rotl && k.args[0] == x && ((val == 1 && self.says_zero(c, k.args[1], w)) || (1..w as u128).all(|q| self.eval_at(c, k.args[1], q, 6) == Some(1 - val))) {
                return r;
            }
        }
        if kb.op == Op::Lookup {
            // i == k ? a : tab[i]  =  (tab with tab[k] := a)[i]
            let idx = kb.args[0];
            if let Some(&k) = self.eqk.get(&(c, idx)) {
                let tab = self.tables[kb.aux as usize].clone();
                if tab.len() as u128 == 1u128 << self.w(idx) {
                    let mut t2 = tab.to_vec();
                    t2[k as usize] = a;
                    return self.lookup(idx, t2);
                }
            }
        }
        if ka.op == Op::Ite {
            if ka.args[0] == c {
                return self.ite(c, ka.args[1], b);
            }
            // c ? (d ? x : b) : b  = (c&d) ? x : b
            if ka.args[2] == b {
                let cd = self.and(&[c, ka.args[0]], 1);
                return self.ite(cd, ka.args[1], b);
            }
            if ka.args[1] == b {
                let nd = self.not(ka.args[0]);
                let cd = self.and(&[c, nd], 1);
                return self.ite(cd, ka.args[2], b);
            }
        }
        if kb.op == Op::Ite {
            if kb.args[0] == c {
                return self.ite(c, a, kb.args[2]);
            }
            // c ? a : (d ? a : y) = (c|d) ? a : y
            if kb.args[1] == a {
                let cd = self.or(&[c, kb.args[0]], 0);
                return self.ite(cd, a, kb.args[2]);
            }
            if kb.args[2] == a {
                let nd = self.not(kb.args[0]);
                let cd = self.or(&[c, nd], 0);
                return self.ite(cd, a, kb.args[1]);
            }
        }
        self.raw(Op::Ite, w, 0, vec![c, a, b], vec![])
    }
    pub fn lookup(&mut self, idx: T, mut ents: Vec<T>) -> T {
        if let Some(c) = self.as_const(idx) {
            let i = (c as usize).min(ents.len() - 1);
            return ents[i];
        }
        // cut entries that cannot be reached
        let (lo, hi) = (self.n[idx as usize].lo, self.n[idx as usize].hi);
        if (hi as usize) < ents.len() - 1 {
            ents.truncate(hi as usize + 1);
        }
        if ents[(lo as usize).min(ents.len() - 1)..].iter().all(|&e| e == ents[ents.len() - 1]) {
            return ents[ents.len() - 1];
        }
        if self.ci(idx) {
            return self.map_leaves(idx, &mut |_s, v| {
                let i = (v as usize).min(ents.len() - 1);
                ents[i]
            });
        }
        // narrow the index
        let need = (128 - hi.leading_zeros() as u16).max(1);
        let idx = if need < self.w(idx) { self.extract(idx, need - 1, 0) } else { idx };
        if self.as_const(idx).is_some() || self.ci(idx) {
            return self.lookup(idx, ents);
        }
        let k = self.key(idx);
        if k.op == Op::Lookup && self.table_const[k.aux as usize] {
            let tab = self.tables[k.aux as usize].clone();
            let mut e2 = Vec::with_capacity(tab.len());
            for &e in tab.iter() {
                let i = (self.as_const(e).unwrap() as usize).min(ents.len() - 1);
                e2.push(ents[i]);
            }
            return self.lookup(k.args[0], e2);
        }
        // what entry k says about idx == k
        if self.w(idx) > 1 && self.w(idx) <= 10 && ents.len() as u128 == 1u128 << self.w(idx) {
            let mut ch = false;
            for k in 0..ents.len() {
                for _ in 0..4 {
                    let kk = self.n[ents[k] as usize].k.clone();
                    if kk.op == Op::Ite {
                        match self.eqk.get(&(kk.args[0], idx)) {
                            Some(&m) => ents[k] = if m == k as u128 { kk.args[1] } else { kk.args[2] },
                            None => break,
                        }
                    } else if kk.op == Op::Lookup && kk.args[0] == idx {
                        let t = &self.tables[kk.aux as usize];
                        ents[k] = t[k.min(t.len() - 1)];
                    } else {
                        break;
                    }
                    ch = true;
                }
            }
            if ch {
                return self.lookup(idx, ents);
            }
        }
        if self.w(idx) == 1 {
            let (a, b) = (ents[0], ents[ents.len() - 1]);
            return self.ite(idx, b, a);
        }
        let w = self.w(ents[0]);
        // boolean tables with few hits become comparisons
        if w == 1 && ents.iter().all(|&e| self.as_const(e).is_some()) {
            let hits: Vec<usize> = (0..ents.len()).filter(|&i| self.is_true(ents[i])).collect();
            let full = ents.len() as u128 == 1u128 << self.w(idx);
            if full || !self.is_true(ents[ents.len() - 1]) {
                if hits.len() == 1 {
                    let iw = self.w(idx);
                    let c = self.c(iw, hits[0] as u128);
                    return self.eq(idx, c);
                }
                // identity-like check e.g. idx >= k is left to the solver
            }
        }
        // a boolean table that is an affine function of the index bits
        if w == 1 && ents.len() as u128 == 1u128 << self.w(idx) && ents.iter().all(|&e| self.as_const(e).is_some()) {
            let f: Vec<u128> = ents.iter().map(|&e| self.as_const(e).unwrap()).collect();
            let mut sel = 0usize;
            for j in 0..self.w(idx) {
                if f[1 << j] != f[0] {
                    sel |= 1 << j;
                }
            }
            if f.iter().enumerate().all(|(i, &v)| v == f[0] ^ ((i & sel).count_ones() as u128 & 1)) {
                let mut bits = vec![];
                for j in 0..self.w(idx) {
                    if sel >> j & 1 == 1 {
                        bits.push(self.extract(idx, j, j));
                    }
                }
                if bits.is_empty() {
                    return self.c(1, f[0]);
                }
                return self.xor(&bits, f[0]);
            }
        }
        // identity table
        if w == self.w(idx) && ents.len() as u128 == 1u128 << w
            && ents.iter().enumerate().all(|(i, &e)| self.as_const(e) == Some(i as u128)) {
            return idx;
        }
        let rc: std::rc::Rc<[T]> = ents.into();
        let tid = if let Some(&t) = self.table_map.get(&rc) {
            t
        } else {
            let t = self.tables.len() as u32;
            let all = rc.iter().all(|&e| self.as_const(e).is_some());
            self.tables.push(rc.clone());
            self.table_const.push(all);
            self.table_map.insert(rc, t);
            t
        };
        self.raw(Op::Lookup, w, tid, vec![idx], vec![])
    }

    /// rebuild a node with new children (in the order given by `children`)
    pub fn rebuild(&mut self, t: T, ch: &[T]) -> T {
        let k = self.key(t);
        match k.op {
            Op::Const | Op::Var => t,
            Op::Lin => {
                let parts: Vec<(T, u128)> = ch.iter().cloned().zip(k.cs[1..].iter().cloned()).collect();
                self.lin(k.w, k.cs[0], &parts)
            }
            Op::Xor => self.xor(ch, k.cs[0]),
            Op::And => self.and(ch, k.cs[0]),
            Op::Or => self.or(ch, k.cs[0]),
            Op::Mul => self.mul(ch[0], ch[1]),
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => self.div(k.op, ch[0], ch[1]),
            Op::Shl | Op::LShr | Op::AShr => self.shift(k.op, ch[0], ch[1]),
            Op::Rotl => self.rotl(ch[0], ch[1]),
            Op::Concat => self.concat(ch),
            Op::Extract => self.extract(ch[0], k.aux as u16 + k.w - 1, k.aux as u16),
            Op::SExt => self.sext(ch[0], k.w),
            Op::Ite => self.ite(ch[0], ch[1], ch[2]),
            Op::Eq => self.eq(ch[0], ch[1]),
            Op::Ult => self.ult(ch[0], ch[1]),
            Op::Slt => self.slt(ch[0], ch[1]),
            Op::Lookup => {
                let ents: Vec<T> = if self.table_const[k.aux as usize] {
                    self.tables[k.aux as usize].to_vec()
                } else {
                    ch[1..].to_vec()
                };
                self.lookup(ch[0], ents)
            }
        }
    }

    pub fn eval_node(&self, t: T, get: &dyn Fn(T) -> u128, var: &dyn Fn(u32) -> u128) -> u128 {
        let k = &self.n[t as usize].k;
        let w = k.w;
        let m = mask(w);
        let a = &k.args;
        let r = match k.op {
            Op::Const => k.cs[0],
            Op::Var => var(k.aux),
            Op::Lin => {
                let mut s = k.cs[0];
                for (i, &x) in a.iter().enumerate() {
                    s = s.wrapping_add(get(x).wrapping_mul(k.cs[i + 1]));
                }
                s
            }
            Op::Xor => a.iter().fold(k.cs[0], |s, &x| s ^ get(x)),
            Op::And => a.iter().fold(k.cs[0], |s, &x| s & get(x)),
            Op::Or => a.iter().fold(k.cs[0], |s, &x| s | get(x)),
            Op::Mul => get(a[0]).wrapping_mul(get(a[1])),
            Op::UDiv => {
                let y = get(a[1]);
                if y == 0 {
                    m
                } else {
                    get(a[0]) / y
                }
            }
            Op::URem => {
                let y = get(a[1]);
                if y == 0 {
                    get(a[0])
                } else {
                    get(a[0]) % y
                }
            }
            Op::SDiv | Op::SRem => eval_sdiv(k.op, get(a[0]), get(a[1]), w),
            Op::Shl => {
                let s = get(a[1]);
                if s >= w as u128 {
                    0
                } else {
                    get(a[0]) << s
                }
            }
            Op::LShr => {
                let s = get(a[1]);
                if s >= w as u128 {
                    0
                } else {
                    get(a[0]) >> s
                }
            }
            Op::AShr => {
                let s = get(a[1]).min(w as u128 - 1);
                (sext(get(a[0]), w) >> s) as u128
            }
            Op::Rotl => {
                let s = (get(a[1]) % w as u128) as u32;
                let v = get(a[0]);
                if s == 0 {
                    v
                } else {
                    v << s | v >> (w as u32 - s)
                }
            }
            Op::Concat => {
                let mut r = 0u128;
                for &x in a.iter() {
                    let xw = self.w(x);
                    r = if xw >= 128 { 0 } else { r << xw } | get(x);
                }
                r
            }
            Op::Extract => get(a[0]) >> k.aux,
            Op::SExt => sext(get(a[0]), self.w(a[0])) as u128,
            Op::Ite => {
                if get(a[0]) == 1 {
                    get(a[1])
                } else {
                    get(a[2])
                }
            }
            Op::Eq => (get(a[0]) == get(a[1])) as u128,
            Op::Ult => (get(a[0]) < get(a[1])) as u128,
            Op::Slt => {
                let aw = self.w(a[0]);
                (sext(get(a[0]), aw) < sext(get(a[1]), aw)) as u128
            }
            Op::Lookup => {
                let tab = &self.tables[k.aux as usize];
                let i = get(a[0]).min(tab.len() as u128 - 1) as usize;
                if self.table_const[k.aux as usize] {
                    self.n[tab[i] as usize].k.cs[0]
                } else {
                    get(tab[i])
                }
            }
        };
        r & m
    }
}

fn eval_sdiv(op: Op, x: u128, y: u128, w: u16) -> u128 {
    let (sx, sy) = (sext(x, w), sext(y, w));
    let m = mask(w);
    // SMT-LIB semantics
    if sy == 0 {
        return match op {
            Op::SDiv => {
                if sx >= 0 {
                    m
                } else {
                    1
                }
            }
            _ => x,
        };
    }
    match op {
        Op::SDiv => sx.wrapping_div(sy) as u128 & m,
        _ => sx.wrapping_rem(sy) as u128 & m,
    }
}
