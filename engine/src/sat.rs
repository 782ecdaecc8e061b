//! Incremental bit-blasting solver: terms become gates once, every query is a set of assumptions.
//! Decides only inputs that the query depends on (gates are functions of the inputs, so an
//! assignment of those inputs that propagates without conflict extends to all gates).
use crate::term::*;

pub type Lit = u32; // 2 * var + negated
const TRUE: Lit = 0;
const FALSE: Lit = 1;
const UNASSIGNED: u8 = 2;

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Clone, Copy)]
struct Watch {
    c: u32,
    blocker: Lit,
}

pub struct Sat {
    // clause arena: [len, activity/lbd, lits...]
    mem: Vec<u32>,
    learnts: Vec<u32>,
    watches: Vec<Vec<Watch>>,
    val: Vec<u8>,   // per literal: 1 true, 0 false, 2 unassigned
    level: Vec<u32>,
    reason: Vec<u32>, // clause offset or u32::MAX
    trail: Vec<Lit>,
    lim: Vec<usize>,
    qhead: usize,
    act: Vec<f64>,
    inc: f64,
    phase: Vec<u8>,
    heap: Vec<u32>,
    pos: Vec<i32>,
    seen: Vec<u8>,
    wanted: Vec<u32>, // stamp: variable may be decided in this query
    stamp: u32,
    ok: bool,
    pub conflicts: u64,
    pub propagations: u64,
    pub clauses: u64,
    max_learnts: usize,
}

impl Sat {
    pub fn new() -> Self {
        let mut s = Sat {
            mem: vec![0],
            learnts: vec![],
            watches: vec![],
            val: vec![],
            level: vec![],
            reason: vec![],
            trail: vec![],
            lim: vec![],
            qhead: 0,
            act: vec![],
            inc: 1.0,
            phase: vec![],
            heap: vec![],
            pos: vec![],
            seen: vec![],
            wanted: vec![],
            stamp: 0,
            ok: true,
            conflicts: 0,
            propagations: 0,
            clauses: 0,
            max_learnts: 4000,
        };
        let v = s.var();
        debug_assert_eq!(v, 0);
        s.add(&[TRUE]);
        s
    }
    pub fn nvars(&self) -> usize {
        self.level.len()
    }
    pub fn var(&mut self) -> u32 {
        let v = self.level.len() as u32;
        self.watches.push(vec![]);
        self.watches.push(vec![]);
        self.val.push(UNASSIGNED);
        self.val.push(UNASSIGNED);
        self.level.push(0);
        self.reason.push(u32::MAX);
        self.act.push(0.0);
        self.phase.push(1);
        self.pos.push(-1);
        self.seen.push(0);
        self.wanted.push(0);
        v
    }
    /// add a clause at level 0
    pub fn add(&mut self, c: &[Lit]) {
        debug_assert!(self.lim.is_empty());
        let mut v: Vec<Lit> = vec![];
        for &l in c {
            match self.val[l as usize] {
                1 => return,
                0 => continue,
                _ => {}
            }
            if v.contains(&(l ^ 1)) {
                return;
            }
            if !v.contains(&l) {
                v.push(l);
            }
        }
        self.clauses += 1;
        match v.len() {
            0 => self.ok = false,
            1 => {
                self.enqueue(v[0], u32::MAX);
                if self.propagate() != u32::MAX {
                    self.ok = false;
                }
            }
            _ => {
                self.attach(&v);
            }
        }
    }
    fn attach(&mut self, v: &[Lit]) -> u32 {
        let c = self.mem.len() as u32;
        self.mem.push(v.len() as u32);
        self.mem.push(0);
        self.mem.extend_from_slice(v);
        self.watches[(v[0] ^ 1) as usize].push(Watch { c, blocker: v[1] });
        self.watches[(v[1] ^ 1) as usize].push(Watch { c, blocker: v[0] });
        c
    }
    fn enqueue(&mut self, l: Lit, r: u32) {
        let v = (l >> 1) as usize;
        self.val[l as usize] = 1;
        self.val[(l ^ 1) as usize] = 0;
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> u32 {
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            self.propagations += 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let (mut i, mut j) = (0, 0);
            let n = ws.len();
            let mut confl = u32::MAX;
            'next: while i < n {
                let w = ws[i];
                i += 1;
                if self.val[w.blocker as usize] == 1 {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let c = w.c as usize;
                let len = self.mem[c] as usize;
                let np = p ^ 1;
                if self.mem[c + 2] == np {
                    self.mem.swap(c + 2, c + 3);
                }
                let first = self.mem[c + 2];
                let nw = Watch { c: w.c, blocker: first };
                if first != w.blocker && self.val[first as usize] == 1 {
                    ws[j] = nw;
                    j += 1;
                    continue;
                }
                for k in 2..len {
                    let l = self.mem[c + 2 + k];
                    if self.val[l as usize] != 0 {
                        self.mem[c + 3] = l;
                        self.mem[c + 2 + k] = np;
                        self.watches[(l ^ 1) as usize].push(nw);
                        continue 'next;
                    }
                }
                ws[j] = nw;
                j += 1;
                if self.val[first as usize] == 0 {
                    confl = w.c;
                    self.qhead = self.trail.len();
                    while i < n {
                        ws[j] = ws[i];
                        j += 1;
                        i += 1;
                    }
                } else {
                    self.enqueue(first, w.c);
                }
            }
            ws.truncate(j);
            // watches[p] may have received new entries? a clause never watches p again while p is true
            let extra = std::mem::replace(&mut self.watches[p as usize], ws);
            self.watches[p as usize].extend(extra);
            if confl != u32::MAX {
                return confl;
            }
        }
        u32::MAX
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let to = self.lim[lvl];
        for k in (to..self.trail.len()).rev() {
            let l = self.trail[k];
            let v = (l >> 1) as usize;
            self.val[l as usize] = UNASSIGNED;
            self.val[(l ^ 1) as usize] = UNASSIGNED;
            self.phase[v] = (l & 1) as u8;
            if self.wanted[v] == self.stamp && self.pos[v] < 0 {
                self.push(v as u32);
            }
        }
        self.trail.truncate(to);
        self.lim.truncate(lvl);
        self.qhead = to;
    }
    // ---- decision heap ------------------------------------------------------------------------
    fn up(&mut self, mut i: usize) {
        let v = self.heap[i];
        while i > 0 {
            let p = (i - 1) / 2;
            if self.act[self.heap[p] as usize] >= self.act[v as usize] {
                break;
            }
            self.heap[i] = self.heap[p];
            self.pos[self.heap[i] as usize] = i as i32;
            i = p;
        }
        self.heap[i] = v;
        self.pos[v as usize] = i as i32;
    }
    fn down(&mut self, mut i: usize) {
        let v = self.heap[i];
        loop {
            let mut c = 2 * i + 1;
            if c >= self.heap.len() {
                break;
            }
            if c + 1 < self.heap.len() && self.act[self.heap[c + 1] as usize] > self.act[self.heap[c] as usize] {
                c += 1;
            }
            if self.act[self.heap[c] as usize] <= self.act[v as usize] {
                break;
            }
            self.heap[i] = self.heap[c];
            self.pos[self.heap[i] as usize] = i as i32;
            i = c;
        }
        self.heap[i] = v;
        self.pos[v as usize] = i as i32;
    }
    fn push(&mut self, v: u32) {
        self.heap.push(v);
        self.up(self.heap.len() - 1);
    }
    fn pop(&mut self) -> Option<u32> {
        if self.heap.is_empty() {
            return None;
        }
        let v = self.heap[0];
        let l = self.heap.pop().unwrap();
        self.pos[v as usize] = -1;
        if !self.heap.is_empty() {
            self.heap[0] = l;
            self.down(0);
        }
        Some(v)
    }
    fn bump(&mut self, v: usize) {
        self.act[v] += self.inc;
        if self.act[v] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        // a variable met in a conflict becomes a decision candidate
        self.wanted[v] = self.stamp;
        if self.pos[v] >= 0 {
            self.up(self.pos[v] as usize);
        }
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, usize) {
        let mut out = vec![0];
        let mut count = 0;
        let mut p = u32::MAX;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut clear = vec![];
        loop {
            let c = confl as usize;
            let len = self.mem[c] as usize;
            for k in 0..len {
                let q = self.mem[c + 2 + k];
                if q == p {
                    continue;
                }
                let v = (q >> 1) as usize;
                if self.seen[v] == 0 && self.level[v] > 0 {
                    self.seen[v] = 1;
                    clear.push(v);
                    self.bump(v);
                    if self.level[v] >= cur {
                        count += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[(self.trail[idx] >> 1) as usize] == 1 {
                    break;
                }
            }
            p = self.trail[idx];
            self.seen[(p >> 1) as usize] = 0;
            count -= 1;
            if count == 0 {
                break;
            }
            confl = self.reason[(p >> 1) as usize];
        }
        out[0] = p ^ 1;
        // local minimisation
        let mut keep = vec![out[0]];
        for &l in &out[1..] {
            let v = (l >> 1) as usize;
            let r = self.reason[v];
            let mut red = r != u32::MAX;
            if red {
                let c = r as usize;
                for k in 0..self.mem[c] as usize {
                    let q = self.mem[c + 2 + k];
                    let qv = (q >> 1) as usize;
                    if qv != v && self.seen[qv] == 0 && self.level[qv] > 0 {
                        red = false;
                        break;
                    }
                }
            }
            if !red {
                keep.push(l);
            }
        }
        for v in clear {
            self.seen[v] = 0;
        }
        let mut bt = 0;
        if keep.len() > 1 {
            let mut m = 1;
            for i in 1..keep.len() {
                if self.level[(keep[i] >> 1) as usize] > self.level[(keep[m] >> 1) as usize] {
                    m = i;
                }
            }
            keep.swap(1, m);
            bt = self.level[(keep[1] >> 1) as usize] as usize;
        }
        (keep, bt)
    }
    fn reduce(&mut self) {
        // forget the long learnt clauses of the older half
        let n = self.learnts.len();
        let locked = |s: &Sat, c: u32| {
            let l = s.mem[c as usize + 2];
            s.val[l as usize] == 1 && s.reason[(l >> 1) as usize] == c
        };
        let mut drop_: std::collections::HashSet<u32> = Default::default();
        let old: Vec<u32> = self.learnts[..n / 2].to_vec();
        let mut kept = vec![];
        for c in old {
            if self.mem[c as usize] > 3 && self.mem[c as usize + 1] > 2 && !locked(self, c) {
                drop_.insert(c);
            } else {
                kept.push(c);
            }
        }
        kept.extend_from_slice(&self.learnts[n / 2..]);
        self.learnts = kept;
        for w in self.watches.iter_mut() {
            w.retain(|x| !drop_.contains(&x.c));
        }
        self.max_learnts += self.max_learnts / 10;
    }
    /// satisfiable under the assumptions? `inputs`: the variables to decide
    pub fn solve(&mut self, assume: &[Lit], inputs: &[u32], budget: u64) -> Ans {
        if !self.ok {
            return Ans::Unsat;
        }
        self.cancel(0);
        self.stamp += 1;
        while let Some(v) = self.heap.pop() {
            self.pos[v as usize] = -1;
        }
        for &v in inputs {
            if self.wanted[v as usize] != self.stamp {
                self.wanted[v as usize] = self.stamp;
                if self.val[2 * v as usize] == UNASSIGNED {
                    self.push(v);
                }
            }
        }
        let start = self.conflicts;
        let props = self.propagations;
        let mut restart_at = self.conflicts + 100;
        let mut rcount = 0u32;
        loop {
            let confl = self.propagate();
            if confl != u32::MAX {
                self.conflicts += 1;
                if self.lim.is_empty() {
                    self.ok = false;
                    return Ans::Unsat;
                }
                let (cl, bt) = self.analyze(confl);
                // lbd
                let mut ls: Vec<u32> = cl.iter().map(|l| self.level[(l >> 1) as usize]).collect();
                ls.sort_unstable();
                ls.dedup();
                self.cancel(bt);
                if cl.len() == 1 {
                    self.enqueue(cl[0], u32::MAX);
                } else {
                    let c = self.attach(&cl);
                    self.mem[c as usize + 1] = ls.len() as u32;
                    self.learnts.push(c);
                    self.enqueue(cl[0], c);
                }
                self.inc /= 0.95;
                if self.conflicts - start > budget || self.propagations - props > budget.saturating_mul(1500) {
                    self.cancel(0);
                    return Ans::Unknown;
                }
                continue;
            }
            if self.conflicts >= restart_at {
                rcount += 1;
                restart_at = self.conflicts + 100 * luby(rcount);
                self.cancel(0);
                if self.learnts.len() > self.max_learnts {
                    self.reduce();
                }
                continue;
            }
            // assumptions first
            let mut next = None;
            while self.lim.len() < assume.len() {
                let a = assume[self.lim.len()];
                match self.val[a as usize] {
                    1 => self.lim.push(self.trail.len()),
                    0 => {
                        self.cancel(0);
                        return Ans::Unsat;
                    }
                    _ => {
                        next = Some(a);
                        break;
                    }
                }
            }
            if next.is_none() {
                while let Some(v) = self.pop() {
                    if self.val[2 * v as usize] == UNASSIGNED {
                        next = Some(2 * v + self.phase[v as usize] as u32);
                        break;
                    }
                }
            }
            match next {
                None => return Ans::Sat,
                Some(l) => {
                    self.lim.push(self.trail.len());
                    self.enqueue(l, u32::MAX);
                }
            }
        }
    }
    pub fn value(&self, l: Lit) -> bool {
        self.val[l as usize] == 1
    }
}

fn luby(mut i: u32) -> u64 {
    loop {
        let k = 32 - i.leading_zeros();
        if i == (1 << k) - 1 {
            return 1 << (k - 1);
        }
        i -= (1 << (k - 1)) - 1;
    }
}

/// terms to gates
pub struct Blaster {
    pub sat: Sat,
    bits: FxMap<T, std::rc::Rc<Vec<Lit>>>,
    defined: FxSet<T>,
    ands: FxMap<(Lit, Lit), Lit>,
    xors: FxMap<(Lit, Lit), Lit>,
    ites: FxMap<(Lit, Lit, Lit), Lit>,
    majs: FxMap<(Lit, Lit, Lit), Lit>,
    support: FxMap<T, std::rc::Rc<Vec<u32>>>,
    vars: FxMap<u32, T>,
    weight: FxMap<T, (u32, u32)>,
    pub resets: u64,
    pub queries: u64,
}

impl Blaster {
    pub fn new() -> Self {
        Blaster { sat: Sat::new(), bits: Default::default(), defined: Default::default(), ands: Default::default(), xors: Default::default(), ites: Default::default(), majs: Default::default(), support: Default::default(), vars: Default::default(), weight: Default::default(), resets: 0, queries: 0 }
    }
    fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == TRUE {
            return b;
        }
        if a == FALSE || a == b ^ 1 {
            return FALSE;
        }
        if a == b {
            return a;
        }
        if let Some(&o) = self.ands.get(&(a, b)) {
            return o;
        }
        let o = 2 * self.sat.var();
        self.sat.add(&[o ^ 1, a]);
        self.sat.add(&[o ^ 1, b]);
        self.sat.add(&[o, a ^ 1, b ^ 1]);
        self.ands.insert((a, b), o);
        o
    }
    fn or(&mut self, a: Lit, b: Lit) -> Lit {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let s = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == b {
            return FALSE ^ s;
        }
        if a == TRUE {
            return b ^ 1 ^ s;
        }
        if let Some(&o) = self.xors.get(&(a, b)) {
            return o ^ s;
        }
        let o = 2 * self.sat.var();
        self.sat.add(&[o ^ 1, a, b]);
        self.sat.add(&[o ^ 1, a ^ 1, b ^ 1]);
        self.sat.add(&[o, a ^ 1, b]);
        self.sat.add(&[o, a, b ^ 1]);
        self.xors.insert((a, b), o);
        o ^ s
    }
    fn ite(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let (c, a, b) = if c & 1 == 1 { (c ^ 1, b, a) } else { (c, a, b) };
        if a == TRUE || a == c {
            return self.or(c, b);
        }
        if a == FALSE || a == c ^ 1 {
            return self.and(c ^ 1, b);
        }
        if b == TRUE || b == c ^ 1 {
            return self.or(c ^ 1, a);
        }
        if b == FALSE || b == c {
            return self.and(c, a);
        }
        if a == b ^ 1 {
            return self.xor(c, b);
        }
        if let Some(&o) = self.ites.get(&(c, a, b)) {
            return o;
        }
        let o = 2 * self.sat.var();
        self.sat.add(&[c ^ 1, a ^ 1, o]);
        self.sat.add(&[c ^ 1, a, o ^ 1]);
        self.sat.add(&[c, b ^ 1, o]);
        self.sat.add(&[c, b, o ^ 1]);
        self.sat.add(&[a ^ 1, b ^ 1, o]);
        self.sat.add(&[a, b, o ^ 1]);
        self.ites.insert((c, a, b), o);
        o
    }
    fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        let mut v = [a, b, c];
        v.sort_unstable();
        let [a, b, c] = v;
        if a == TRUE {
            return self.or(b, c);
        }
        if a == FALSE {
            return self.and(b, c);
        }
        if a == b || a == c {
            return a;
        }
        if b == c {
            return b;
        }
        if a == b ^ 1 {
            return c;
        }
        if b == c ^ 1 {
            return a;
        }
        if a == c ^ 1 {
            return b;
        }
        if let Some(&o) = self.majs.get(&(a, b, c)) {
            return o;
        }
        let o = 2 * self.sat.var();
        for (x, y) in [(a, b), (a, c), (b, c)] {
            self.sat.add(&[x ^ 1, y ^ 1, o]);
            self.sat.add(&[x, y, o ^ 1]);
        }
        self.majs.insert((a, b, c), o);
        o
    }
    fn addc(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> (Vec<Lit>, Lit) {
        let mut o = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            o.push(self.xor(x, c));
            c = self.maj(a[i], b[i], c);
        }
        (o, c)
    }
    fn cbits(w: u16, v: u128) -> Vec<Lit> {
        (0..w).map(|i| if v >> i & 1 == 1 { TRUE } else { FALSE }).collect()
    }
    fn ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        // carry of a + ~b + 1 is a >= b
        let mut c = TRUE;
        for i in 0..a.len() {
            c = self.maj(a[i], b[i] ^ 1, c);
        }
        c ^ 1
    }
    fn mul(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let w = a.len();
        let mut acc = vec![FALSE; w];
        for i in 0..w {
            if b[i] == FALSE {
                continue;
            }
            let row: Vec<Lit> = (0..w - i).map(|j| self.and(a[j], b[i])).collect();
            let hi = acc[i..].to_vec();
            let (s, _) = self.addc(&hi, &row, FALSE);
            acc[i..].copy_from_slice(&s);
        }
        acc
    }
    fn neg(&mut self, a: &[Lit]) -> Vec<Lit> {
        let n: Vec<Lit> = a.iter().map(|l| l ^ 1).collect();
        let z = vec![FALSE; a.len()];
        self.addc(&n, &z, TRUE).0
    }
    fn mux(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.ite(c, a[i], b[i])).collect()
    }
    /// quotient and remainder; division by zero gives all ones and the dividend
    fn divrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let w = a.len();
        let mut r = vec![FALSE; w + 1];
        let mut bx = b.to_vec();
        bx.push(FALSE);
        let nb: Vec<Lit> = bx.iter().map(|l| l ^ 1).collect();
        let mut q = vec![FALSE; w];
        for i in (0..w).rev() {
            r.rotate_right(1);
            r[0] = a[i];
            let (d, c) = self.addc(&r, &nb, TRUE);
            q[i] = c;
            r = self.mux(c, &d, &r.clone());
            // the remainder is below the divisor (or the divisor is zero), so the top bit is only
            // needed while b == 0; keep it, it is shifted out above
            let top = r[w];
            r[w] = top;
        }
        // b == 0: every comparison succeeds, q is all ones and r is a (shifted in bit by bit)
        r.truncate(w);
        (q, r)
    }
    fn shift(&mut self, a: &[Lit], s: &[Lit], left: bool, fill: Lit) -> Vec<Lit> {
        let w = a.len();
        let mut cur = a.to_vec();
        let mut big = FALSE;
        for (k, &b) in s.iter().enumerate() {
            if k >= 16 || (1usize << k) >= w {
                big = self.or(big, b);
                continue;
            }
            let d = 1 << k;
            let mut n = Vec::with_capacity(w);
            for i in 0..w {
                let from = if left {
                    if i >= d { cur[i - d] } else { fill }
                } else if i + d < w {
                    cur[i + d]
                } else {
                    fill
                };
                n.push(self.ite(b, from, cur[i]));
            }
            cur = n;
        }
        let f = vec![fill; w];
        self.mux(big, &f, &cur)
    }
    fn nary(&mut self, op: Op, a: &[std::rc::Rc<Vec<Lit>>], c: u128, w: u16) -> Vec<Lit> {
        let mut o = Self::cbits(w, c);
        for x in a {
            for i in 0..w as usize {
                o[i] = match op {
                    Op::Xor => self.xor(o[i], x[i]),
                    Op::And => self.and(o[i], x[i]),
                    _ => self.or(o[i], x[i]),
                };
            }
        }
        o
    }
    /// entries selected by the index; past the end: the last one
    fn table(&mut self, ents: &[std::rc::Rc<Vec<Lit>>], idx: &[Lit]) -> Vec<Lit> {
        let n = ents.len();
        let mut need = 0;
        while (1usize << need) < n {
            need += 1;
        }
        let mut level: Vec<Vec<Lit>> = (0..1usize << need).map(|i| ents[i.min(n - 1)].to_vec()).collect();
        for k in 0..need {
            let b = if k < idx.len() { idx[k] } else { FALSE };
            let mut up = Vec::with_capacity(level.len() / 2);
            for p in level.chunks(2) {
                let m = self.mux(b, &p[1], &p[0]);
                up.push(m);
            }
            level = up;
        }
        let mut r = level.pop().unwrap();
        let mut big = FALSE;
        for k in need..idx.len() {
            big = self.or(big, idx[k]);
        }
        let last = ents[n - 1].to_vec();
        r = self.mux(big, &last, &r);
        r
    }
    fn blast(&mut self, tm: &Terms, t: T) {
        let k = &tm.n[t as usize].k;
        let w = k.w;
        let a: Vec<std::rc::Rc<Vec<Lit>>> = k.args.iter().map(|x| self.bits[x].clone()).collect();
        let o: Vec<Lit> = match k.op {
            Op::Const => Self::cbits(w, k.cs[0]),
            Op::Var => (0..w).map(|_| 2 * self.sat.var()).collect(),
            Op::Xor | Op::And | Op::Or => self.nary(k.op, &a, k.cs[0], w),
            Op::Lin => {
                let mut acc = Self::cbits(w, k.cs[0]);
                for (i, x) in a.iter().enumerate() {
                    let c = k.cs[i + 1];
                    if c == mask(w) {
                        let n: Vec<Lit> = x.iter().map(|l| l ^ 1).collect();
                        acc = self.addc(&acc, &n, TRUE).0;
                    } else {
                        // the sparser of c and -c
                        let nc = c.wrapping_neg() & mask(w);
                        let (m, negate) = if c.count_ones() <= nc.count_ones() + 1 { (c, false) } else { (nc, true) };
                        for j in 0..w {
                            if m >> j & 1 == 1 {
                                let mut row = vec![FALSE; w as usize];
                                for b in j..w {
                                    row[b as usize] = x[(b - j) as usize];
                                }
                                if negate {
                                    for l in row.iter_mut() {
                                        *l ^= 1;
                                    }
                                    acc = self.addc(&acc, &row, TRUE).0;
                                } else {
                                    acc = self.addc(&acc, &row, FALSE).0;
                                }
                            }
                        }
                    }
                }
                acc
            }
            Op::Mul => self.mul(&a[0], &a[1]),
            Op::UDiv => self.divrem(&a[0], &a[1]).0,
            Op::URem => self.divrem(&a[0], &a[1]).1,
            Op::SDiv | Op::SRem => {
                let top = w as usize - 1;
                let (sa, sb) = (a[0][top], a[1][top]);
                let (na, nb) = (self.neg(&a[0]), self.neg(&a[1]));
                let (x, y) = (self.mux(sa, &na, &a[0]), self.mux(sb, &nb, &a[1]));
                let (q, r) = self.divrem(&x, &y);
                if k.op == Op::SDiv {
                    let s = self.xor(sa, sb);
                    let n = self.neg(&q);
                    self.mux(s, &n, &q)
                } else {
                    let n = self.neg(&r);
                    self.mux(sa, &n, &r)
                }
            }
            Op::Shl => self.shift(&a[0], &a[1], true, FALSE),
            Op::LShr => self.shift(&a[0], &a[1], false, FALSE),
            Op::AShr => {
                let f = a[0][w as usize - 1];
                self.shift(&a[0], &a[1], false, f)
            }
            Op::Rotl => {
                // (x << s) | (x >> (w - s)), as in the SMT text
                let s = self.shift(&a[0], &a[1], true, FALSE);
                let wc = Self::cbits(w, w as u128);
                let ns: Vec<Lit> = a[1].iter().map(|l| l ^ 1).collect();
                let d = self.addc(&wc, &ns, TRUE).0;
                let r = self.shift(&a[0], &d, false, FALSE);
                (0..w as usize).map(|i| self.or(s[i], r[i])).collect()
            }
            Op::Concat => {
                let mut o = vec![];
                for x in a.iter().rev() {
                    o.extend_from_slice(x);
                }
                o
            }
            Op::Extract => a[0][k.aux as usize..k.aux as usize + w as usize].to_vec(),
            Op::SExt => {
                let mut o = a[0].to_vec();
                let s = *o.last().unwrap();
                o.resize(w as usize, s);
                o
            }
            Op::Ite => self.mux(a[0][0], &a[1], &a[2]),
            Op::Eq => {
                let mut r = TRUE;
                for i in 0..a[0].len() {
                    let x = self.xor(a[0][i], a[1][i]);
                    r = self.and(r, x ^ 1);
                }
                vec![r]
            }
            Op::Ult => vec![self.ult(&a[0], &a[1])],
            Op::Slt => {
                let (mut x, mut y) = (a[0].to_vec(), a[1].to_vec());
                let top = x.len() - 1;
                x[top] ^= 1;
                y[top] ^= 1;
                vec![self.ult(&x, &y)]
            }
            Op::Lookup => {
                let ents: Vec<std::rc::Rc<Vec<Lit>>> = tm.tables[k.aux as usize]
                    .iter()
                    .map(|e| {
                        let ek = &tm.n[*e as usize].k;
                        if ek.op == Op::Const { std::rc::Rc::new(Self::cbits(ek.w, ek.cs[0])) } else { self.bits[e].clone() }
                    })
                    .collect();
                self.table(&ents, &a[0])
            }
        };
        assert_eq!(o.len(), w as usize, "{:?}", k.op);
        self.bits.insert(t, std::rc::Rc::new(o));
    }
    /// Sat with a model over the variables, Unsat, or Unknown after `budget` conflicts
    pub fn check(&mut self, tm: &Terms, roots: &[T], budget: u64) -> (Ans, Vec<(u32, u128)>) {
        self.queries += 1;
        self.sat.cancel(0);
        let all = crate::solver::cone(tm, roots, None);
        // propagation runs through every gate that depends on the inputs: start afresh when most of
        // them no longer matter
        if self.sat.nvars() > 3000 {
            let here: usize = all.iter().filter_map(|t| self.weight.get(t)).map(|x| x.1 as usize).sum();
            let new = all.iter().filter(|t| !self.defined.contains(t)).count();
            if self.sat.nvars() > 4 * (here + 10 * new) {
                let (q, r) = (self.queries, self.resets);
                *self = Blaster::new();
                self.queries = q;
                self.resets = r + 1;
            }
        }
        let nodes: Vec<T> = all.iter().cloned().filter(|t| !self.defined.contains(t)).collect();
        let mut ch = vec![];
        for &t in &nodes {
            ch.clear();
            tm.children(t, &mut ch);
            let before = self.sat.nvars();
            self.blast(tm, t);
            self.weight.insert(t, (before as u32, (self.sat.nvars() - before) as u32));
            self.defined.insert(t);
            let k = &tm.n[t as usize].k;
            let mut sup: Vec<u32> = vec![];
            if k.op == Op::Var {
                self.vars.insert(k.aux, t);
                sup.push(k.aux);
            } else if ch.len() == 1 {
                let s = self.support[&ch[0]].clone();
                self.support.insert(t, s);
                continue;
            } else {
                let mut last: *const Vec<u32> = std::ptr::null();
                for c in &ch {
                    let s = &self.support[c];
                    if std::rc::Rc::as_ptr(s) != last {
                        last = std::rc::Rc::as_ptr(s);
                        sup.extend_from_slice(s);
                    }
                }
                sup.sort_unstable();
                sup.dedup();
                if let Some(s) = ch.iter().map(|c| &self.support[c]).find(|s| s.len() == sup.len()) {
                    let s = s.clone();
                    self.support.insert(t, s);
                    continue;
                }
            }
            self.support.insert(t, std::rc::Rc::new(sup));
        }
        let mut assume = vec![];
        let mut vs: Vec<u32> = vec![];
        let mut seen: FxSet<*const Vec<u32>> = FxSet::default();
        for r in roots {
            assume.push(self.bits[r][0]);
            let s = &self.support[r];
            if seen.insert(std::rc::Rc::as_ptr(s)) {
                vs.extend_from_slice(s);
            }
        }
        vs.sort_unstable();
        vs.dedup();
        let mut inputs = vec![];
        for v in &vs {
            for &l in self.bits[&self.vars[v]].iter() {
                inputs.push(l >> 1);
            }
        }
        let mut r = self.sat.solve(&assume, &inputs, budget.min(300));
        if r == Ans::Unknown && budget > 300 {
            // a hard one: decide inner gates as well
            for t in &all {
                let (a, n) = self.weight[t];
                inputs.extend(a..a + n);
            }
            r = self.sat.solve(&assume, &inputs, budget - 300);
        }
        let mut model = vec![];
        if r == Ans::Sat {
            for v in &vs {
                let mut x = 0u128;
                for (i, &l) in self.bits[&self.vars[v]].iter().enumerate() {
                    if self.sat.value(l) {
                        x |= 1 << i;
                    }
                }
                model.push((*v, x));
            }
        }
        self.sat.cancel(0);
        (r, model)
    }
}
