//! Proving pc => goal: SMT sweeping (internal equalities proved on small cuts) and a final query.
use crate::exec::Model;
use crate::solver::*;
use crate::term::*;
use std::collections::BinaryHeap;
use std::rc::Rc;
use std::time::{Duration, Instant};

const K: usize = 24;

pub struct Sweeper {
    map: FxMap<T, T>,              // processed node -> representative
    sim: FxMap<T, Rc<[u128; K]>>,  // simulation values
    classes: FxMap<(u16, u64), Vec<T>>,
    failed: FxSet<(T, T)>,
    rels: FxMap<T, (Vec<(T, u128)>, u128)>, // proved linear relations, solved for one term each
    pats: Vec<Vec<u128>>,
    rng: u64,
    pub merged: u64,
    pub tried: u64,
    pub final_queries: u64,
    pub final_time: Duration,
}
impl Sweeper {
    pub fn new() -> Self {
        Sweeper {
            map: FxMap::default(),
            sim: FxMap::default(),
            classes: FxMap::default(),
            failed: FxSet::default(),
            rels: FxMap::default(),
            pats: vec![vec![]; K],
            rng: 88172645463325252,
            merged: 0,
            tried: 0,
            final_queries: 0,
            final_time: Duration::ZERO,
        }
    }
    fn pat(&mut self, k: usize, v: u32) -> u128 {
        while self.pats[k].len() <= v as usize {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            self.pats[k].push((self.rng as u128) << 64 | (self.rng.wrapping_mul(0x2545F4914F6CDD1D)) as u128);
        }
        self.pats[k][v as usize]
    }
    fn simulate(&mut self, tm: &Terms, t: T) -> Rc<[u128; K]> {
        if let Some(s) = self.sim.get(&t) {
            return s.clone();
        }
        let mut st = vec![t];
        let mut ch = vec![];
        while let Some(&x) = st.last() {
            if self.sim.contains_key(&x) {
                st.pop();
                continue;
            }
            ch.clear();
            tm.children(x, &mut ch);
            let mut ready = true;
            for &c in &ch {
                if !self.sim.contains_key(&c) {
                    st.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let mut out = [0u128; K];
            let k = tm.key(x);
            for i in 0..K {
                out[i] = match k.op {
                    Op::Const => k.cs[0],
                    Op::Var => self.pat(i, k.aux) & mask(k.w),
                    _ => {
                        let sim = &self.sim;
                        tm.eval_node(x, &|c| sim[&c][i], &|_| 0)
                    }
                };
            }
            self.sim.insert(x, Rc::new(out));
            st.pop();
        }
        self.sim[&t].clone()
    }
    fn sig(s: &[u128; K]) -> u64 {
        let mut h = 0u64;
        for v in s.iter() {
            h = (h.rotate_left(7) ^ (*v as u64) ^ ((*v >> 64) as u64).rotate_left(32)).wrapping_mul(0x9E3779B97F4A7C15);
        }
        h
    }
}

/// cut for a pair: expand the n highest nodes, everything below is free. With `bitwise`, arithmetic
/// and table nodes are never expanded.
fn make_cut(tm: &Terms, roots: &[T], n: usize, bitwise: bool) -> (FxSet<T>, bool) {
    let mut heap: BinaryHeap<T> = BinaryHeap::new();
    let mut seen: FxSet<T> = FxSet::default();
    for &r in roots {
        if seen.insert(r) {
            heap.push(r);
        }
    }
    let mut cnt = 0;
    let mut ch = vec![];
    let mut cut = FxSet::default();
    let mut complete = true;
    while let Some(t) = heap.pop() {
        let op = tm.op(t);
        if op == Op::Const || op == Op::Var {
            continue;
        }
        let arith = bitwise && matches!(op, Op::Lin | Op::Mul | Op::Lookup | Op::UDiv | Op::URem | Op::SDiv | Op::SRem);
        if (cnt >= n || arith) && !roots.contains(&t) {
            cut.insert(t);
            complete = false;
            continue;
        }
        cnt += 1;
        ch.clear();
        tm.children(t, &mut ch);
        for &c in &ch {
            if seen.insert(c) {
                heap.push(c);
            }
        }
    }
    (cut, complete)
}

/// bit i of t, with bitwise operations pushed down to single bits
fn bit(tm: &mut Terms, t: T, i: u16, memo: &mut FxMap<(T, u16), T>) -> Option<T> {
    if let Some(&r) = memo.get(&(t, i)) {
        return Some(r);
    }
    if memo.len() > 6000 {
        return None;
    }
    let k = tm.key(t);
    let r = match k.op {
        Op::Xor | Op::And | Op::Or => {
            let mut v = Vec::with_capacity(k.args.len());
            for &x in k.args.iter() {
                v.push(bit(tm, x, i, memo)?);
            }
            let c = k.cs[0] >> i & 1;
            match k.op {
                Op::Xor => tm.xor(&v, c),
                Op::And => tm.and(&v, c),
                _ => tm.or(&v, c),
            }
        }
        Op::Concat => {
            let mut pos = k.w;
            let mut r = None;
            for &x in k.args.iter() {
                let xw = tm.w(x);
                pos -= xw;
                if i >= pos && i < pos + xw {
                    r = Some(bit(tm, x, i - pos, memo)?);
                }
            }
            r?
        }
        Op::Extract => bit(tm, k.args[0], i + k.aux as u16, memo)?,
        Op::Ite => {
            let c = bit(tm, k.args[0], 0, memo)?;
            let x = bit(tm, k.args[1], i, memo)?;
            let y = bit(tm, k.args[2], i, memo)?;
            tm.ite(c, x, y)
        }
        _ if k.w == 1 => t,
        _ => tm.extract(t, i, i),
    };
    memo.insert((t, i), r);
    Some(r)
}

fn ladder(tm: &mut Terms, so: &mut Solver, ne: T, steps: &[(usize, bool, u64)]) -> Option<bool> {
    let mut last = usize::MAX;
    for &(n, bitwise, to) in steps {
        let (cut, complete) = make_cut(tm, &[ne], n, bitwise);
        let size = cone(tm, &[ne], Some(&cut)).len();
        if size == last {
            continue;
        }
        last = size;
        let (r, _) = so.check(tm, &[ne], Some(&cut), Duration::from_millis(to), false);
        match r {
            Res::Unsat => return Some(true),
            Res::Sat if complete => return Some(false),
            Res::Unknown if !bitwise => return None,
            _ => {}
        }
    }
    None
}

/// a - b as a sum with the proved linear relations eliminated
fn lin_diff(sw: &Sweeper, tm: &mut Terms, a: T, b: T) -> Option<(Vec<(T, u128)>, u128)> {
    let w = tm.w(a);
    let m = mask(w);
    let d = tm.sub(a, b);
    let k = tm.key(d);
    let (mut todo, mut c): (Vec<(T, u128)>, u128) = match k.op {
        Op::Const => return Some((vec![], k.cs[0])),
        Op::Lin => (k.args.iter().cloned().zip(k.cs[1..].iter().cloned()).collect(), k.cs[0]),
        _ => (vec![(d, 1)], 0),
    };
    let mut acc: std::collections::BTreeMap<T, u128> = Default::default();
    let mut steps = 0;
    while let Some((t, q)) = todo.pop() {
        if let Some((ts, c0)) = sw.rels.get(&t) {
            steps += 1;
            if steps > 2000 {
                return None;
            }
            c = c.wrapping_add(c0.wrapping_mul(q)) & m;
            for (x, y) in ts {
                todo.push((*x, y.wrapping_mul(q) & m));
            }
        } else {
            let e = acc.entry(t).or_insert(0);
            *e = e.wrapping_add(q) & m;
        }
    }
    Some((acc.into_iter().filter(|x| x.1 != 0).collect(), c))
}

/// remember that a sum proved zero, solved for its newest term with an odd coefficient
fn learn(sw: &mut Sweeper, tm: &mut Terms, a: T, b: T) {
    if sw.rels.len() > 500 {
        return;
    }
    let w = tm.w(a);
    let m = mask(w);
    if let Some((ts, c)) = lin_diff(sw, tm, a, b) {
        if ts.len() < 2 || ts.len() > 12 {
            return;
        }
        if let Some(&(p, q)) = ts.iter().rev().find(|x| x.1 & 1 == 1) {
            let mut inv = 1u128; // of -q
            let nq = q.wrapping_neg();
            for _ in 0..8 {
                inv = inv.wrapping_mul(2u128.wrapping_sub(nq.wrapping_mul(inv)));
            }
            let rest: Vec<(T, u128)> = ts.iter().filter(|x| x.0 != p).map(|x| (x.0, x.1.wrapping_mul(inv) & m)).collect();
            sw.rels.insert(p, (rest, c.wrapping_mul(inv) & m));
        }
    }
}

fn equal(sw: &mut Sweeper, tm: &mut Terms, so: &mut Solver, a: T, b: T) -> bool {
    let sum = tm.op(a) == Op::Lin || tm.op(b) == Op::Lin;
    if sum && !sw.rels.is_empty() {
        if let Some((ts, 0)) = lin_diff(sw, tm, a, b) {
            if ts.is_empty() {
                return true;
            }
        }
    }
    let r = equal2(sw, tm, so, a, b);
    if r && sum {
        learn(sw, tm, a, b);
    }
    r
}

fn equal2(sw: &mut Sweeper, tm: &mut Terms, so: &mut Solver, a: T, b: T) -> bool {
    let e = tm.eq(a, b);
    if let Some(c) = tm.as_const(e) {
        return c == 1;
    }
    sw.tried += 1;
    let ne = tm.not(e);
    if let Some(r) = ladder(tm, so, ne, &[(8, false, 300), (24, true, 300)]) {
        return r;
    }
    let w = tm.w(a);
    let bw = |o: Op| matches!(o, Op::Xor | Op::Concat | Op::Extract | Op::Ite);
    if w <= 64 && (bw(tm.op(a)) || bw(tm.op(b))) {
        let mut memo = FxMap::default();
        let mut open = vec![];
        let mut gave_up = false;
        for i in 0..w {
            match (bit(tm, a, i, &mut memo), bit(tm, b, i, &mut memo)) {
                (Some(x), Some(y)) => {
                    let e = tm.eq(x, y);
                    match tm.as_const(e) {
                        Some(1) => {}
                        Some(_) => return false,
                        None => open.push(e),
                    }
                }
                _ => {
                    gave_up = true;
                    if std::env::var("SYMIR_DEBUG").is_ok() {eprintln!("gave up {}", memo.len());}
                    break;
                }
            }
        }
        if !gave_up {
            if open.is_empty() {
                return true;
            }
            if std::env::var("SYMIR_DEBUG").is_ok() {
                eprintln!("open bits {} of {w}: {}", open.len(), show(tm, open[0], 3));
            }
            let mut all = true;
            for e in open {
                let ne = tm.not(e);
                match ladder(tm, so, ne, &[(40, true, 300), (100, false, 500)]) {
                    Some(true) => {}
                    Some(false) => return false,
                    None => {
                        all = false;
                        break;
                    }
                }
            }
            if all {
                return true;
            }
        }
    }
    ladder(tm, so, ne, &[(60, true, 500), (60, false, 500), (300, false, 1000), (1500, false, 2000)]).unwrap_or(false)
}

fn conjuncts(tm: &Terms, g: T) -> Vec<T> {
    let k = tm.key(g);
    if k.op == Op::And && k.w == 1 && k.cs[0] == 1 {
        k.args.to_vec()
    } else {
        vec![g]
    }
}

fn sweep(sw: &mut Sweeper, tm: &mut Terms, so: &mut Solver, roots: &[T], deadline: Instant, verbose: u32) {
    let mut nodes = cone(tm, roots, None);
    // sums absorb disjunctions; the disjunctions are still useful as candidates
    let have: FxSet<T> = nodes.iter().cloned().collect();
    let mut extra: Vec<T> = tm.lin_ors.iter().filter(|t| !have.contains(t) && tm.key(**t).args.iter().all(|a| have.contains(a))).cloned().collect();
    if !extra.is_empty() {
        nodes.append(&mut extra);
        nodes.sort_unstable();
    }
    let mut ch = vec![];
    for t in nodes {
        if sw.map.contains_key(&t) {
            continue;
        }
        let op = tm.op(t);
        if op == Op::Const || op == Op::Var {
            sw.map.insert(t, t);
            if op == Op::Var {
                let s = sw.simulate(tm, t);
                let key = (tm.w(t), Sweeper::sig(&s));
                sw.classes.entry(key).or_default().push(t);
            }
            continue;
        }
        ch.clear();
        tm.children(t, &mut ch);
        let c2: Vec<T> = ch.iter().map(|c| sw.map.get(c).cloned().unwrap_or(*c)).collect();
        let mut n = if c2 == ch { t } else { tm.rebuild(t, &c2) };
        if let Some(&m) = sw.map.get(&n) {
            n = m;
        }
        if n != t && (tm.as_const(n).is_some() || sw.map.get(&n) == Some(&n)) {
            sw.map.insert(t, n);
            continue;
        }
        // candidate equivalents
        let w = tm.w(n);
        let s = sw.simulate(tm, n);
        let key = (w, Sweeper::sig(&s));
        let mut done = false;
        if Instant::now() < deadline {
            let ones = s.iter().filter(|&&x| x == 1).count();
            let weak = w == 1 && (ones < 5 || ones > K - 5);
            if w > 1 && s.iter().all(|x| *x == s[0]) {
                let c = tm.c(w, s[0]);
                if !sw.failed.contains(&(c, n)) {
                    if equal(sw, tm, so, n, c) {
                        sw.map.insert(t, c);
                        sw.map.insert(n, c);
                        sw.merged += 1;
                        done = true;
                    } else {
                        sw.failed.insert((c, n));
                    }
                }
            } else if !weak {
                let cands: Vec<T> = sw.classes.get(&key).cloned().unwrap_or_default();
                for r in cands.into_iter().take(3) {
                    if r == n {
                        continue;
                    }
                    if sw.failed.contains(&(r, n)) {
                        continue;
                    }
                    if equal(sw, tm, so, r, n) {
                        if verbose > 1 {
                            eprintln!("MERGED t{r} t{n}:\n{}\n{}", show(tm, r, 3), show(tm, n, 3));
                        }
                        sw.map.insert(t, r);
                        sw.map.insert(n, r);
                        sw.merged += 1;
                        done = true;
                        break;
                    } else {
                        if verbose > 1 {
                            eprintln!("FAILED pair t{r} t{n}:\n{}\n{}", show(tm, r, 3), show(tm, n, 3));
                        }
                        sw.failed.insert((r, n));
                    }
                }
            }
        }
        if !done {
            sw.map.insert(t, n);
            sw.map.insert(n, n);
            let v = sw.classes.entry(key).or_default();
            if v.len() < 4 && !v.contains(&n) {
                v.push(n);
            }
        }
    }
}

pub fn prove(sw: &mut Sweeper, tm: &mut Terms, so: &mut Solver, pc: &[T], goal: T, timeout: Duration, _models: &[Rc<Model>], verbose: u32) -> (Res, Vec<(u32, u128)>) {
    let t0 = Instant::now();
    let deadline = t0 + timeout;
    let mut all: Vec<T> = pc.to_vec();
    all.push(goal);
    let size = cone(tm, &all, None).len();
    if verbose > 0 {
        eprintln!("prove: cone {size} nodes, {} conjuncts, pc {}", conjuncts(tm, goal).len(), pc.len());
    }
    if verbose > 1 {
        for g in conjuncts(tm, goal) {
            let k = tm.key(g);
            if k.op == Op::Eq {
                diff(tm, k.args[0], k.args[1], &mut FxSet::default(), &mut 3);
            }
        }
    }
    // 0. a refuting assignment among the simulation patterns, confirmed by the solver
    {
        let sims: Vec<Rc<[u128; K]>> = all.iter().map(|t| sw.simulate(tm, *t)).collect();
        for i in 0..K {
            if sims[..pc.len()].iter().all(|s| s[i] == 1) && sims[pc.len()][i] == 0 {
                let mut roots = pc.to_vec();
                roots.push(tm.not(goal));
                for v in cone(tm, &all, None) {
                    let k = tm.key(v);
                    if k.op == Op::Var {
                        let x = sw.pat(i, k.aux) & mask(k.w);
                        let c = tm.c(k.w, x);
                        let e = tm.eq(v, c);
                        roots.push(e);
                    }
                }
                sw.final_queries += 1;
                let (r, m) = so.check(tm, &roots, None, Duration::from_secs(20).min(timeout), true);
                if r == Res::Sat {
                    return (r, m);
                }
                break;
            }
        }
    }
    // 1. small problems directly
    {
        let ng = tm.not(goal);
        let mut roots = pc.to_vec();
        roots.push(ng);
        let to = if size < 400 { 10_000 } else if size < 4000 { 500 } else { 0 };
        let to = Duration::from_millis(to).min(timeout);
        if to > Duration::ZERO {
            sw.final_queries += 1;
            let (r, m) = so.check(tm, &roots, None, to, true);
            if r != Res::Unknown {
                return (r, m);
            }
        }
    }
    if size >= 400 {
        if let Some(m) = directed(sw, tm, so, pc, goal, goal, (timeout / 20).min(Duration::from_secs(4))) {
            return (Res::Sat, m);
        }
    }
    // 2. sweep
    sweep(sw, tm, so, &[goal], t0 + timeout.mul_f32(0.7), verbose);
    let g2 = sw.map.get(&goal).cloned().unwrap_or(goal);
    if verbose > 0 {
        eprintln!("sweep: tried {} merged {} in {:?}; goal now {}", sw.tried, sw.merged, t0.elapsed(), if tm.is_true(g2) { "true".to_string() } else { format!("{} nodes", cone(tm, &[g2], None).len()) });
    }
    if tm.is_true(g2) {
        return (Res::Unsat, vec![]);
    }
    if let Some(m) = directed(sw, tm, so, pc, g2, goal, (timeout / 8).min(Duration::from_secs(30))) {
        return (Res::Sat, m);
    }
    // 3. final queries
    let mut unknown = false;
    let cj = conjuncts(tm, g2);
    let nc = cj.len() as u32;
    for c in cj {
        let left = deadline.saturating_duration_since(Instant::now());
        if left < Duration::from_millis(20) {
            return (Res::Unknown, vec![]);
        }
        let nc_ = tm.not(c);
        let mut roots = pc.to_vec();
        roots.push(nc_);
        sw.final_queries += 1;
        let (r, m) = so.check(tm, &roots, None, left / 1.max(nc.min(4)), true);
        match r {
            Res::Sat => return (r, m),
            Res::Unknown => unknown = true,
            Res::Unsat => {}
        }
    }
    if unknown {
        (Res::Unknown, vec![])
    } else {
        (Res::Unsat, vec![])
    }
}

/// Inputs steered into the rare cases: for conditions that no simulation pattern decides both ways the
/// solver is asked for an input that takes the other side; such an input that refutes the goal is a
/// counterexample (confirmed by the solver with all inputs fixed).
fn directed(sw: &mut Sweeper, tm: &mut Terms, so: &mut Solver, pc: &[T], around: T, goal: T, budget: Duration) -> Option<Vec<(u32, u128)>> {
    let end = Instant::now() + budget;
    let mut all = pc.to_vec();
    all.push(goal);
    let vars: Vec<T> = cone(tm, &all, None).into_iter().filter(|&t| tm.op(t) == Op::Var).collect();
    let mut cand: Vec<(T, bool)> = vec![];
    for t in cone(tm, &[around], None) {
        if tm.w(t) != 1 || t == around || tm.as_const(t).is_some() || tm.op(t) == Op::Var {
            continue;
        }
        let s = sw.simulate(tm, t);
        if s.iter().all(|v| *v == s[0]) {
            cand.push((t, s[0] == 1));
        }
    }
    cand.sort();
    for (t, v) in cand.into_iter().take(200) {
        let left = end.saturating_duration_since(Instant::now());
        if left < Duration::from_millis(20) {
            return None;
        }
        let want = if v { tm.not(t) } else { t };
        let mut roots = pc.to_vec();
        roots.push(want);
        let (r, m) = so.check(tm, &roots, None, left.min(Duration::from_millis(1500)), true);
        if r != Res::Sat {
            continue;
        }
        for i in 0..4 {
            let mut vals: Vec<u128> = vec![];
            for &x in &vars {
                let k = tm.key(x);
                let a = k.aux as usize;
                if vals.len() <= a {
                    vals.resize(a + 1, 0);
                }
                vals[a] = match m.iter().find(|y| y.0 as usize == a) {
                    Some(y) => y.1,
                    None => sw.pat(i, k.aux) & mask(k.w),
                };
            }
            let mo = Model::new(vals.clone());
            if pc.iter().all(|p| mo.eval(tm, *p) == 1) && mo.eval(tm, goal) == 0 {
                let mut roots = pc.to_vec();
                roots.push(tm.not(goal));
                for &x in &vars {
                    let k = tm.key(x);
                    let c = tm.c(k.w, vals[k.aux as usize]);
                    roots.push(tm.eq(x, c));
                }
                sw.final_queries += 1;
                let (r, m) = so.check(tm, &roots, None, Duration::from_secs(20), true);
                if r == Res::Sat {
                    return Some(m);
                }
            }
        }
    }
    None
}

fn show(tm: &Terms, t: T, d: u32) -> String {
    let k = tm.key(t);
    match k.op {
        Op::Const => format!("0x{:x}:{}", k.cs[0], k.w),
        Op::Var => format!("v{}", k.aux),
        _ if d == 0 => format!("t{t}:{}", k.w),
        _ => {
            let a: Vec<String> = k.args.iter().map(|x| show(tm, *x, d - 1)).collect();
            let cs: Vec<String> = k.cs.iter().map(|x| format!("{x:x}")).collect();
            format!("t{t}={:?}:{}[{}|{}]({})", k.op, k.w, k.aux, cs.join(","), a.join(" "))
        }
    }
}

/// where two terms first differ in structure (diagnostics)
fn diff(tm: &Terms, a: T, b: T, seen: &mut FxSet<(T, T)>, left: &mut u32) {
    if a == b || *left == 0 || !seen.insert((a, b)) {
        return;
    }
    let (mut ca, mut cb) = (vec![], vec![]);
    tm.children(a, &mut ca);
    tm.children(b, &mut cb);
    let (ka, kb) = (tm.key(a), tm.key(b));
    if ka.op == kb.op && ca.len() == cb.len() && ka.cs == kb.cs && !ca.is_empty() {
        let n = *left;
        for (x, y) in ca.iter().zip(&cb) {
            diff(tm, *x, *y, seen, left);
        }
        if n != *left || ca.iter().zip(&cb).any(|(x, y)| x != y) {
            return;
        }
    }
    *left -= 1;
    if ka.op == Op::Lin && kb.op == Op::Lin {
        for (k, o) in [(&ka, &kb), (&kb, &ka)] {
            eprintln!("LIN const {:x}", k.cs[0]);
            for (i, x) in k.args.iter().enumerate() {
                if !o.args.iter().enumerate().any(|(j, y)| x == y && k.cs[i + 1] == o.cs[j + 1]) {
                    eprintln!("   only here: {:x} * {}", k.cs[i + 1], show(tm, *x, 3));
                }
            }
        }
        return;
    }
    eprintln!("DIFF\n  {}\n  {}", show(tm, a, 5), show(tm, b, 5));
}
