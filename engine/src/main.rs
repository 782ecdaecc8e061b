mod exec;
mod ir;
mod sat;
mod solver;
mod sweep;
mod term;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() {
    let mut it = std::env::args().skip(1);
    let mut ll = String::new();
    let mut func = String::new();
    let mut args: Vec<u64> = vec![];
    let mut timeout = 600.0f64;
    let mut feas = 20.0f64;
    let mut prove = 300.0f64;
    let mut concrete = None;
    let mut verbose = 0;
    let mut force_join = None;
    let mut dump = None;
    let mut solver_cmd = "z3-new -in".to_string();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--ll" => ll = it.next().unwrap(),
            "--func" => func = it.next().unwrap(),
            "--arg" => args.push(it.next().unwrap().parse().unwrap()),
            "--timeout" => timeout = it.next().unwrap().parse().unwrap(),
            "--feas" => feas = it.next().unwrap().parse().unwrap(),
            "--prove" => prove = it.next().unwrap().parse().unwrap(),
            "--concrete" => {
                let h = it.next().unwrap();
                concrete = Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>());
            }
            "--verbose" => verbose += 1,
            "--force-join" => force_join = it.next().unwrap().parse().ok(),
            "--dump" => dump = Some(it.next().unwrap()),
            "--solver" => solver_cmd = it.next().unwrap(),
            "--selftest" => {
                selftest();
                return;
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("cannot read the IR");
    let m = ir::Module::load(text);
    let load_t = t0.elapsed();
    let mut so = solver::Solver::new(solver_cmd.split_whitespace().map(|x| x.to_string()).collect());
    so.dump = dump;
    let cfg = exec::Cfg {
        deadline: t0 + Duration::from_secs_f64(timeout),
        feas_timeout: Duration::from_secs_f64(feas),
        prove_timeout: Duration::from_secs_f64(prove),
        concrete,
        verbose,
        force_join,
    };
    let mut e = exec::Engine::new(m, cfg, so);
    let r = e.run(&func, &args);
    if let Err(x) = &r {
        e.inconclusive.push(x.clone());
    }
    let status = if e.violation.is_some() {
        "violated"
    } else if !e.inconclusive.is_empty() {
        "inconclusive"
    } else {
        "holds"
    };
    let mut o = String::from("{");
    o.push_str(&format!("\"status\":{},", js(status)));
    if let Some(v) = &e.violation {
        let hex: String = v.model.iter().map(|b| format!("{b:02x}")).collect();
        o.push_str(&format!("\"violation\":{{\"kind\":{},\"id\":{},\"model\":\"{}\"}},", js(&v.kind), v.id, hex));
    }
    let inc: Vec<String> = e.inconclusive.iter().take(5).map(|x| js(x)).collect();
    o.push_str(&format!("\"inconclusive\":[{}],", inc.join(",")));
    let rc: Vec<String> = e.reached.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    o.push_str(&format!("\"reached\":{{{}}},", rc.join(",")));
    let rc: Vec<String> = e.checked_ids.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    o.push_str(&format!("\"checked\":{{{}}},", rc.join(",")));
    let fns: Vec<String> = e.executed.iter().map(|g| js(&e.m.globals[*g as usize].name)).collect();
    o.push_str(&format!("\"functions\":[{}],", fns.join(",")));
    let sb: Vec<String> = e.stubs.iter().map(|g| js(g)).collect();
    o.push_str(&format!("\"stubs\":[{}],", sb.join(",")));
    let pn: Vec<String> = e.panics.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    o.push_str(&format!("\"panics\":{{{}}},", pn.join(",")));
    let ot: Vec<String> = e.outputs.iter().map(|b| js(&b.iter().map(|x| format!("{x:02x}")).collect::<String>())).collect();
    o.push_str(&format!("\"outputs\":[{}],", ot.join(",")));
    let er: Vec<String> = e.solver.errors.iter().map(|x| js(x)).collect();
    o.push_str(&format!("\"solver_errors\":[{}],", er.join(",")));
    o.push_str(&format!(
        "\"sym_bytes\":{},\"insts\":{},\"forks\":{},\"merges\":{},\"paths\":{},\"checks\":{},\"checks_by_simplification\":{},\"feasibility_queries\":{},\"terms\":{},\"max_states\":{},",
        e.max_nsym, e.stats.insts, e.stats.forks, e.stats.merges, e.stats.paths, e.stats.checks, e.stats.checks_trivial, e.stats.feas, e.tm.n.len(), e.stats.max_states
    ));
    o.push_str(&format!(
        "\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"sweep_tried\":{},\"sweep_merged\":{},\"final_queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\"sat_queries\":{},\"sat_unsat\":{},\"sat_cross_checked\":{},\"sat_s\":{:.3},\"canon_fail\":{},\"sat_conflicts\":{},\"sat_props\":{},\"sat_vars\":{},\"join\":{}}}",
        e.solver.queries, e.solver.unsat, e.solver.sat, e.solver.unknown, e.sweeper.tried, e.sweeper.merged, e.sweeper.final_queries,
        e.solver.time.as_secs_f64(), e.solver.max_query.as_secs_f64(), load_t.as_secs_f64(), t0.elapsed().as_secs_f64(), e.sat_queries, e.sat_unsat, e.sat_cross, e.sat_time.as_secs_f64(), e.stats.canon_fail, e.blaster.sat.conflicts, e.blaster.sat.propagations, e.blaster.sat.nvars(), e.asked_join
    ));
    println!("{o}");
    if verbose > 0 {
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((g, b), n) in v.into_iter().take(12) {
            eprintln!("forks {n} in {} block {b}", e.m.globals[*g as usize].name);
        }
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    // skip destructors of large structures
    drop(std::mem::replace(&mut e.solver, solver::Solver::new(vec![])));
    std::process::exit(0);
}

/// random terms: simplified construction against direct evaluation and against the solver
fn selftest() {
    use term::*;
    let mut rng = 12345u64;
    let mut next = move || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let mut bad = 0;
    let mut n = 0;
    let mut so = solver::Solver::new(vec!["z3-new".into(), "-in".into()]);
    for round in 0..400 {
        let mut tm = Terms::new();
        // pairs: (term, reference value under the patterns)
        const K: usize = 12;
        let mut vals: Vec<Vec<u128>> = vec![];
        let mut pool: Vec<(T, [u128; K])> = vec![];
        for v in 0..4u32 {
            let t = tm.var(v, 8);
            let mut x = [0u128; K];
            for k in 0..K {
                x[k] = match k {
                    0 => 0,
                    1 => 0xff,
                    2 => 0x80,
                    3 => 1,
                    _ => next() as u128 & 0xff,
                };
            }
            vals.push(x.to_vec());
            pool.push((t, x));
        }
        for w in [8u16, 16, 32, 64] {
            for _ in 0..3 {
                let c = match next() % 6 {
                    0 => 0,
                    1 => 1,
                    2 => mask(w),
                    3 => 1u128 << (next() % w as u64),
                    4 => (next() % 16) as u128,
                    _ => next() as u128 & mask(w),
                };
                let t = tm.c(w, c);
                pool.push((t, [c; K]));
            }
        }
        for _ in 0..120 {
            let pick = |next: &mut dyn FnMut() -> u64, pool: &Vec<(T, [u128; K])>| pool[(next() % pool.len() as u64) as usize];
            let (a, va) = pick(&mut next, &pool);
            let w = tm.w(a);
            // partner of the same width
            let same: Vec<(T, [u128; K])> = pool.iter().filter(|x| tm.w(x.0) == w).cloned().collect();
            let (b, vb) = same[(next() % same.len() as u64) as usize];
            let m = mask(w);
            let op = match round % 4 {
                0 => [3, 4, 5, 6, 0, 24, 25][(next() % 7) as usize],
                1 => [3, 4, 5, 6, 17, 18, 0, 24, 25, 25, 15][(next() % 11) as usize],
                _ => next() % 26,
            };
            let mut out = [0u128; K];
            macro_rules! each {
                ($f:expr) => {
                    for k in 0..K {
                        out[k] = $f(va[k], vb[k]);
                    }
                };
            }
            let t = match op {
                0 => {
                    each!(|x: u128, y: u128| x.wrapping_add(y) & m);
                    tm.add(a, b)
                }
                1 => {
                    each!(|x: u128, y: u128| x.wrapping_sub(y) & m);
                    tm.sub(a, b)
                }
                2 => {
                    each!(|x: u128, y: u128| x.wrapping_mul(y) & m);
                    tm.mul(a, b)
                }
                3 => {
                    each!(|x: u128, y: u128| x & y);
                    tm.and2(a, b)
                }
                4 => {
                    each!(|x: u128, y: u128| x | y);
                    tm.or2(a, b)
                }
                5 => {
                    each!(|x: u128, y: u128| x ^ y);
                    tm.xor2(a, b)
                }
                6 => {
                    each!(|x: u128, _y| !x & m);
                    tm.not(a)
                }
                7 => {
                    each!(|x: u128, y: u128| (x == y) as u128);
                    tm.eq(a, b)
                }
                8 => {
                    each!(|x: u128, y: u128| (x < y) as u128);
                    tm.ult(a, b)
                }
                9 => {
                    each!(|x: u128, y: u128| (sext(x, w) < sext(y, w)) as u128);
                    tm.slt(a, b)
                }
                10 => {
                    each!(|x: u128, y: u128| if y >= w as u128 { 0 } else { (x << y) & m });
                    tm.shift(Op::Shl, a, b)
                }
                11 => {
                    each!(|x: u128, y: u128| if y >= w as u128 { 0 } else { x >> y });
                    tm.shift(Op::LShr, a, b)
                }
                12 => {
                    each!(|x: u128, y: u128| (sext(x, w) >> y.min(w as u128 - 1)) as u128 & m);
                    tm.shift(Op::AShr, a, b)
                }
                13 => {
                    each!(|x: u128, y: u128| if y == 0 { m } else { x / y });
                    tm.div(Op::UDiv, a, b)
                }
                14 => {
                    each!(|x: u128, y: u128| if y == 0 { x } else { x % y });
                    tm.div(Op::URem, a, b)
                }
                15 if w < 64 && w > 1 => {
                    each!(|x: u128, _y| x);
                    tm.zext(a, w * 2)
                }
                16 if w < 64 && w > 1 => {
                    each!(|x: u128, _y| sext(x, w) as u128 & mask(2 * w));
                    tm.sext(a, w * 2)
                }
                17 if w > 8 => {
                    let lo = (next() % (w as u64 - 7)) as u16;
                    each!(|x: u128, _y| (x >> lo) & 0xff);
                    tm.extract(a, lo + 7, lo)
                }
                18 if w > 1 && w <= 32 => {
                    each!(|x: u128, y: u128| x << w | y);
                    tm.concat(&[a, b])
                }
                19 => {
                    let bools: Vec<(T, [u128; K])> = pool.iter().filter(|x| tm.w(x.0) == 1).cloned().collect();
                    if bools.is_empty() {
                        continue;
                    }
                    let (c, vc) = bools[(next() % bools.len() as u64) as usize];
                    for k in 0..K {
                        out[k] = if vc[k] == 1 { va[k] } else { vb[k] };
                    }
                    tm.ite(c, a, b)
                }
                20 if w.is_power_of_two() && w >= 8 => {
                    each!(|x: u128, y: u128| {
                        let s = (y % w as u128) as u32;
                        if s == 0 { x } else { (x << s | x >> (w as u32 - s)) & m }
                    });
                    tm.rotl(a, b)
                }
                21 if w == 8 => {
                    // lookup with a random table
                    let n = [2usize, 5, 16, 200, 256][(next() % 5) as usize];
                    let tab: Vec<u128> = (0..n).map(|_| next() as u128 & 0xff).collect();
                    let ents: Vec<T> = tab.iter().map(|&x| tm.c(8, x)).collect();
                    each!(|x: u128, _y| tab[(x as usize).min(n - 1)]);
                    tm.lookup(a, ents)
                }
                22 if w >= 8 => {
                    each!(|x: u128, _y| {
                        if x == 0 { w as u128 } else { (x.leading_zeros() - (128 - w as u32)) as u128 }
                    });
                    tm.ctlz(a)
                }
                23 if w >= 8 => {
                    each!(|x: u128, y: u128| if x < y { x } else { y });
                    let c = tm.ult(a, b);
                    tm.ite(c, a, b)
                }
                24 if w > 1 => {
                    // selection by a constant mask
                    let k = match next() % 3 {
                        0 => next() as u128 & m,
                        1 => mask((next() % w as u64) as u16),
                        _ => (next() & next()) as u128 & m,
                    };
                    let kc = tm.c(w, k);
                    let x = tm.and2(a, kc);
                    let nk = tm.c(w, !k & m);
                    let y = tm.and2(b, nk);
                    each!(|x: u128, y: u128| x & k | y & !k & m);
                    match next() % 3 {
                        0 => tm.add(x, y),
                        1 => tm.or2(x, y),
                        _ => tm.xor2(x, y),
                    }
                }
                25 if w.is_power_of_two() && w >= 8 => {
                    // a rotation written out, with and without its special cases
                    let mc = tm.c(w, w as u128 - 1);
                    let wc = tm.c(w, w as u128);
                    let z = tm.c(w, 0);
                    let s = tm.and2(b, mc);
                    let inv = tm.sub(wc, s);
                    let sh = next() % 6;
                    let inv = if sh == 0 || sh == 4 { tm.and2(inv, mc) } else { inv };
                    let l = tm.shift(Op::Shl, a, s);
                    let mut r = tm.shift(Op::LShr, a, inv);
                    let s0 = tm.eq(s, z);
                    if sh == 2 {
                        r = tm.ite(s0, z, r);
                    }
                    if sh == 5 {
                        let g = tm.ult(inv, wc);
                        r = tm.ite(g, r, z);
                    }
                    let o = tm.or2(l, r);
                    each!(|x: u128, y: u128| {
                        let s = (y % w as u128) as u32;
                        if s == 0 { x } else { (x << s | x >> (w as u32 - s)) & m }
                    });
                    if sh == 3 { tm.ite(s0, a, o) } else { o }
                }
                _ => continue,
            };
            n += 1;
            // evaluation of the simplified term
            for k in 0..K {
                let md = exec::Model::new(vals.iter().map(|v| v[k]).collect());
                let got = md.eval(&tm, t);
                if got != out[k] {
                    bad += 1;
                    println!("selftest mismatch op {op} width {w} got {got:x} expected {:x}", out[k]);
                }
                let nd = &tm.n[t as usize];
                if out[k] & nd.k0 != 0 || !out[k] & nd.k1 != 0 || out[k] < nd.lo || out[k] > nd.hi || sext(out[k], nd.k.w) < nd.slo || sext(out[k], nd.k.w) > nd.shi {
                    bad += 1;
                    println!("selftest: bad range/bits op {op} width {w}");
                }
            }
            pool.push((t, out));
        }
        // the SMT translation agrees with the evaluation: fix the inputs and ask for a different value
        if round % 4 == 0 {
            let k = (next() % K as u64) as usize;
            let mut roots = vec![];
            for v in 0..4u32 {
                let t = tm.var(v, 8);
                let c = tm.c(8, vals[v as usize][k]);
                roots.push(tm.eq(t, c));
            }
            let mut diff = vec![];
            let items: Vec<(T, [u128; K])> = pool.clone();
            for (t, o) in items {
                let w = tm.w(t);
                let c = tm.c(w, o[k]);
                let e = tm.ne(t, c);
                diff.push(e);
            }
            let d = tm.or(&diff, 0);
            roots.push(d);
            let mut bl = sat::Blaster::new();
            let (r, _) = bl.check(&tm, &roots, 1 << 20);
            if r != sat::Ans::Unsat {
                bad += 1;
                println!("selftest: bit blaster disagrees with evaluation (round {round}, {r:?})");
            }
            let n = roots.len() - 1;
            let (r, _) = bl.check(&tm, &roots[..n], 1 << 20);
            if r != sat::Ans::Sat {
                bad += 1;
                println!("selftest: bit blaster lost the model (round {round}, {r:?})");
            }
            let (r, _) = so.check(&tm, &roots, None, Duration::from_secs(20), false);
            if r != solver::Res::Unsat {
                bad += 1;
                println!("selftest: solver disagrees with evaluation (round {round}, {:?}, {:?})", r, so.errors);
            }
        }
    }
    println!("{{\"selftest_terms\":{n},\"mismatches\":{bad}}}");
    std::process::exit(if bad == 0 { 0 } else { 1 });
}

fn main() {
    // deep recursion over terms needs a large stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        println!("{{\"status\":\"error\",\"inconclusive\":[\"engine panic\"]}}");
        std::process::exit(3);
    }
}
