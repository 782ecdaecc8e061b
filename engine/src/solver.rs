//! SMT back end: one long-lived z3 process, one self-contained script per query.
use crate::term::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

pub struct Solver {
    cmd: Vec<String>,
    proc_: Option<Proc>,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub dump: Option<String>,
    pub errors: Vec<String>,
    pub max_query: Duration,
}

impl Solver {
    pub fn new(cmd: Vec<String>) -> Self {
        Solver {
            cmd,
            proc_: None,
            queries: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            time: Duration::ZERO,
            dump: None,
            errors: vec![],
            max_query: Duration::ZERO,
        }
    }
    fn start(&mut self) {
        let mut child = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the SMT solver");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(stdout);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.proc_ = Some(Proc { child, stdin, rx });
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.proc_.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    /// Is the conjunction of `roots` satisfiable?  Nodes in `cut` are treated as free variables.
    pub fn check(&mut self, tm: &Terms, roots: &[T], cut: Option<&FxSet<T>>, timeout: Duration, want_model: bool) -> (Res, Vec<(u32, u128)>) {
        let t0 = Instant::now();
        let (script, vars) = emit(tm, roots, cut);
        let mut s = String::with_capacity(script.len() + 200);
        s.push_str("(reset)\n(set-option :print-success false)\n");
        let _ = write!(s, "(set-option :timeout {})\n", timeout.as_millis());
        s.push_str("(set-logic QF_BV)\n");
        s.push_str(&script);
        s.push_str("(check-sat)\n(echo \"@done\")\n");
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{d}/q{}.smt2", self.queries), &s);
        }
        self.queries += 1;
        if self.proc_.is_none() {
            self.start();
        }
        let p = self.proc_.as_mut().unwrap();
        if p.stdin.write_all(s.as_bytes()).is_err() || p.stdin.flush().is_err() {
            self.kill();
            self.unknown += 1;
            return (Res::Unknown, vec![]);
        }
        let hard = t0 + timeout + Duration::from_secs(5);
        let mut res = Res::Unknown;
        let mut err = false;
        loop {
            let now = Instant::now();
            let left = if hard > now { hard - now } else { Duration::ZERO };
            match self.proc_.as_ref().unwrap().rx.recv_timeout(left) {
                Ok(l) => {
                    let l = l.trim();
                    if l == "sat" {
                        res = Res::Sat
                    } else if l == "unsat" {
                        res = Res::Unsat
                    } else if l.starts_with("(error") {
                        err = true;
                        if self.errors.len() < 5 {
                            self.errors.push(l.to_string());
                        }
                    } else if l.contains("@done") {
                        break;
                    }
                }
                Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => {
                    self.kill();
                    self.unknown += 1;
                    self.time += t0.elapsed();
                    self.max_query = self.max_query.max(t0.elapsed());
                    return (Res::Unknown, vec![]);
                }
            }
        }
        if err {
            res = Res::Unknown;
        }
        let mut model = vec![];
        if res == Res::Sat && want_model && !vars.is_empty() {
            let mut q = String::from("(get-value (");
            for v in &vars {
                let _ = write!(q, "v{} ", v.0);
            }
            q.push_str("))\n(echo \"@done\")\n");
            let p = self.proc_.as_mut().unwrap();
            let _ = p.stdin.write_all(q.as_bytes());
            let _ = p.stdin.flush();
            let mut txt = String::new();
            loop {
                match self.proc_.as_ref().unwrap().rx.recv_timeout(Duration::from_secs(30)) {
                    Ok(l) => {
                        if l.contains("@done") {
                            break;
                        }
                        txt.push_str(&l);
                        txt.push(' ');
                    }
                    Err(_) => {
                        self.kill();
                        break;
                    }
                }
            }
            model = parse_model(&txt);
        }
        match res {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.time += t0.elapsed();
        self.max_query = self.max_query.max(t0.elapsed());
        (res, model)
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

fn parse_model(s: &str) -> Vec<(u32, u128)> {
    let mut out = vec![];
    let toks: Vec<&str> = s.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(n) = toks[i].strip_prefix('v') {
            if let Ok(id) = n.parse::<u32>() {
                let v = toks[i + 1];
                let val = if let Some(h) = v.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()
                } else if let Some(h) = v.strip_prefix("#b") {
                    u128::from_str_radix(h, 2).ok()
                } else if v == "true" {
                    Some(1)
                } else if v == "false" {
                    Some(0)
                } else {
                    None
                };
                if let Some(x) = val {
                    out.push((id, x));
                }
                i += 2;
                continue;
            }
        }
        i += 1;
    }
    out
}

/// nodes of the cone in topological order (cut nodes included, their children not)
pub fn cone(tm: &Terms, roots: &[T], cut: Option<&FxSet<T>>) -> Vec<T> {
    let mut seen: FxSet<T> = FxSet::default();
    let mut st: Vec<T> = roots.to_vec();
    let mut out = vec![];
    let mut ch = vec![];
    while let Some(t) = st.pop() {
        if !seen.insert(t) {
            continue;
        }
        out.push(t);
        if cut.map_or(false, |c| c.contains(&t)) {
            continue;
        }
        ch.clear();
        tm.children(t, &mut ch);
        for &c in &ch {
            if !seen.contains(&c) {
                st.push(c);
            }
        }
    }
    out.sort_unstable();
    out
}

fn lit(s: &mut String, w: u16, v: u128) {
    if w % 4 == 0 {
        let _ = write!(s, "#x{:0width$x}", v, width = (w / 4) as usize);
    } else {
        let _ = write!(s, "#b{:0width$b}", v, width = w as usize);
    }
}

/// SMT-LIB text; free variables are named v<var index>; cut nodes c<node id>
pub fn emit(tm: &Terms, roots: &[T], cut: Option<&FxSet<T>>) -> (String, Vec<(u32, u16)>) {
    let nodes = cone(tm, roots, cut);
    let mut s = String::new();
    let mut vars = vec![];
    let mut tabs: FxSet<u32> = FxSet::default();
    let name = |s: &mut String, t: T| {
        let k = &tm.n[t as usize].k;
        match k.op {
            Op::Const => {
                if k.w == 1 {
                    s.push_str(if k.cs[0] == 1 { "true" } else { "false" });
                } else {
                    lit(s, k.w, k.cs[0])
                }
            }
            _ => {
                let _ = write!(s, "t{t}");
            }
        }
    };
    let bv = |s: &mut String, t: T| {
        let k = &tm.n[t as usize].k;
        if k.w == 1 {
            if k.op == Op::Const {
                s.push_str(if k.cs[0] == 1 { "#b1" } else { "#b0" });
            } else {
                let _ = write!(s, "(ite t{t} #b1 #b0)");
            }
        } else if k.op == Op::Const {
            lit(s, k.w, k.cs[0])
        } else {
            let _ = write!(s, "t{t}");
        }
    };
    for &t in &nodes {
        let k = &tm.n[t as usize].k;
        let w = k.w;
        if k.op == Op::Const {
            continue;
        }
        let is_cut = cut.map_or(false, |c| c.contains(&t));
        if is_cut || k.op == Op::Var {
            if k.op == Op::Var {
                vars.push((k.aux, w));
                if w == 1 {
                    let _ = write!(s, "(declare-const v{} Bool)\n(define-fun t{t} () Bool v{})\n", k.aux, k.aux);
                } else {
                    let _ = write!(s, "(declare-const v{} (_ BitVec {w}))\n(define-fun t{t} () (_ BitVec {w}) v{})\n", k.aux, k.aux);
                }
            } else if w == 1 {
                let _ = write!(s, "(declare-const t{t} Bool)\n");
            } else {
                let _ = write!(s, "(declare-const t{t} (_ BitVec {w}))\n");
                // what is known about the node is kept
                let n = &tm.n[t as usize];
                if n.k0 | n.k1 != 0 {
                    let m = n.k0 | n.k1;
                    s.push_str("(assert (= (bvand t");
                    let _ = write!(s, "{t} ");
                    lit(&mut s, w, m);
                    s.push_str(") ");
                    lit(&mut s, w, n.k1);
                    s.push_str("))\n");
                }
            }
            continue;
        }
        if k.op == Op::Lookup && tm.table_const[k.aux as usize] {
            let iw = tm.w(k.args[0]);
            if tabs.insert(k.aux * 160 + iw as u32) {
                let srt = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {w})") };
                let _ = write!(s, "(define-fun tab{}_{} ((i (_ BitVec {iw}))) {srt} ", k.aux, iw);
                mux(tm, &mut s, &tm.tables[k.aux as usize], "i", iw, &name);
                s.push_str(")\n");
            }
        }
        if w == 1 {
            let _ = write!(s, "(define-fun t{t} () Bool ");
        } else {
            let _ = write!(s, "(define-fun t{t} () (_ BitVec {w}) ");
        }
        let a = &k.args;
        let nary = |s: &mut String, opn: &str, a: &[T], c: Option<u128>| {
            let total = a.len() + c.is_some() as usize;
            if total == 1 {
                if let Some(c) = c {
                    lit(s, w, c);
                } else {
                    bv(s, a[0]);
                }
                return;
            }
            for _ in 0..total - 1 {
                let _ = write!(s, "({opn} ");
            }
            let mut first = true;
            for &x in a {
                bv(s, x);
                if !first {
                    s.push(')');
                }
                s.push(' ');
                first = false;
            }
            if let Some(c) = c {
                lit(s, w, c);
                if !first {
                    s.push(')');
                }
            }
        };
        match k.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Xor | Op::And | Op::Or if w == 1 => {
                let (o, ident) = match k.op {
                    Op::Xor => ("xor", 0),
                    Op::And => ("and", 1),
                    _ => ("or", 0),
                };
                let extra = k.cs[0] != ident;
                if a.len() == 1 && !extra {
                    name(&mut s, a[0]);
                } else if k.op == Op::Xor && extra {
                    s.push_str("(not ");
                    if a.len() == 1 {
                        name(&mut s, a[0]);
                    } else {
                        s.push_str("(xor");
                        for &x in a.iter() {
                            s.push(' ');
                            name(&mut s, x);
                        }
                        s.push(')');
                    }
                    s.push(')');
                } else {
                    let _ = write!(s, "({o}");
                    for &x in a.iter() {
                        s.push(' ');
                        name(&mut s, x);
                    }
                    if extra {
                        s.push_str(if k.cs[0] == 1 { " true" } else { " false" });
                    }
                    s.push(')');
                }
            }
            Op::Xor => nary(&mut s, "bvxor", a, if k.cs[0] != 0 { Some(k.cs[0]) } else { None }),
            Op::And => nary(&mut s, "bvand", a, if k.cs[0] != mask(w) { Some(k.cs[0]) } else { None }),
            Op::Or => nary(&mut s, "bvor", a, if k.cs[0] != 0 { Some(k.cs[0]) } else { None }),
            Op::Lin => {
                let total = a.len() + (k.cs[0] != 0) as usize;
                for _ in 0..total.saturating_sub(1) {
                    s.push_str("(bvadd ");
                }
                let mut first = true;
                for (i, &x) in a.iter().enumerate() {
                    let c = k.cs[i + 1];
                    if c == 1 {
                        bv(&mut s, x);
                    } else if c == mask(w) {
                        s.push_str("(bvneg ");
                        bv(&mut s, x);
                        s.push(')');
                    } else {
                        s.push_str("(bvmul ");
                        bv(&mut s, x);
                        s.push(' ');
                        lit(&mut s, w, c);
                        s.push(')');
                    }
                    if !first {
                        s.push(')');
                    }
                    s.push(' ');
                    first = false;
                }
                if k.cs[0] != 0 {
                    lit(&mut s, w, k.cs[0]);
                    if !first {
                        s.push(')');
                    }
                }
            }
            Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                let o = match k.op {
                    Op::Mul => "bvmul",
                    Op::UDiv => "bvudiv",
                    Op::URem => "bvurem",
                    Op::SDiv => "bvsdiv",
                    Op::SRem => "bvsrem",
                    Op::Shl => "bvshl",
                    Op::LShr => "bvlshr",
                    _ => "bvashr",
                };
                if w == 1 {
                    s.push_str("(= #b1 ");
                }
                let _ = write!(s, "({o} ");
                bv(&mut s, a[0]);
                s.push(' ');
                bv(&mut s, a[1]);
                s.push(')');
                if w == 1 {
                    s.push(')');
                }
            }
            Op::Rotl => {
                s.push_str("(bvor (bvshl ");
                bv(&mut s, a[0]);
                s.push(' ');
                bv(&mut s, a[1]);
                s.push_str(") (bvlshr ");
                bv(&mut s, a[0]);
                s.push_str(" (bvsub ");
                lit(&mut s, w, w as u128);
                s.push(' ');
                bv(&mut s, a[1]);
                s.push_str(")))");
            }
            Op::Concat => {
                s.push_str("(concat");
                for &x in a.iter() {
                    s.push(' ');
                    bv(&mut s, x);
                }
                s.push(')');
            }
            Op::Extract => {
                let lo = k.aux;
                let hi = lo + w as u32 - 1;
                if w == 1 {
                    let _ = write!(s, "(= #b1 ((_ extract {hi} {lo}) ");
                    bv(&mut s, a[0]);
                    s.push_str("))");
                } else {
                    let _ = write!(s, "((_ extract {hi} {lo}) ");
                    bv(&mut s, a[0]);
                    s.push(')');
                }
            }
            Op::SExt => {
                let _ = write!(s, "((_ sign_extend {}) ", w - tm.w(a[0]));
                bv(&mut s, a[0]);
                s.push(')');
            }
            Op::Ite => {
                s.push_str("(ite ");
                name(&mut s, a[0]);
                s.push(' ');
                name(&mut s, a[1]);
                s.push(' ');
                name(&mut s, a[2]);
                s.push(')');
            }
            Op::Eq => {
                s.push_str("(= ");
                name(&mut s, a[0]);
                s.push(' ');
                name(&mut s, a[1]);
                s.push(')');
            }
            Op::Ult | Op::Slt => {
                s.push_str(if k.op == Op::Ult { "(bvult " } else { "(bvslt " });
                bv(&mut s, a[0]);
                s.push(' ');
                bv(&mut s, a[1]);
                s.push(')');
            }
            Op::Lookup => {
                let iw = tm.w(a[0]);
                if tm.table_const[k.aux as usize] {
                    let _ = write!(s, "(tab{}_{} ", k.aux, iw);
                    bv(&mut s, a[0]);
                    s.push(')');
                } else {
                    let mut nm = String::new();
                    bv(&mut nm, a[0]);
                    mux(tm, &mut s, &tm.tables[k.aux as usize], &nm, iw, &name);
                }
            }
        }
        s.push_str(")\n");
    }
    for &r in roots {
        s.push_str("(assert ");
        name(&mut s, r);
        s.push_str(")\n");
    }
    (s, vars)
}

/// mux tree; an index past the end selects the last entry
fn mux(_tm: &Terms, s: &mut String, ents: &[T], idx: &str, iw: u16, name: &dyn Fn(&mut String, T)) {
    fn rec(s: &mut String, ents: &[T], lo: u128, bit: i32, idx: &str, name: &dyn Fn(&mut String, T)) {
        let n = ents.len() as u128;
        let at = |i: u128| ents[(i.min(n - 1)) as usize];
        let span = 1u128 << (bit + 1);
        // all the same?
        let first = at(lo);
        let endi = (lo + span).min(n);
        let same = if lo >= n { true } else { ents[lo as usize..endi as usize].iter().all(|&e| e == first) && (lo + span <= n || at(n - 1) == first) };
        if bit < 0 || same {
            name(s, first);
            return;
        }
        let _ = write!(s, "(ite (= #b1 ((_ extract {bit} {bit}) {idx})) ");
        rec(s, ents, lo + (1u128 << bit), bit - 1, idx, name);
        s.push(' ');
        rec(s, ents, lo, bit - 1, idx, name);
        s.push(')');
    }
    let need = if ents.len() <= 1 { 1 } else { 128 - (ents.len() as u128 - 1).leading_zeros() as i32 };
    if (iw as i32) > need {
        // wide index: clamp
        let _ = write!(s, "(ite (= #b{:0width$b} ((_ extract {} {need}) {idx})) ", 0, iw - 1, width = (iw as i32 - need) as usize);
        rec(s, ents, 0, need - 1, idx, name);
        s.push(' ');
        name(s, ents[ents.len() - 1]);
        s.push(')');
    } else {
        rec(s, ents, 0, iw as i32 - 1, idx, name);
    }
}
