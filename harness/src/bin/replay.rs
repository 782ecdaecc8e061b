//! Runs one harness natively on a counterexample (or on random inputs with --random SEED COUNT, for
//! the engine's validation). Prints PASS, FAIL <what>, or SKIP (assumption not met); with --out the outputs.
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};

#[derive(Default)]
struct St {
    model: Vec<u8>,
    pos: usize,
    panic_ok: bool,
    fail: Option<String>,
    outs: Vec<String>,
    reached: Vec<u32>,
}
struct Skip;
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }
fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}

#[unsafe(no_mangle)]
pub extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    st(|s| {
        for i in 0..n {
            let v = s.model.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            unsafe { *p.add(i) = v };
        }
    })
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        panic_any(Skip);
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_check(c: bool, id: u32) {
    if !c {
        st(|s| {
            s.fail.get_or_insert(format!("check {id}"));
        });
        panic_any(Skip);
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_check_eq(a: *const u8, b: *const u8, n: usize, id: u32) {
    let (a, b) = unsafe { (std::slice::from_raw_parts(a, n), std::slice::from_raw_parts(b, n)) };
    if a != b {
        let h = |x: &[u8]| x.iter().map(|v| format!("{v:02x}")).collect::<String>();
        let m = format!("check {id}: got {} expected {}", h(a), h(b));
        st(|s| {
            s.fail.get_or_insert(m);
        });
        panic_any(Skip);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn sym_panic_ok(c: bool) {
    st(|s| s.panic_ok = c)
}
#[unsafe(no_mangle)]
pub extern "C" fn sym_reach(id: u32) {
    st(|s| s.reached.push(id))
}
#[unsafe(no_mangle)]
pub extern "C" fn sym_nomerge(_: u8) {}
#[unsafe(no_mangle)]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
pub extern "C" fn sym_split(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
pub extern "C" fn sym_out(p: *const u8, n: usize) {
    let a = unsafe { std::slice::from_raw_parts(p, n) };
    st(|s| s.outs.push(a.iter().map(|v| format!("{v:02x}")).collect()))
}

fn run(f: harness::H, args: &[u64], model: Vec<u8>) -> (String, Vec<String>, Vec<u32>) {
    st(|s| *s = St { model, ..St::default() });
    let a = |i: usize| args.get(i).copied().unwrap_or(0);
    let r = catch_unwind(AssertUnwindSafe(|| f(a(0), a(1), a(2), a(3))));
    let s = st(std::mem::take);
    let v = match (r, s.fail) {
        (_, Some(f)) => format!("FAIL {f}"),
        (Ok(()), None) => "PASS".into(),
        (Err(e), None) => {
            if e.is::<Skip>() {
                "SKIP".into()
            } else if s.panic_ok {
                "PASS refused".into()
            } else {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                format!("FAIL panic: {m}")
            }
        }
    };
    (v, s.outs, s.reached)
}

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let av: Vec<String> = std::env::args().skip(1).collect();
    // replay FUNC a,b,c,d HEX [--out]
    let f = harness::lookup(&av[0]).expect("no such harness");
    let args: Vec<u64> = av[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let (v, outs, reached) = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || run(f, &args, unhex(av.get(2).map(|s| s.as_str()).unwrap_or(""))))
        .unwrap()
        .join()
        .unwrap();
    println!("{v}");
    if std::env::args().any(|a| a == "--out") {
        println!("outs {}", outs.join(" "));
        println!("reached {reached:?}");
    }
}
