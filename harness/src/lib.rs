//! Harness API: natively these read a concrete input file (replay); under the symbolic engine the
//! calls are intercepted by name and introduce symbolic values / assumptions / proof obligations.
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::Mutex;

static INPUTS: Mutex<Option<HashMap<u32, String>>> = Mutex::new(None);
static LOG: Mutex<String> = Mutex::new(String::new());

fn input(id: u32) -> Option<String> {
    black_box(INPUTS.lock().unwrap().as_ref().and_then(|m| m.get(&id).cloned()))
}
/// symbolic real in [lo, hi]
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_f64(id: u32, lo: f64, hi: f64) -> f64 {
    let v: f64 = match input(id) { Some(s) => s.parse().unwrap(), None => lo };
    black_box(if v < lo { lo } else if v > hi { hi } else { v })
}
/// symbolic integer in [lo, hi]
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_i64(id: u32, lo: i64, hi: i64) -> i64 {
    let v: i64 = match input(id) { Some(s) => s.parse().unwrap(), None => lo };
    black_box(v.clamp(lo, hi))
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_assume(c: bool) {
    if !black_box(c) { eprintln!("ASSUME-FAILED"); std::process::exit(3); }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_check(c: bool, id: u32) {
    if !black_box(c) {
        eprintln!("CHECK-FAILED {id}\n{}", LOG.lock().unwrap());
        std::process::exit(1);
    }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_cover(id: u32) { black_box(id); }
/// enumerate the (few) feasible values of x: one path per value
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_fix_i64(x: i64) -> i64 { black_box(x) }
/// fork on c: both outcomes are explored separately with a concrete c
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_decide(c: bool) -> bool { black_box(c) }
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_trace(id: u32, x: f64) {
    use std::fmt::Write;
    let _ = writeln!(LOG.lock().unwrap(), "trace {id} = {x:e}");
}
/// End the path: nothing after this is part of the claim.
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vp_end() { black_box(()); }

#[inline]
pub fn near(a: f64, b: f64, tol: f64) -> bool { let d = a - b; d <= tol && d >= -tol }

pub fn replay_main(table: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    let name = &a[1];
    if let Some(p) = a.get(2) {
        let mut m = HashMap::new();
        for l in std::fs::read_to_string(p).unwrap().lines() {
            let mut it = l.split_whitespace();
            if let (Some(k), Some(v)) = (it.next(), it.next()) { m.insert(k.parse().unwrap(), v.to_string()); }
        }
        *INPUTS.lock().unwrap() = Some(m);
    }
    for (n, f) in table {
        if n == name {
            f();
            println!("OK");
            std::process::exit(0);
        }
    }
    eprintln!("no harness {name}");
    std::process::exit(4);
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[unsafe(no_mangle)] #[inline(never)] pub extern "C" fn $name() { $body } )*
        fn main() { $crate::replay_main(&[$((stringify!($name), $name as extern "C" fn())),*]); }
    };
}

pub mod toy;
pub mod sc;
pub mod alm;
pub mod ob;
pub mod od;
