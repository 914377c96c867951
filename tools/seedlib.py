"""make and confirm planted bugs: mk(id, prop, [(file, old, new)], demo_rs, needs, breaks); scratch copy in /tmp/seed"""
import json, os, subprocess, sys
S = "/tmp/seed"
os.environ["GIT_LFS_SKIP_SMUDGE"] = "1"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = r'''#!/bin/bash
# runs demo.rs against the library in the current directory (a checkout of the repository)
D=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export RUSTFLAGS="-C target-cpu=generic -C link-arg=-fuse-ld=lld" RUST_BACKTRACE=0
unset CARGO_TARGET_DIR
R=$PWD
EX=$R/nyx-core/examples/zz_vp_demo.rs
trap 'rm -f "$EX" "$R"/target/debug/examples/zz_vp_demo*' EXIT
cp "$D/demo.rs" "$EX" || exit 3
cargo build --workspace --exclude nyx-py --offline --example zz_vp_demo 2>"$D/build.log" || { tail -40 "$D/build.log"; exit 3; }
timeout 200 "$R/target/debug/examples/zz_vp_demo"
'''
PRE = r'''#![allow(unused_imports, dead_code)]
use anise::constants::frames::*;
use anise::prelude::*;
use hifitime::{Duration, Epoch, Unit, TimeUnits};
use nyx_space::*;
use std::sync::Arc;
fn e0() -> Epoch { Epoch::from_gregorian_utc_at_noon(2024, 3, 1) }
fn earth() -> Frame { EARTH_J2000.with_mu_km3_s2(398600.4418) }
fn orbit() -> Orbit { Orbit::new(7000.0, 100.0, -300.0, 0.1, 7.5, 0.4, e0(), earth()) }
fn need(ok: bool, what: &str) { if !ok { println!("BROKEN: {what}"); std::process::exit(1); } }
'''
ALM = PRE.replace('fn e0() -> Epoch { Epoch::from_gregorian_utc_at_noon(2024, 3, 1) }', 'fn e0() -> Epoch { Epoch::from_tai_duration(2000.seconds()) }') + r'''
use anise::structure::PlanetaryDataSet; use anise::structure::planetocentric::{PlanetaryData, ellipsoid::Ellipsoid, phaseangle::PhaseAngle};
use anise::naif::SPK;
/// ET of the middle of the segment (about 2000 s past J1900) and its half-length
pub const MID: f64 = -3155671000.0;
pub const RAD: f64 = 1e6;
pub struct Body { pub id: i32, pub center: i32, pub pos: [f64; 3], pub vel: [f64; 3] }
pub fn body(id: i32, center: i32, pos: [f64; 3], vel: [f64; 3]) -> Body { Body { id, center, pos, vel } }

fn put(b: &mut [u8], at: usize, x: f64) { b[at..at + 8].copy_from_slice(&x.to_ne_bytes()); }
pub fn spk(bodies: &[Body]) -> SPK {
    let mut b = vec![0u8; 3072 + bodies.len() * 96];
    b[..8].copy_from_slice(b"DAF/SPK ");
    b[8..12].copy_from_slice(&2u32.to_le_bytes());
    b[12..16].copy_from_slice(&6u32.to_le_bytes());
    b[76..80].copy_from_slice(&2u32.to_le_bytes());
    b[80..84].copy_from_slice(&2u32.to_le_bytes());
    b[88..96].copy_from_slice(b"LTL-IEEE");
    put(&mut b, 1024 + 16, bodies.len() as f64);
    for (i, y) in bodies.iter().enumerate() {
        let s = 1048 + 40 * i;
        put(&mut b, s, MID - RAD);
        put(&mut b, s + 8, MID + RAD);
        let d0 = 385 + 12 * i as i32;
        for (k, x) in [y.id, y.center, 1, 2, d0, d0 + 11].iter().enumerate() { b[s + 16 + 4 * k..s + 20 + 4 * k].copy_from_slice(&x.to_le_bytes()); }
        let d = 3072 + 96 * i;
        put(&mut b, d, MID);
        put(&mut b, d + 8, RAD);
        for a in 0..3 { put(&mut b, d + 16 + 16 * a, y.pos[a]); put(&mut b, d + 24 + 16 * a, y.vel[a] * RAD); }
        put(&mut b, d + 64, MID - RAD);
        put(&mut b, d + 72, 2.0 * RAD);
        put(&mut b, d + 80, 8.0);
        put(&mut b, d + 88, 1.0);
    }
    SPK::parse(b).unwrap()
}
fn alm() -> Almanac {
    let mut set = PlanetaryDataSet::default();
    let mut d = PlanetaryData { object_id: 399, parent_id: 1, mu_km3_s2: 398600.4418, ..Default::default() };
    d.shape = Some(Ellipsoid::from_sphere(6378.0));
    let ph = |o: f64, r: f64| PhaseAngle { offset_deg: o, rate_deg: r, accel_deg: 0.0, coeffs_count: 0, coeffs: [0.0; 32] };
    d.pole_right_ascension = Some(ph(0.0, 0.0)); d.pole_declination = Some(ph(90.0, 0.0)); d.prime_meridian = Some(ph(190.0, 360.9856));
    set.push(d, Some(399), None).unwrap();
    for (id, mu, r) in [(301, 4902.0, 1737.0), (10, 1.3e11, 696000.0)] { let mut x = d; x.object_id = id; x.mu_km3_s2 = mu; x.shape = Some(Ellipsoid::from_sphere(r)); set.push(x, Some(id), None).unwrap(); }
    let mut a = Almanac::default();
    a.planetary_data.insert("v".to_string(), set);
    a.spk_data.insert("v".to_string(), spk(&[body(399, 0, [0.0; 3], [0.0; 3]), body(301, 0, [0.0, 4e5, 0.0], [0.0; 3]), body(10, 0, [-1.5e8, 0.0, 0.0], [0.0; 3])]));
    a
}
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def mk(id, prop, edits, demo, needs, breaks, pre=PRE):
    only = sys.argv[1:]
    if only and id not in only: return
    sh(f"git -C {S} checkout -- . && git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD")
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    for f, o, n in edits:
        p = os.path.join(S, "nyx-core/src", f)
        s = open(p).read()
        if s.count(o) < 1: print(id, "TEXT NOT FOUND", f, o); return
        if s.count(o) > 1: print(id, "ambiguous", s.count(o))
        open(p, "w").write(s.replace(o, n, 1))
    open(d + "/patch.diff", "w").write(sh(f"git -C {S} diff -- nyx-core/src").stdout)
    open(d + "/demo.rs", "w").write(pre + demo)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = sh(f"bash {d}/demo.sh", cwd=S)
    t = ""
    if a.returncode == 1 or "panicked" in a.stdout:
        t = sh(". /tmp/seedenv.sh; cargo test $CORE --no-fail-fast --lib --bins --tests -- --test-threads 8 > /tmp/seed_t.log 2>&1; python3 /tmp/seedcmp.py", cwd=S).stdout.strip()
    sh(f"git -C {S} checkout -- .")
    b = sh(f"bash {d}/demo.sh", cwd=S)
    try: os.remove(d + "/build.log")
    except OSError: pass
    print(id, prop, "patched:", a.returncode, a.stdout.strip()[-1500 if a.returncode == 3 else -200:], "| clean:", b.returncode, b.stdout.strip()[-300:] if b.returncode else "", "| tests:", t, flush=True)
