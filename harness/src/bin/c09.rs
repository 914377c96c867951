use anise::math::interpolation::InterpolationError;
use anise::prelude::{Frame, Orbit};
use hifitime::Epoch;
use nyx_space::{Spacecraft, State};
use nyx_space::linalg::{OVector, U1};
use nyx_space::md::StateParameter;
use nyx_space::md::trajectory::{Interpolatable, Traj};
use std::fmt;
use vpharness::sc::*;
use vpharness::*;

const S: i64 = 1_000_000_000;

/// state whose interpolation reports the window it was given
#[derive(Copy, Clone, Debug, PartialEq)]
struct W { epoch: Epoch, id: i64, lo: i64, hi: i64, n: i64 }
impl Default for W { fn default() -> Self { w(ep(0), 0) } }
fn w(epoch: Epoch, id: i64) -> W { W { epoch, id, lo: -1, hi: -1, n: 0 } }
impl fmt::Display for W { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::LowerExp for W { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl State for W {
    type Size = U1;
    type VecLength = U1;
    fn to_vector(&self) -> OVector<f64, U1> { OVector::<f64, U1>::new(self.id as f64) }
    fn with_stm(self) -> Self { self }
    fn unset_stm(&mut self) {}
    fn set(&mut self, epoch: Epoch, _: &OVector<f64, U1>) { self.epoch = epoch; }
    fn epoch(&self) -> Epoch { self.epoch }
    fn set_epoch(&mut self, epoch: Epoch) { self.epoch = epoch; }
    fn orbit(&self) -> Orbit { fixed_orbit(self.epoch) }
}
impl Interpolatable for W {
    fn interpolate(self, epoch: Epoch, states: &[Self]) -> Result<Self, InterpolationError> {
        for k in 1..states.len() { vp_check(states[k].id == states[k - 1].id + 1, 90); }
        Ok(W { epoch, id: -7, lo: states[0].id, hi: states[states.len() - 1].id, n: states.len() as i64 })
    }
    fn frame(&self) -> Frame { earth() }
    fn set_frame(&mut self, _: Frame) {}
    fn export_params() -> Vec<StateParameter> { vec![] }
}
fn traj(n: usize, step: i64) -> Traj<W> {
    let mut t = Traj::new();
    for i in 0..n { t.states.push(w(ep(E0 + i as i64 * step), i as i64)); }
    t
}
/// query at any epoch
fn window(n: usize) {
    let step = 10 * S;
    let t = traj(n, step);
    let q = vp_i64(1, -5 * S, (n as i64 + 1) * step);
    let r = t.at(ep(E0 + q));
    let last = (n as i64 - 1) * step;
    if q < 0 || q > last { vp_check(r.is_err(), 1); return; }
    let r = r.unwrap();
    vp_check(r.epoch == ep(E0 + q), 2);
    if r.id >= 0 { vp_check(q == r.id * step, 3); return; }
    // interpolated: the window brackets the query tightly on both sides
    let k = vp_fix_i64(q / step);
    vp_check(q != k * step, 4);
    vp_check(r.lo <= k && r.hi >= k + 1 && r.hi <= n as i64 - 1, 5);
    vp_check(r.n <= 13 && r.n == r.hi - r.lo + 1, 6);
    // no sample is left out that is nearer than the window's own depth
    vp_check(r.n >= 12 || r.n == n as i64, 7);
    vp_check(k - r.lo >= 5 || r.lo == 0 || r.hi == n as i64 - 1, 8);
    vp_check(r.hi - k >= 6 || r.hi == n as i64 - 1, 9);
}
/// spacecraft on a polynomial path through n nodes: Hermite interpolation reproduces polynomials of degree <= 2n-1 exactly
fn hermite(n: usize, gaps: &[i64]) {
    let deg = 2 * n - 1;
    let mut c = [[0.0f64; 3]; 8];
    for k in 0..=deg { for a in 0..3 { c[k][a] = v((100 + 10 * k + a) as u32, 10.0); } }
    let e0 = ep(E0).to_et_seconds();
    let eval = |t: f64, a: usize| { let mut p = 0.0; let mut d = 0.0; let mut k = deg as i32; while k >= 0 { d = d * t + p; p = p * t + c[k as usize][a]; k -= 1; } (p, d) };
    let mut t = Traj::new();
    let mut at = 0;
    for i in 0..n {
        let e = ep(E0 + at);
        let s = (e.to_et_seconds() - e0) / 100.0;
        let (x, y, z) = (eval(s, 0), eval(s, 1), eval(s, 2));
        let o = Orbit::new(x.0, y.0, z.0, x.1 / 100.0, y.1 / 100.0, z.1 / 100.0, e, earth());
        let mut sc = Spacecraft::new(o, 100.0, 50.0 - at as f64 / S as f64 * 0.01, 1.0, 1.0, 1.5, 2.0);
        sc.srp.area_m2 = 3.0;
        t.states.push(sc);
        at += gaps[i];
    }
    let total: i64 = gaps[..n - 1].iter().sum();
    let q = vp_fix_i64(vp_i64(1, 0, 7));
    let qn = 1 + q * (total - 2) / 7;
    let e = ep(E0 + qn);
    let r = t.at(e).unwrap();
    let s = (e.to_et_seconds() - e0) / 100.0;
    vp_check(r.orbit.epoch == e && r.orbit.frame == earth(), 1);
    for a in 0..3 {
        let (p, d) = eval(s, a);
        vp_check(near(r.orbit.radius_km[a], p, 1e-3), 2);
        vp_check(near(r.orbit.velocity_km_s[a], d / 100.0, 1e-3), 3);
    }
    vp_check(near(r.mass.prop_mass_kg, 50.0 - qn as f64 / S as f64 * 0.01, 1e-6), 4);
    vp_check(r.mass.dry_mass_kg == 100.0 && r.srp.area_m2 == 3.0 && r.srp.coeff_reflectivity == 1.5 && r.drag.coeff_drag == 2.0, 5);
}

harnesses! {
    /// 1 state, any query epoch
    fn h_c09_at1() { window(1); }
    fn h_c09_at2() { window(2); }
    fn h_c09_at5() { window(5); }
    fn h_c09_at12() { window(12); }
    fn h_c09_at13() { window(13); }
    fn h_c09_at14() { window(14); }
    fn h_c09_at20() { window(20); }
    //@ tier=thorough
    fn h_c09_at40() { window(40); }
    /// 4 states at arbitrary increasing epochs, any query epoch
    fn h_c09_at_any() {
        let mut e = [0i64; 4];
        for i in 1..4 { e[i] = e[i - 1] + vp_i64(i as u32, 1, 100 * S); }
        let mut t = Traj::new();
        for i in 0..4 { t.states.push(w(ep(E0 + e[i]), i as i64)); }
        let q = vp_i64(10, -10 * S, 400 * S);
        match t.at(ep(E0 + q)) {
            Err(_) => vp_check(q < 0 || q > e[3], 1),
            Ok(r) => {
                vp_check(q >= 0 && q <= e[3] && r.epoch == ep(E0 + q), 2);
                if r.id >= 0 { vp_check(e[r.id as usize] == q, 3); } else { vp_check(r.n == 4, 4); vp_check(q != e[0] && q != e[1] && q != e[2] && q != e[3], 5); }
            }
        }
        let empty: Traj<W> = Traj::new();
        vp_check(empty.at(ep(E0 + q)).is_err(), 6);
    }
    /// 4 states pushed in any order with any epochs (duplicates included): finalize orders them strictly and loses no epoch
    fn h_c09_finalize() {
        let mut t = Traj::new();
        let mut e = [0i64; 4];
        for i in 0..4 { e[i] = vp_i64(i as u32, 0, 100 * S); t.states.push(w(ep(E0 + e[i]), i as i64)); }
        t.finalize();
        let n = t.states.len();
        vp_check(n >= 1 && n <= 4, 1);
        for k in 1..n { vp_check(t.states[k - 1].epoch < t.states[k].epoch, 2); }
        for i in 0..4 {
            let mut found = false;
            for k in 0..n { if t.states[k].epoch == ep(E0 + e[i]) { found = true; } }
            vp_check(found, 3);
        }
        for k in 0..n { vp_check(t.states[k].epoch == ep(E0 + e[t.states[k].id as usize]), 4); }
    }
    /// iteration: any step, any bounds: start + k step, up to and including the end, all within the trajectory
    fn h_c09_every() {
        let t = traj(3, 10 * S);
        let step = vp_i64(1, 3 * S, 30 * S);
        let a = vp_i64(2, -10 * S, 25 * S);
        let b = vp_i64(3, -10 * S, 40 * S);
        let lo = if a > 0 { a } else { 0 };
        let hi = if b < 20 * S { b } else { 20 * S };
        vp_assume(lo <= hi);
        let mut k = 0i64;
        for s in t.every_between(ns(step), ep(E0 + a), ep(E0 + b)) {
            vp_check(s.epoch == ep(E0 + lo + k * step), 1);
            vp_check(lo + k * step <= hi, 2);
            k += 1;
        }
        vp_check(lo + k * step > hi, 3);
    }
    fn h_c09_filter() {
        let mut e = [0i64; 3];
        let mut t = Traj::new();
        for i in 0..3 { e[i] = if i == 0 { 0 } else { e[i - 1] + vp_i64(i as u32, 1, 100 * S) }; t.states.push(w(ep(E0 + e[i]), i as i64)); }
        let a = vp_i64(10, -10 * S, 300 * S);
        let b = vp_i64(11, -10 * S, 300 * S);
        vp_assume(a <= b);
        let incl = vp_fix_i64(vp_i64(12, 0, 1)) == 1;
        let off = vp_fix_i64(vp_i64(13, 0, 1)) == 1;
        let f = match (off, incl) {
            (false, true) => t.filter_by_epoch(ep(E0 + a)..=ep(E0 + b)),
            (false, false) => t.filter_by_epoch(ep(E0 + a)..ep(E0 + b)),
            (true, true) => t.filter_by_offset(ns(a)..=ns(b)),
            (true, false) => t.filter_by_offset(ns(a)..),
        };
        let mut j = 0;
        for i in 0..3 {
            let keep = e[i] >= a && match (off, incl) { (_, true) => e[i] <= b, (false, false) => e[i] < b, (true, false) => true };
            if keep { vp_check(f.states[j].id == i as i64, 1); j += 1; }
        }
        vp_check(f.states.len() == j, 2);
    }
    /// concatenation: all of the first trajectory, then the states of the second that come after it
    fn h_c09_add() {
        let t1 = traj(2, 10 * S);
        let mut t2 = Traj::new();
        let a = vp_i64(1, -10 * S, 40 * S);
        let b = vp_i64(2, 1, 40 * S);
        t2.states.push(w(ep(E0 + a), 10));
        t2.states.push(w(ep(E0 + a + b), 11));
        let t = (&t1 + &t2).unwrap();
        let n = t.states.len();
        vp_check(t.states[0].id == 0 && t.states[1].id == 1, 1);
        for k in 1..n { vp_check(t.states[k - 1].epoch < t.states[k].epoch, 2); }
        let want = 2 + (a > 10 * S) as usize + (a + b > 10 * S) as usize;
        vp_check(n == want, 3);
    }
    /// resampling and rebuilding keep the requested epochs
    fn h_c09_rebuild() {
        let t = traj(3, 10 * S);
        let (a, b) = (vp_i64(1, 0, 20 * S), vp_i64(2, 0, 20 * S));
        let r = t.rebuild(&[ep(E0 + a), ep(E0 + b)]).unwrap();
        if a == b { vp_check(r.states.len() == 1 && r.states[0].epoch == ep(E0 + a), 1); }
        else { vp_check(r.states.len() == 2 && r.states[0].epoch == ep(E0 + if a < b { a } else { b }) && r.states[1].epoch == ep(E0 + if a < b { b } else { a }), 2); }
        let out = vp_i64(3, 20 * S + 1, 50 * S);
        vp_check(t.rebuild(&[ep(E0 + out)]).is_err(), 3);
    }
    /// resampling at any step of at least 5 s over 20 s: one state per step, from the first state on, none beyond the last
    fn h_c09_resample() {
        let t = traj(3, 10 * S);
        let step = vp_i64(1, 5 * S, 25 * S);
        let r = t.resample(ns(step)).unwrap();
        let n = r.states.len() as i64;
        vp_check((n - 1) * step <= 20 * S && n * step > 20 * S, 1);
        for k in 0..n { vp_check(r.states[k as usize].epoch == ep(E0 + k * step), 2); }
        vp_check(Traj::<W>::new().resample(ns(step)).is_err() && Traj::<W>::new().rebuild(&[ep(E0)]).is_err(), 3);
    }
    /// three states of any position and velocity, seen from a moving second body: the same states, epochs and everything else a spacecraft carries
    fn h_c09_to_frame() {
        let moon = Frame::new(301, 1);
        let q: [f64; 3] = std::array::from_fn(|i| v(100 + i as u32, 4e5));
        let u: [f64; 3] = std::array::from_fn(|i| v(103 + i as u32, 1.0));
        let a = vpharness::alm::almanac(&[vpharness::alm::body(399, 3, [10.0, -20.0, 5.0], [0.0; 3]), vpharness::alm::body(301, 3, q, u)], &[(399, 398600.4418, 6378.0), (301, 4900.0, 1737.0)]);
        let mut t = Traj::<Spacecraft>::new();
        for k in 0..3 {
            let mut s = craft(20 * k, ep(E0 + k as i64 * 60 * S));
            s.mode = nyx_space::cosmic::GuidanceMode::Inhibit;
            t.states.push(s);
        }
        let r = t.to_frame(moon, &a).unwrap();
        vp_check(r.states.len() == 3, 1);
        for (x, y) in t.states.iter().zip(&r.states) {
            vp_check(y.orbit.epoch == x.orbit.epoch && y.orbit.frame.ephemeris_id == 301 && y.orbit.frame.orientation_id == 1, 2);
            // the middle of the segments, where the bodies are at q, is where ET is MID
            let dt = x.orbit.epoch.to_et_seconds() - vpharness::alm::MID;
            let e = [10.0, -20.0, 5.0];
            for i in 0..3 {
                vp_check(near(y.orbit.radius_km[i], x.orbit.radius_km[i] + e[i] - q[i] - u[i] * dt, 1e-5), 3);
                vp_check(near(y.orbit.velocity_km_s[i], x.orbit.velocity_km_s[i] - u[i], 1e-8), 4);
            }
            let (c, d) = (scal(x), scal(y));
            for i in 6..13 { vp_check(c[i] == d[i], 5); }
            vp_check(y.mode == x.mode, 6);
        }
        vp_check(Traj::<Spacecraft>::new().to_frame(moon, &a).is_err(), 7);
    }
    /// the ephemeris of three states of any position and velocity
    fn h_c09_ephemeris() {
        let mut t = Traj::<Spacecraft>::new();
        for k in 0..3 { t.states.push(craft(20 * k, ep(E0 + k as i64 * 60 * S))); }
        let e = t.to_ephemeris("sat".to_string(), nyx_space::io::ExportCfg::default());
        vp_check(e.object_id == "sat", 1);
        let mut n = 0;
        for r in &e { vp_check(n < 3 && r.orbit == t.states[n].orbit, 2); n += 1; }
        vp_check(n == 3, 3);
    }
    /// a trajectory read from an ephemeris of a moving body, any step of at least 20 s over one minute
    fn h_c09_from_bsp() {
        let q: [f64; 3] = std::array::from_fn(|i| v(100 + i as u32, 4e5));
        let u: [f64; 3] = std::array::from_fn(|i| v(103 + i as u32, 1.0));
        let a = vpharness::alm::almanac(&[vpharness::alm::body(399, 3, [10.0, -20.0, 5.0], [0.0; 3]), vpharness::alm::body(-77, 3, q, u)], &[(399, 398600.4418, 6378.0)]);
        let step = [20, 25, 60, 70][vp_fix_i64(vp_i64(1, 0, 3)) as usize];
        let tpl = craft(0, ep(0));
        let t = Traj::<Spacecraft>::from_bsp(Frame::new(-77, 1), Frame::new(399, 1), &a, tpl, ns(step * S), Some(ep(E0)), Some(ep(E0 + 60 * S)), None, Some("sat".to_string())).unwrap();
        vp_check(t.states.len() as i64 == 60 / step + 1 && t.name.as_deref() == Some("sat"), 1);
        for (k, s) in t.states.iter().enumerate() {
            vp_check(s.orbit.epoch == ep(E0 + k as i64 * step * S), 2);
            let dt = s.orbit.epoch.to_et_seconds() - vpharness::alm::MID;
            let e = [10.0, -20.0, 5.0];
            for i in 0..3 { vp_check(near(s.orbit.radius_km[i], q[i] + u[i] * dt - e[i], 1e-5) && near(s.orbit.velocity_km_s[i], u[i], 1e-8), 3); }
            let (c, d) = (scal(s), scal(&tpl));
            for i in 6..13 { vp_check(c[i] == d[i], 4); }
        }
    }
    /// two nodes, any cubic path in each axis, 8 query epochs
    fn h_c09_hermite2() { hermite(2, &[60 * S, 0]); }
    /// three unevenly spaced nodes, any quintic path
    fn h_c09_hermite3() { hermite(3, &[60 * S, 100 * S, 0]); }
    /// four nodes, degree seven
    fn h_c09_hermite4() { hermite(4, &[60 * S, 30 * S, 90 * S, 0]); }
    //@ time=120
    /// a propagated trajectory, either way, whichever of two workers collects which of up to five states
    fn h_c09_schedule() {
        use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
        use nyx_space::propagators::*;
        let back = vp_fix_i64(vp_i64(1, 0, 1)) == 1;
        rayon_core::schedule::set(2, vp_fix_i64(vp_i64(2, 0, 31)) as u64);
        let mut sc = Spacecraft::new(fixed_orbit(ep(E0)), 100.0, 20.0, 1.0, 1.0, 1.0, 1.0);
        sc.orbit.frame = earth().with_mu_km3_s2(0.0);
        sc.orbit.velocity_km_s.x = v(3, 1.0);
        sc.orbit.radius_km.y = v(4, 500.0);
        let p = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(10 * S)));
        let end = if back { -37 } else { 37 };
        let (last, t) = p.with(sc, std::sync::Arc::new(anise::prelude::Almanac::default())).for_duration_with_traj(ns(end * S)).unwrap();
        vp_check(last.epoch() == ep(E0 + end * S) && t.states.len() == 5, 1);
        for k in 0..5 {
            let dt = if back { [-37, -30, -20, -10, 0] } else { [0, 10, 20, 30, 37] }[k];
            let s = &t.states[k];
            vp_check(s.epoch() == ep(E0 + dt * S), 2);
            vp_check(near(s.orbit.radius_km.x, 7000.0 + v(3, 1.0) * dt as f64, 1e-6) && near(s.orbit.radius_km.y, v(4, 500.0) + 7.5 * dt as f64, 1e-6), 3);
        }
    }
}
