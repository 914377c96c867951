use anise::analysis::prelude::{Condition, Event, OrbitalElement, ScalarExpr};
use anise::prelude::*;
use nyx_space::dynamics::*;
use nyx_space::linalg::{Matrix4x3, Vector3};
use nyx_space::mc::*;
use nyx_space::md::StateParameter;
use nyx_space::propagators::*;
use nyx_space::{Spacecraft, State};
use rand::Rng;
use rand_distr::Distribution;
use rand_pcg::Pcg64Mcg;
use std::fmt;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use vpharness::sc::*;
use vpharness::*;

const S: i64 = 1_000_000_000;
const X: StateParameter = StateParameter::Element(OrbitalElement::X);
const VY: StateParameter = StateParameter::Element(OrbitalElement::VY);
fn base() -> Spacecraft { Spacecraft::new(Orbit::new(7000.0, 100.0, -300.0, 0.1, 7.5, 0.4, ep(E0), earth().with_mu_km3_s2(0.0)), 100.0, 20.0, 1.0, 1.0, 1.0, 1.0) }
/// the k-th draw: a symbolic deviation in x and vy, the random number itself in the dry mass, and whether propagating this state fails (marked by its drag area)
struct Draws { n: AtomicUsize, fail: usize }
fn deviation(k: usize) -> (f64, f64) { (v(10 + 2 * k as u32, 50.0), v(11 + 2 * k as u32, 1.0)) }
impl Distribution<DispersedState<Spacecraft>> for Draws {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> DispersedState<Spacecraft> {
        let k = self.n.fetch_add(1, Ordering::Relaxed);
        let mut s = base();
        let (dx, dv) = deviation(k);
        s.orbit.radius_km.x += dx;
        s.orbit.velocity_km_s.y += dv;
        s.mass.dry_mass_kg = (rng.next_u64() >> 20) as f64;
        if self.fail >> k & 1 == 1 { s.drag.area_m2 = 1e6; }
        DispersedState { state: s, actual_dispersions: vec![(VY, dv), (X, dx)] }
    }
}
fn speed(k: usize) -> f64 { [0.1, 0.25, 0.01][k] }
struct Fixed { n: AtomicUsize }
impl Distribution<DispersedState<Spacecraft>> for Fixed {
    fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> DispersedState<Spacecraft> { let mut s = base(); s.orbit.velocity_km_s.x = speed(self.n.fetch_add(1, Ordering::Relaxed)); DispersedState { state: s, actual_dispersions: vec![] } }
}
struct Fragile;
impl fmt::Display for Fragile { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "fragile") } }
impl ForceModel for Fragile {
    fn estimation_index(&self) -> Option<usize> { None }
    fn eom(&self, s: &Spacecraft, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> { if s.drag.area_m2 > 1e5 && s.epoch() > ep(E0 + 10 * S) { Err(DynamicsError::MasslessSpacecraft) } else { Ok(Vector3::zeros()) } }
    fn gradient(&self, _: &Spacecraft, _: &Almanac) -> Result<(Vector3<f64>, Matrix4x3<f64>), DynamicsError> { Err(DynamicsError::MasslessSpacecraft) }
}
fn prop() -> Propagator<SpacecraftDynamics> {
    Propagator::new(SpacecraftDynamics::from_models(OrbitalDynamics::two_body(), vec![Arc::new(Fragile)]), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(10 * S)))
}
fn mc(fail: usize, seed: u128) -> MonteCarlo<Spacecraft, Draws> { MonteCarlo::new(base(), Draws { n: AtomicUsize::new(0), fail }, "scenario".to_string(), Some(seed)) }

harnesses! {
    //@ time=240
    /// three runs, any of them failing, any order of the parallel tasks, resumed or not
    fn h_c22_runs() {
        let fail = vp_fix_i64(vp_i64(1, 0, 7)) as usize;
        let skip = vp_fix_i64(vp_i64(2, 0, 1)) as usize;
        rayon_core::schedule::set(4, vp_fix_i64(vp_i64(3, 0, 15)) as u64);
        let seed = 0x1234_5678_9abc_u128;
        let m = mc(fail << skip, seed);
        let a = Arc::new(Almanac::default());
        let r = if skip == 0 { m.run_until_epoch(prop(), a, ep(E0 + 25 * S), 3) } else { m.resume_run_until_epoch(prop(), a, skip, ep(E0 + 25 * S), 3) };
        vp_check(r.runs.len() == 3 && r.scenario == "scenario", 1);
        let mut rng = Pcg64Mcg::new(seed);
        for _ in 0..skip { rng.next_u64(); }
        for (k, run) in r.runs.iter().enumerate() {
            if skip == 0 { vp_check(run.index == k, 15); }
            let (dx, dv) = deviation(k + skip);
            let d = &run.dispersed_state.state;
            vp_check(near(d.orbit.radius_km.x, 7000.0 + dx, 1e-9) && near(d.orbit.velocity_km_s.y, 7.5 + dv, 1e-9), 2);
            vp_check(d.mass.dry_mass_kg == (rng.next_u64() >> 20) as f64, 3);
            vp_check(run.result.is_err() == (fail >> k & 1 == 1), 4);
            if let Ok(p) = &run.result {
                vp_check(p.state.epoch() == ep(E0 + 25 * S) && p.traj.first().epoch() == ep(E0) && p.traj.last().epoch() == ep(E0 + 25 * S), 5);
                vp_check(p.traj.states.len() == 4 && p.traj.states.windows(2).all(|w| w[0].epoch() < w[1].epoch()), 6);
                for s in [&p.state, p.traj.last()] { vp_check(near(s.orbit.radius_km.x, 7000.0 + dx + 2.5, 1e-6) && near(s.orbit.radius_km.y, 100.0 + 25.0 * (7.5 + dv), 1e-6) && near(s.orbit.velocity_km_s.y, 7.5 + dv, 1e-9), 7); }
            }
        }
        let ok: Vec<usize> = (0..3).filter(|k| fail >> k & 1 == 0).collect();
        let fill = v(9, 1e3);
        let (f, l) = (r.first_values_of(X, None), r.last_values_of(X, None));
        vp_check(f.len() == ok.len() && l.len() == ok.len(), 8);
        for (i, k) in ok.iter().enumerate() { let x = 7000.0 + deviation(k + skip).0; vp_check(near(f[i], x, 1e-9) && near(l[i], x + 2.5, 1e-6), 9); }
        let (f, l) = (r.first_values_of(X, Some(fill)), r.last_values_of(VY, Some(fill)));
        vp_check(f.len() == 3 && l.len() == 3, 10);
        for k in 0..3 { let bad = fail >> k & 1 == 1; let (dx, dv) = deviation(k + skip); vp_check(near(f[k], if bad { fill } else { 7000.0 + dx }, 1e-9) && near(l[k], if bad { fill } else { 7.5 + dv }, 1e-9), 11); }
        let (dx, dv) = (r.dispersion_values_of(X).unwrap(), r.dispersion_values_of(VY).unwrap());
        vp_check(dx.len() == 3 && dv.len() == 3, 12);
        for k in 0..3 { vp_check(dx[k] == deviation(k + skip).0 && dv[k] == deviation(k + skip).1, 13); }
        vp_check(r.dispersion_values_of(StateParameter::Cr()).is_err(), 14);
    }
    //@ time=240
    /// values along the trajectories of two runs, either failing, at any rate and in any window
    fn h_c22_every() {
        let fail = vp_fix_i64(vp_i64(1, 0, 3)) as usize;
        rayon_core::schedule::set(4, vp_fix_i64(vp_i64(3, 0, 3)) as u64);
        let r = mc(fail, 5).run_until_epoch(prop(), Arc::new(Almanac::default()), ep(E0 + 40 * S), 2);
        let step = [8, 10, 16, 40, 50][vp_fix_i64(vp_i64(2, 0, 4)) as usize];
        let (a, b) = [(0, 40), (4, 36), (12, 12), (-1, 0)][vp_fix_i64(vp_i64(4, 0, 3)) as usize];
        let fill = v(9, 1e3);
        let with = vp_fix_i64(vp_i64(5, 0, 1)) == 1;
        let all = a == -1;
        let vals = if all { r.every_value_of(X, ns(step * S), with.then_some(fill)) } else { r.every_value_of_between(X, ns(step * S), ep(E0 + a * S), ep(E0 + b * S), with.then_some(fill)) };
        let (a, b) = if all { (0, 40) } else { (a, b) };
        let mut want = vec![];
        for k in 0..2 {
            if fail >> k & 1 == 1 { if with { want.push(fill); } continue; }
            let mut t = a;
            while t <= b { want.push(7000.0 + deviation(k).0 + 0.1 * t as f64); t += step; }
        }
        vp_check(vals.len() == want.len(), 1);
        for i in 0..want.len() { vp_check(near(vals[i], want[i], 1e-6), 2); }
        // a parameter the states do not have (no thruster)
        let p = StateParameter::Isp();
        let n = (0..2).filter(|k| fail >> k & 1 == 0).count();
        let per = (b - a) / step + 1;
        let l = |x: Vec<f64>, want: usize| { vp_check(x.len() == if with { want } else { 0 }, 3); for y in x { vp_check(y == fill, 4); } };
        l(r.first_values_of(p, with.then_some(fill)), 2);
        l(r.last_values_of(p, with.then_some(fill)), 2);
        if all { l(r.every_value_of(p, ns(step * S), with.then_some(fill)), 2 - n + n * per as usize); }
        else { l(r.every_value_of_between(p, ns(step * S), ep(E0 + a * S), ep(E0 + b * S), with.then_some(fill)), 2 - n + n * per as usize); }
    }
    //@ time=240
    /// runs that stop at the second crossing of a plane by an oscillating state, each at its own time
    fn h_c22_event() {
        rayon_core::schedule::set(4, vp_fix_i64(vp_i64(3, 0, 7)) as u64);
        let nth = vp_fix_i64(vp_i64(4, 1, 2)) as usize;
        let m = MonteCarlo::new(base(), Fixed { n: AtomicUsize::new(0) }, "e".to_string(), Some(4));
        let mut e = Event::new(ScalarExpr::Element(OrbitalElement::X), Condition::Equals(7005.0));
        e.epoch_precision = ns(1000);
        let r = m.resume_run_until_nth_event(prop(), Arc::new(Almanac::default()), 0, ns(60 * S), &e, nth, 3);
        vp_check(r.runs.len() == 3, 1);
        for (k, run) in r.runs.iter().enumerate() {
            vp_check(run.index == k && run.dispersed_state.state.orbit.velocity_km_s.x == speed(k), 2);
            match &run.result {
                Ok(p) => { vp_check(nth == 1 && k < 2, 3); vp_check(((p.state.epoch() - ep(E0)).to_seconds() - 5.0 / speed(k)).abs() < 1e-3 && (p.state.orbit.radius_km.x - 7005.0).abs() < 1e-3, 4); vp_check(p.traj.last().epoch() >= p.state.epoch() && p.traj.states.windows(2).all(|w| w[0].epoch() < w[1].epoch()), 5); }
                Err(_) => vp_check(nth == 2 || k == 2, 6),
            }
        }
    }
}
