use anise::analysis::prelude::OrbitalElement as Oe;
use anise::prelude::*;
use nyx_space::dynamics::*;
use nyx_space::errors::TargetingError;
use nyx_space::linalg::{Matrix3, Vector3};
use nyx_space::md::objective::Objective;
use nyx_space::md::opti::solution::TargeterSolution;
use nyx_space::md::{StateParameter, Variable, Vary}; use nyx_space::md::targeter::Targeter;
use nyx_space::propagators::*;
use nyx_space::{Spacecraft, State};
use std::sync::Arc;
use vpharness::sc::*;
use vpharness::*;

const S: i64 = 1_000_000_000;
/// no central attraction
fn free() -> Frame { anise::constants::frames::EARTH_J2000.with_mu_km3_s2(0.0) }
/// constant acceleration plus a linear coupling between the axes
#[derive(Clone)]
struct Shear { a: Vector3<f64>, m: Matrix3<f64> }
impl std::fmt::Display for Shear { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl AccelModel for Shear {
    fn eom(&self, o: &Orbit, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> { Ok(self.a + self.m * o.radius_km) }
    fn gradient(&self, o: &Orbit, _: &Almanac) -> Result<(Vector3<f64>, Matrix3<f64>), DynamicsError> { Ok((self.a + self.m * o.radius_km, self.m)) }
}
fn setup(a: Vector3<f64>, m: Matrix3<f64>, step: i64) -> Propagator<SpacecraftDynamics> {
    Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::from_model(Arc::new(Shear { a, m }))), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(step)))
}
fn line(step: i64) -> Propagator<SpacecraftDynamics> { setup(Vector3::zeros(), Matrix3::zeros(), step) }
fn at(x: [f64; 6], t: i64) -> Spacecraft { Spacecraft::from(Orbit::new(x[0], x[1], x[2], x[3], x[4], x[5], ep(t), free())) }
fn el(e: Oe) -> StateParameter { StateParameter::Element(e) }
fn var(c: Vary, step: f64, lo: f64, hi: f64) -> Variable { Variable { component: c, max_step: step, min_value: lo, max_value: hi, ..Default::default() } }


fn six(s: &Spacecraft) -> [f64; 6] { let o = s.orbit; [o.radius_km.x, o.radius_km.y, o.radius_km.z, o.velocity_km_s.x, o.velocity_km_s.y, o.velocity_km_s.z] }
/// what the spacecraft reaches at that epoch
fn fly(p: &Propagator<SpacecraftDynamics>, s: Spacecraft, t: i64) -> [f64; 6] { six(&p.with(s, Arc::new(Almanac::default())).until_epoch(ep(t)).unwrap()) }
const ALL: [Oe; 6] = [Oe::X, Oe::Y, Oe::Z, Oe::VX, Oe::VY, Oe::VZ];
const VARY: [Vary; 6] = [Vary::PositionX, Vary::PositionY, Vary::PositionZ, Vary::VelocityX, Vary::VelocityY, Vary::VelocityZ];
fn coupled() -> Matrix3<f64> { Matrix3::new(0.0, 1e-5, 0.0, -2e-5, 0.0, 3e-5, 1e-5, 0.0, -1e-5) }
/// what a solution of an impulsive problem in the inertial frame has to satisfy; `start` is the uncorrected state at the correction epoch
fn sound<const V: usize, const O: usize>(s: &TargeterSolution<V, O>, p: &Propagator<SpacecraftDynamics>, start: [f64; 6], vars: [usize; V], objs: [(usize, f64); O], tol: f64, bound: f64, t0: i64, t1: i64) {
    let c = six(&s.corrected_state);
    let mut want = start;
    for k in 0..V { want[vars[k]] += s.correction[k]; vp_check(s.correction[k].abs() <= bound + 1e-9, 1); }
    for k in 0..6 { vp_check(near(c[k], want[k], 1e-9), 2); }
    let f = fly(p, s.corrected_state, t1);
    let a = six(&s.achieved_state);
    for k in 0..6 { vp_check(near(a[k], f[k], 1e-7), 3); }
    for k in 0..O { vp_check((f[objs[k].0] - objs[k].1).abs() <= tol + 1e-7, 4); vp_check(near(s.achieved_errors[k], objs[k].1 - f[objs[k].0], 1e-7), 5); }
    vp_check(s.corrected_state.epoch() == ep(t0) && s.achieved_state.epoch() == ep(t1), 6);
}
fn tg<'a, const V: usize, const O: usize>(p: &'a Propagator<SpacecraftDynamics>, vars: [(usize, f64, f64); V], objs: [(usize, f64); O], tol: f64, iterations: usize) -> Targeter<'a, V, O> {
    Targeter { prop: p, objectives: objs.map(|(k, d)| Objective::within_tolerance(el(ALL[k]), d, tol)), objective_frame: None, variables: vars.map(|(k, st, b)| var(VARY[k], st, -b, b)), correction_frame: None, iterations }
}
fn alm() -> Arc<Almanac> { Arc::new(Almanac::default()) }
harnesses! {
    //@ time=120
    /// one velocity component towards one position, straight line: initial position and velocity symbolic
    fn h_one() {
        let p = line(100 * S);
        let sc = at([v(0, 5.0), 1.0, 52.0, v(1, 0.1), 0.0, 0.0], E0);
        let need = (10.0 - sc.orbit.radius_km.x) / 100.0 - sc.orbit.velocity_km_s.x;
        match tg(&p, [(3, 0.05, 0.12)], [(0, 10.0)], 1e-3, 3).try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()) {
            Ok(s) => sound(&s, &p, six(&sc), [3], [(0, 10.0)], 1e-3, 0.12, E0, E0 + 100 * S),
            Err(_) => vp_check(need.abs() >= 0.1199, 7),
        }
    }
    //@ time=120
    /// the same with partial derivatives
    fn h_one_dual() {
        let p = line(100 * S);
        let sc = at([v(0, 5.0), 1.0, 52.0, v(1, 0.1), 0.0, 0.0], E0);
        let need = (10.0 - sc.orbit.radius_km.x) / 100.0 - sc.orbit.velocity_km_s.x;
        match tg(&p, [(3, 0.05, 0.12)], [(0, 10.0)], 1e-3, 3).try_achieve_dual(sc, ep(E0), ep(E0 + 100 * S), alm()) {
            Ok(s) => sound(&s, &p, six(&sc), [3], [(0, 10.0)], 1e-3, 0.12, E0, E0 + 100 * S),
            Err(_) => vp_check(need.abs() >= 0.1199, 7),
        }
    }
    //@ time=120
    /// three velocities towards three positions, coupled motion, correction after a coast: initial state symbolic
    fn h_three() {
        let p = setup(Vector3::new(1e-4, -2e-4, 5e-5), coupled(), 50 * S);
        let sc = at([v(0, 2.0), v(1, 2.0), 50.0 + v(2, 2.0), v(3, 0.05), 0.01, v(4, 0.05)], E0);
        let st = fly(&p, sc, E0 + 50 * S);
        let objs = [(0, 10.0), (1, -3.0), (2, 54.0)];
        match tg(&p, [(3, 1.0, 3.0), (4, 1.0, 3.0), (5, 1.0, 3.0)], objs, 1e-3, 3).try_achieve_fd(sc, ep(E0 + 50 * S), ep(E0 + 150 * S), alm()) {
            Ok(s) => { sound(&s, &p, st, [3, 4, 5], objs, 1e-3, 3.0, E0 + 50 * S, E0 + 150 * S); vp_check(s.iterations <= 1, 8); }
            Err(e) => { eprintln!("{e:?}"); vp_check(false, 7) },
        }
    }
    //@ time=120
    /// the same with partial derivatives
    fn h_three_dual() {
        let p = setup(Vector3::new(1e-4, -2e-4, 5e-5), coupled(), 50 * S);
        let sc = at([v(0, 2.0), v(1, 2.0), 50.0 + v(2, 2.0), v(3, 0.05), 0.01, v(4, 0.05)], E0);
        let st = fly(&p, sc, E0 + 50 * S);
        let objs = [(0, 10.0), (1, -3.0), (2, 54.0)];
        match tg(&p, [(3, 1.0, 3.0), (4, 1.0, 3.0), (5, 1.0, 3.0)], objs, 1e-3, 3).try_achieve_dual(sc, ep(E0 + 50 * S), ep(E0 + 150 * S), alm()) {
            Ok(s) => { sound(&s, &p, st, [3, 4, 5], objs, 1e-3, 3.0, E0 + 50 * S, E0 + 150 * S); vp_check(s.iterations <= 1, 8); }
            Err(e) => { eprintln!("{e:?}"); vp_check(false, 7) },
        }
    }
    //@ time=120
    /// position and velocity varied together, in any order, for position and velocity objectives
    fn h_mixed() {
        let p = setup(Vector3::new(1e-4, -2e-4, 5e-5), coupled(), 50 * S);
        let sc = at([v(0, 2.0), v(1, 2.0), 51.0, 0.02, v(2, 0.02), v(3, 0.02)], E0);
        let objs = [(1, 3.0), (2, 54.0)];
        match tg(&p, [(5, 1.0, 3.0), (1, 50.0, 900.0)], objs, 1e-3, 20).try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()) {
            Ok(s) => sound(&s, &p, six(&sc), [5, 1], objs, 1e-3, 900.0, E0, E0 + 100 * S),
            Err(e) => { eprintln!("{e:?}"); vp_check(false, 7) },
        }
    }
    //@ time=120
    /// fewer objectives than variables: the smallest correction
    fn h_least() {
        let p = setup(Vector3::new(1e-4, -2e-4, 5e-5), coupled(), 50 * S);
        let sc = at([v(0, 2.0), v(1, 2.0), 51.0, 0.02, v(2, 0.02), v(3, 0.02)], E0);
        let dual = vp_fix_i64(vp_i64(9, 0, 1)) == 1;
        let t = tg(&p, [(3, 1.0, 3.0), (4, 1.0, 3.0), (5, 1.0, 3.0)], [(0, 9.0)], 1e-3, 3);
        match if dual { t.try_achieve_dual(sc, ep(E0), ep(E0 + 100 * S), alm()) } else { t.try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()) } {
            Ok(s) => {
                sound(&s, &p, six(&sc), [3, 4, 5], [(0, 9.0)], 1e-3, 3.0, E0, E0 + 100 * S);
                // along the gradient
                let base = fly(&p, at([0.0, 0.0, 50.0, 0.0, 0.0, 0.0], E0), E0 + 100 * S)[0];
                let g = Vector3::from_fn(|k, _| { let mut x = [0.0, 0.0, 50.0, 0.0, 0.0, 0.0]; x[3 + k] = 1.0; fly(&p, at(x, E0), E0 + 100 * S)[0] - base });
                let u = g.cross(&s.correction) / g.norm();
                for k in 0..3 { vp_check(u[k].abs() <= 1e-7, 8); }
            }
            Err(e) => { eprintln!("{e:?}"); vp_check(false, 7) },
        }
    }
    //@ time=120
    /// initial guess, within the bounds or not
    fn h_guess() {
        let p = line(100 * S);
        let sc = at([v(0, 5.0), 1.0, 52.0, 0.0, 0.0, 0.0], E0);
        let mut t = tg(&p, [(3, 0.2, 0.12)], [(0, 10.0)], 1e-3, 3);
        t.variables[0] = t.variables[0].with_initial_guess(v(1, 0.12));
        let dual = vp_fix_i64(vp_i64(9, 0, 1)) == 1;
        let need = (10.0 - sc.orbit.radius_km.x) / 100.0;
        match if dual { t.try_achieve_dual(sc, ep(E0), ep(E0 + 100 * S), alm()) } else { t.try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()) } {
            Ok(s) => sound(&s, &p, six(&sc), [3], [(0, 10.0)], 1e-3, 0.12, E0, E0 + 100 * S),
            Err(_) => vp_check(need.abs() >= 0.1199, 7),
        }
    }
    //@ time=120
    /// any one of the six components towards its own value, from an initial guess: state and guess symbolic, with and without partial derivatives
    fn h_each() {
        let p = line(100 * S);
        let sc = at([v(0, 5.0), v(1, 5.0), 52.0 + v(2, 2.0), v(3, 0.1), v(4, 0.1), v(5, 0.1)], E0);
        let k = vp_fix_i64(vp_i64(8, 0, 5)) as usize;
        let dual = vp_fix_i64(vp_i64(9, 0, 1)) == 1;
        let goal = [10.0, -3.0, 54.0, 0.2, -0.1, 0.1][k];
        let (step, bound) = if k < 3 { (20.0, 40.0) } else { (0.2, 0.5) };
        let mut t = tg(&p, [(k, step, bound)], [(k, goal)], 1e-4, 3);
        let g = v(6, 1.0) * bound * 0.5;
        t.variables[0] = t.variables[0].with_initial_guess(g);
        match if dual { t.try_achieve_dual(sc, ep(E0), ep(E0 + 100 * S), alm()) } else { t.try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()) } {
            Ok(s) => sound(&s, &p, six(&sc), [k], [(k, goal)], 1e-4, bound, E0, E0 + 100 * S),
            Err(e) => { eprintln!("{e:?}"); vp_check(false, 7) },
        }
    }
    //@ time=120
    /// corrections in the local frame of the uncorrected state, over several iterations
    fn h_vnc() {
        let sc = at([10.0, 1.0, 52.0, 0.03, 0.04, 0.0], E0);
        // V along the velocity, N along the momentum, C completes
        let (r, w) = (sc.orbit.radius_km, sc.orbit.velocity_km_s);
        let (x, n) = (w / w.norm(), r.cross(&w) / r.cross(&w).norm());
        let c = x.cross(&n);
        let need = [vp_f64(0, 0.055, 0.095), vp_f64(1, 0.055, 0.095), vp_f64(2, -0.095, -0.055)];
        // the push to be compensated
        let acc = (x * need[0] + n * need[1] + c * need[2]) * -0.02;
        let p = setup(acc, Matrix3::zeros(), 100 * S);
        let goal = [13.0, 5.0, 52.0];
        let mut t = tg(&p, [(3, 0.05, 0.5), (4, 0.05, 0.5), (5, 0.05, 0.5)], [(0, goal[0]), (1, goal[1]), (2, goal[2])], 1e-3, 6);
        t.correction_frame = Some(nyx_space::dynamics::guidance::LocalFrame::VNC);
        match t.try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()) {
            Ok(s) => {
                let f = six(&s.corrected_state);
                for k in 0..3 { vp_check((f[k] + 100.0 * f[k + 3] + 5000.0 * acc[k] - goal[k]).abs() <= 1.1e-3, 4); }
                let dv = s.corrected_state.orbit.velocity_km_s - w;
                let want = x * s.correction[0] + n * s.correction[1] + c * s.correction[2];
                for k in 0..3 { vp_check(near(dv[k], want[k], 1e-7), 2); vp_check(near(f[k], r[k], 1e-9), 3); vp_check(s.correction[k].abs() <= 0.5 + 1e-9, 1); }
            }
            Err(e) => { eprintln!("{e:?}"); vp_check(false, 7) }
        }
    }
    /// a correction is accepted exactly when the objectives are reached
    fn h_apply() {
        let p = line(100 * S);
        let sc = at([v(0, 5.0), v(1, 5.0), 52.0, v(2, 0.1), 0.01, 0.0], E0);
        let mut t = tg(&p, [(3, 0.05, 0.12)], [(0, 10.0), (1, 2.0)], 1e-3, 3);
        let (x, y) = (sc.orbit.radius_km.x + 100.0 * sc.orbit.velocity_km_s.x, sc.orbit.radius_km.y + 1.0);
        let k = vp_fix_i64(vp_i64(9, 0, 1)) as usize;
        t.objectives[0].multiplicative_factor = [1.0, 0.01][k];
        t.objectives[1].additive_factor = [0.0, 0.5][k];
        let err = [[1.0, 0.01][k] * (10.0 - x), 2.0 - y + [0.0, 0.5][k]];
        let sol = TargeterSolution { corrected_state: sc, achieved_state: { let mut f = sc; f.set_epoch(ep(E0 + 100 * S)); f }, correction: [0.0].into(), variables: t.variables, achieved_errors: [0.0, 0.0].into(), achieved_objectives: t.objectives, iterations: 1, computation_dur: Default::default() };
        match t.apply(&sol, alm()) {
            Ok(f) => { vp_check(err[0].abs() <= 1e-3 + 1e-9 && err[1].abs() <= 1e-3 + 1e-9, 1); vp_check(near(f.orbit.radius_km.x, x, 1e-9) && f.epoch() == ep(E0 + 100 * S), 2); }
            Err(_) => vp_check(err[0].abs() >= 1e-3 - 1e-9 || err[1].abs() >= 1e-3 - 1e-9, 3),
        }
    }
    /// objectives in another frame than that of the propagation
    fn h_frame() {
        use vpharness::alm::*;
        let a = Arc::new(almanac(&[body(399, 0, [0.0; 3], [0.0; 3]), body(301, 399, [1000.0, -500.0, 20.0], [0.01, 0.02, -0.01])], &[(399, 0.0, 1.0), (301, 0.0, 1.0)]));
        let p = line(100 * S);
        let sc = at([v(0, 5.0), v(1, 5.0), 52.0, v(2, 0.1), 0.01, 0.0], E0);
        let mut t = tg(&p, [(3, 2.0, 30.0), (4, 2.0, 30.0)], [(0, -990.0), (1, 510.0)], 1e-3, 20);
        let moon = a.frame_info(anise::constants::frames::MOON_J2000).unwrap();
        t.objective_frame = Some(moon);
        let dual = vp_fix_i64(vp_i64(9, 0, 1)) == 1;
        match if dual { t.try_achieve_dual(sc, ep(E0), ep(E0 + 100 * S), a.clone()) } else { t.try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), a.clone()) } {
            Ok(s) => {
                let f = p.with(s.corrected_state, a.clone()).until_epoch(ep(E0 + 100 * S)).unwrap().orbit;
                let m = a.transform(anise::constants::frames::MOON_J2000, free(), ep(E0 + 100 * S), None).unwrap();
                vp_check((f.radius_km.x - m.radius_km.x + 990.0).abs() <= 1e-3 + 1e-7 && (f.radius_km.y - m.radius_km.y - 510.0).abs() <= 1e-3 + 1e-7, 4);
                vp_check(t.apply(&s, a.clone()).is_ok(), 5);
            }
            Err(e) => { eprintln!("{e:?}"); vp_check(false, 7) },
        }
    }
    /// variables out of order are refused
    fn h_valid() {
        let p = line(100 * S);
        let sc = at([1.0, 1.0, 2.0, 0.03, 0.01, 0.0], E0);
        let (st, lo, hi) = (v(0, 1.0), v(1, 1.0), v(2, 1.0));
        let x = var(Vary::VelocityX, st, lo, hi);
        let ok = st >= 0.0 && hi >= 0.0 && lo <= hi;
        vp_check(x.valid().is_ok() == ok, 1);
        let w = v(3, 2.0);
        if ok {
            let c = if w > hi { hi } else if w < lo { lo } else { w };
            vp_check(x.apply_bounds(w) == c, 2);
            vp_check(x.check_bounds(w) == (c, c == w), 3);
            let mut y = w;
            x.ensure_bounds(&mut y);
            vp_check(y == c, 4);
        } else {
            let mut t = tg(&p, [(3, 0.05, 0.12)], [(0, 10.0)], 1e-3, 3);
            t.variables[0] = x;
            vp_check(matches!(t.try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()), Err(TargetingError::VariableError { .. })), 5);
            vp_check(matches!(t.try_achieve_dual(sc, ep(E0), ep(E0 + 100 * S), alm()), Err(TargetingError::VariableError { .. })), 5);
        }
        // finite burns need a thruster; positions cannot be moved in a local frame
        let k = vp_fix_i64(vp_i64(4, 0, 18)) as usize;
        let fin = [Vary::MnvrAlpha, Vary::MnvrAlphaDot, Vary::MnvrAlphaDDot, Vary::MnvrDelta, Vary::MnvrDeltaDot, Vary::MnvrDeltaDDot, Vary::StartEpoch, Vary::Duration, Vary::EndEpoch, Vary::ThrustX, Vary::ThrustY, Vary::ThrustZ, Vary::ThrustLevel, Vary::ThrustRateX, Vary::ThrustRateY, Vary::ThrustRateZ, Vary::ThrustAccelX, Vary::ThrustAccelY, Vary::ThrustAccelZ][k];
        let mut t = tg(&p, [(k % 3, 0.05, 0.12)], [(0, 10.0)], 1e-3, 3);
        t.variables[0] = fin.into();
        vp_check(fin.is_finite_burn(), 6);
        vp_check(matches!(t.try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()), Err(TargetingError::GuidanceError { .. })), 7);
        vp_check(matches!(t.try_achieve_dual(sc, ep(E0), ep(E0 + 100 * S), alm()), Err(TargetingError::UnsupportedVariable { .. })), 8);
        for q in VARY { vp_check(!q.is_finite_burn(), 9); }
        let mut t = tg(&p, [(k % 3, 0.05, 0.12)], [(0, 10.0)], 1e-3, 3);
        t.correction_frame = Some(nyx_space::dynamics::guidance::LocalFrame::VNC);
        vp_check(matches!(t.try_achieve_fd(sc, ep(E0), ep(E0 + 100 * S), alm()), Err(TargetingError::FrameError { .. })), 10);
    }
    /// an objective is met within its tolerance, inclusive
    fn h_assess() {
        let (d, tol, m, a, x) = (v(0, 1e4), vp_f64(1, 0.0, 10.0), vp_f64(2, 0.1, 10.0), v(3, 5.0), v(4, 1e4));
        let o = Objective { parameter: el(Oe::X), desired_value: d, tolerance: tol, multiplicative_factor: m, additive_factor: a };
        let e = m * (d - x) + a;
        let (ok, err) = o.assess_value(x);
        vp_check(near(err, e, 1e-6), 1);
        vp_check(if ok { err.abs() <= tol } else { err.abs() > tol }, 2);
        let q = Objective::within_tolerance(el(Oe::X), d, tol);
        let r = q.assess(&at([x, 1.0, 2.0, 0.1, 0.2, 0.3], E0)).unwrap();
        vp_check(near(r.1, d - x, 1e-9) && r.0 == (r.1.abs() <= tol), 3);
        vp_check(Objective::new(el(Oe::X), d).desired_value == d, 4);
    }
}
