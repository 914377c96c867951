use hifitime::Epoch;
use nyx_space::linalg::{OMatrix, OVector, Const};
use nyx_space::od::estimate::KfEstimate;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::{MeasurementType, TrackingDataArc};
use nyx_space::od::blse::{BLSSolver, BLSSolution, BatchLeastSquares};
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use std::collections::BTreeMap;
use std::sync::Arc;
use vpharness::od::*;
use vpharness::sc::*;
use vpharness::*;

type M6 = OMatrix<f64, Const<6>, Const<6>>;
type V6 = OVector<f64, Const<6>>;
const S: i64 = 1_000_000_000;

fn gauge(name: &str, h0: [f64; 6], h1: [f64; 6]) -> Gauge {
    Gauge { name: name.to_string(), types: [RG, DP].into_iter().collect(), h: [h0, h1], bias: [0.0; 2], var: [1e-9, 2e-9], seen: true }
}
/// two devices; together they observe the whole state over time
fn devices() -> [Gauge; 2] {
    [gauge("A", [1.0, 0.0, 0.5, 0.0, 0.0, 0.0], [0.0, 1.0, -0.5, 0.0, 2.0, 0.0]), gauge("B", [0.0, -1.0, 1.0, 0.0, 0.0, 1.0], [1.0, 0.5, 0.0, 5.0, 0.0, 0.0])]
}
fn bls(solver: BLSSolver, devs: &[Gauge], iterations: usize, step: i64) -> BatchLeastSquares<Drift6, Gauge> {
    let mut m = BTreeMap::new();
    for d in devs { m.insert(d.name.clone(), d.clone()); }
    BatchLeastSquares::builder()
        .prop(Propagator::new(Drift6(BEND), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(step * S))))
        .devices(m).solver(solver).max_iterations(iterations).max_step(ns(step * S)).lm_lambda_init(1e-12).lm_lambda_min(1e-12).almanac(Arc::new(anise::prelude::Almanac::default())).build()
}
fn state(x: [f64; 6]) -> Od6 { Od6 { epoch: ep(E0), x, stm: None } }
fn st(id: u32, p: f64, w: f64) -> [f64; 6] { let mut o = [0.0; 6]; for i in 0..6 { o[i] = v(id + i as u32, if i < 3 { p } else { w }); } o }
fn epoch(t: i64) -> Epoch { ep(E0 + t * S) }
/// measurements of every device and type of the motion `x`, with bias, at these seconds
fn data(devs: &[Gauge], x: &[f64; 6], t: &[i64]) -> Vec<Measurement> {
    let mut o = vec![];
    for t in t { for g in devs {
        let mut m = Measurement::new(g.name.clone(), epoch(*t));
        let y = at6(x, *t as f64);
        m.push(RG, g.value(RG, &y) + g.bias[0]);
        m.push(DP, g.value(DP, &y) + g.bias[1]);
        o.push(m);
    } }
    o
}
fn arc(m: Vec<Measurement>) -> TrackingDataArc { TrackingDataArc { measurements: m, source: None, moduli: None, force_reject: false } }
/// sum over the data of h' w h mapped to the initial epoch
fn info(devs: &[Gauge], t: &[i64]) -> M6 {
    let mut o = M6::zeros();
    for t in t { for g in devs { for k in 0..2 {
        let mut h = [0.0; 6];
        for i in 0..6 { let mut e = [0.0; 6]; e[i] = 1.0; let y = at6(&e, *t as f64); for j in 0..6 { h[i] += g.h[k][j] * y[j]; } }
        let h = V6::from_column_slice(&h);
        o += h * h.transpose() / g.var[k];
    } } }
    o
}
fn good(s: &BLSSolution<Od6>, x: &[f64; 6], id: u32) {
    vp_check(s.estimated_state.epoch == epoch(0), id);
    for i in 0..6 { vp_check(near(s.estimated_state.x[i], x[i], 1e-4), id + 1); }
}
/// one iteration solves a linear problem, whatever the guess, the truth and the biases
fn solve(solver: BLSSolver) {
    let mut d = devices();
    for k in 0..2 { d[k].bias = [v(1 + 2 * k as u32, 10.0), v(2 + 2 * k as u32, 1.0)]; }
    let (x, g) = (st(10, 10.0, 1.0), st(20, 10.0, 1.0));
    let step = [60, 25][vp_fix_i64(vp_i64(5, 0, 1)) as usize];
    let t = [20, 50, 90];
    let s = bls(solver, &d, 1, step).estimate(state(g), &arc(data(&d, &x, &t))).unwrap();
    good(&s, &x, 10);
    vp_check(s.num_iterations == 1, 1);
    // the covariance is the inverse of the information
    let p = s.covariance * info(&d, &t);
    for i in 0..6 { for j in 0..6 { vp_check(near(p[(i, j)], if i == j { 1.0 } else { 0.0 }, 1e-3), 2); } }
}

harnesses! {
    /// arbitrary guess, truth and biases; three epochs, two devices of two types, steps of 60 and 25 s
    fn h_c16_normal() { solve(BLSSolver::NormalEquations); }
    /// the same, Levenberg-Marquardt (starting almost undamped)
    fn h_c16_lm() { solve(BLSSolver::LevenbergMarquardt); }

    /// only one instant with six observations of two devices determines the state: at the initial epoch too
    fn h_c16_simultaneous() {
        let d = devices();
        let (x, g) = (st(10, 10.0, 1.0), st(20, 10.0, 1.0));
        let t = [[0, 40], [30, 70]][vp_fix_i64(vp_i64(5, 0, 1)) as usize];
        let s = bls(BLSSolver::NormalEquations, &d, 1, 60).estimate(state(g), &arc(data(&d, &x, &t))).unwrap();
        good(&s, &x, 10);
        let p = s.covariance * info(&d, &t);
        for i in 0..6 { for j in 0..6 { vp_check(near(p[(i, j)], if i == j { 1.0 } else { 0.0 }, 1e-3), 2); } }
    }
    /// rejected measurements, unknown devices and devices out of sight do not count
    fn h_c16_skip() {
        let d = devices();
        let (x, g) = (st(10, 10.0, 1.0), st(20, 10.0, 1.0));
        let mut m = data(&d, &x, &[20, 50, 90]);
        let mut bad = Measurement::new("A".to_string(), epoch(50));
        bad.push(RG, v(30, 1e3));
        let k = vp_fix_i64(vp_i64(5, 0, 2));
        let mut dd = d.to_vec();
        match k {
            0 => bad.rejected = true,
            1 => bad.tracker = "Z".to_string(),
            _ => { bad.tracker = "C".to_string(); let mut c = d[0].clone(); c.name = "C".to_string(); c.seen = false; dd.push(c); }
        }
        m.insert(2 + vp_fix_i64(vp_i64(6, 0, 2)) as usize, bad);
        let b = bls(BLSSolver::NormalEquations, &dd, 1, 60);
        let s = b.estimate(state(g), &arc(m.clone())).unwrap();
        good(&s, &x, 10);
        vp_check(near(b.evaluate(state(x), &arc(m)).unwrap(), 0.0, 1e-3), 1);
    }
    /// the root mean square that is reported is that of the weighted residuals of the guess
    fn h_c16_rms() {
        let mut d = devices();
        d[0].bias = [v(1, 10.0), v(2, 1.0)];
        d[0].var = [0.5, 0.25];
        let x = st(10, 10.0, 1.0);
        let y = [v(20, 10.0), v(21, 10.0), v(22, 10.0)];
        let mut m = vec![];
        for (k, t) in [0, 40, 100].into_iter().enumerate() { let mut q = Measurement::new("A".to_string(), epoch(t)); q.push([RG, DP, RG][k], y[k]); m.push(q); }
        let b = bls(BLSSolver::NormalEquations, &d, 1, 60);
        let mut sum = 0.0;
        for (k, t) in [0.0, 40.0, 100.0].into_iter().enumerate() {
            let ty: MeasurementType = [RG, DP, RG][k];
            let r = y[k] - d[0].value(ty, &at6(&x, t)) - d[0].bias[k % 2];
            sum += r * r / d[0].var[k % 2];
        }
        let a = arc(m);
        let e = b.evaluate(state(x), &a).unwrap();
        vp_check(e >= 0.0 && near(3.0 * e * e, sum, 1e-3), 1);
        let f = b.estimate(state(x), &a).unwrap().final_rms;
        vp_check(f >= 0.0 && near(3.0 * f * f, sum, 1e-3), 2);
    }
    /// further iterations stay at the solution, and it says that it has converged when it has
    fn h_c16_converged() {
        let d = devices();
        let x = st(10, 10.0, 1.0);
        let mut g = x;
        let i = vp_fix_i64(vp_i64(5, 0, 5)) as usize;
        g[i] += v(20, 10.0);
        let m = data(&d, &x, &[20, 50, 90]);
        let n = 1 + vp_fix_i64(vp_i64(6, 0, 2)) as usize;
        let s = bls(BLSSolver::NormalEquations, &d, n, 60).estimate(state(g), &arc(m)).unwrap();
        good(&s, &x, 10);
        vp_check(s.num_iterations >= 1 && s.num_iterations <= n, 1);
        vp_check(s.converged == (s.final_corr_pos_km < 1e-4), 2);
        vp_check(s.converged || s.num_iterations == n, 3);
        if n == 3 { vp_check(s.converged, 4); }
    }
    /// too few or not finite measurements, no noise, are errors
    fn h_c16_errors() {
        let mut d = devices();
        let x = st(10, 10.0, 1.0);
        let mut m = data(&d, &x, &[20, 50]);
        match vp_fix_i64(vp_i64(5, 0, 3)) {
            0 => { m.truncate(1); }
            1 => { for k in 1..4 { m[k].rejected = true; } }
            2 => { m[2].push(RG, f64::NAN); }
            _ => { d[0].var[0] = 0.0; }
        }
        vp_check(bls(BLSSolver::NormalEquations, &d, 3, 60).estimate(state(x), &arc(m)).is_err(), 1);
    }
    /// as the estimate a filter starts from: same state, same covariance
    fn h_c16_kf() {
        let mut p = M6::zeros();
        for i in 0..6 { for j in 0..=i { let a = v(30 + 6 * i as u32 + j as u32, 10.0); p[(i, j)] = a; p[(j, i)] = a; } }
        let x = st(10, 1e4, 10.0);
        let s = BLSSolution { estimated_state: state(x), covariance: p, num_iterations: 1, final_rms: 0.0, final_corr_pos_km: 0.0, converged: true };
        let e: KfEstimate<Od6> = s.into();
        vp_check(e.nominal_state.x == x && e.state_deviation.norm() == 0.0, 1);
        for i in 0..6 { for j in 0..6 { vp_check(e.covar[(i, j)] == p[(i, j)], 2); } }
    }
    /// of a spacecraft: what is not estimated has no covariance with anything
    fn h_c16_kf_spacecraft() {
        let mut p = OMatrix::<f64, Const<9>, Const<9>>::zeros();
        for i in 0..9 { for j in 0..=i { let a = v(30 + 9 * i as u32 + j as u32, 10.0); p[(i, j)] = a; p[(j, i)] = a; } }
        let sc = craft(1, ep(E0));
        let s = BLSSolution { estimated_state: sc, covariance: p, num_iterations: 1, final_rms: 0.0, final_corr_pos_km: 0.0, converged: true };
        let e: KfEstimate<nyx_space::Spacecraft> = s.into();
        for i in 0..9 { for j in 0..9 { vp_check(e.covar[(i, j)] == if i < 6 && j < 6 { p[(i, j)] } else { 0.0 }, 1); } }
    }
}
