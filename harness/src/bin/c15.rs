use indexmap::IndexSet;
use nyx_space::linalg::{OMatrix, OVector, SMatrix, SVector, U1, U2, U3};
use nyx_space::od::estimate::{Estimate, KfEstimate, Residual};
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::{MeasurementType, TrackingDataArc};
use nyx_space::od::prelude::KalmanVariant;
use nyx_space::linalg::Const;
use nyx_space::od::snc::ProcessNoise3D;
use nyx_space::od::process::{KalmanODProcess, ODSolution, SigmaRejection};
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use hifitime::Epoch;
use std::collections::BTreeMap;
use std::sync::Arc;
use vpharness::od::*;
use vpharness::sc::*;
use vpharness::*;

type M2 = SMatrix<f64, 2, 2>;
type V2 = SVector<f64, 2>;
const EKF: KalmanVariant = KalmanVariant::ReferenceUpdate;
const CKF: KalmanVariant = KalmanVariant::DeviationTracking;
const S: i64 = 1_000_000_000;
const STEP: i64 = 60;

fn p0() -> M2 { M2::new(4.0, 0.5, 0.5, 1.0) }
fn gauge(name: &str, types: &[MeasurementType]) -> Gauge {
    Gauge { name: name.to_string(), types: types.iter().copied().collect(), h: [[1.0, 0.25, 0.0, 0.0, 0.0, 0.0], [0.5, 2.0, 0.0, 0.0, 0.0, 0.0]], bias: [0.0; 2], var: [0.5, 0.25], seen: true }
}
fn prop() -> Propagator<Drift> { Propagator::new(Drift, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(STEP * S))) }
macro_rules! process {
    ($n:ident, $m:ty) => {
        fn $n(var: KalmanVariant, rej: Option<f64>, devs: &[Gauge]) -> KalmanODProcess<Drift, $m, U3, Gauge> {
            let mut m = BTreeMap::new();
            for d in devs { m.insert(d.name.clone(), d.clone()); }
            KalmanODProcess::new(prop(), var, rej.map(|num_sigmas| SigmaRejection { num_sigmas }), m, Arc::new(anise::prelude::Almanac::default()))
        }
    };
}
process!(process1, U1);
process!(process2, U2);
fn msr(tracker: &str, t: i64, vals: &[(MeasurementType, f64)]) -> Measurement {
    let mut m = Measurement::new(tracker.to_string(), ep(E0 + t * S));
    for (k, v) in vals { m.push(*k, *v); }
    m
}
fn arc(m: Vec<Measurement>) -> TrackingDataArc { TrackingDataArc { measurements: m, source: None, moduli: None, force_reject: false } }
/// arbitrary state and deviation
fn start(id: u32) -> KfEstimate<Od2> {
    let mut e = KfEstimate::from_covar(Od2 { epoch: ep(E0), x: [v(id, 1e3), v(id + 1, 10.0)], stm: None }, p0());
    e.state_deviation = V2::new(v(id + 2, 10.0), v(id + 3, 1.0));
    e
}

/// the textbook filter on uniform motion: nominal state, deviation from it, covariance
#[derive(Clone)]
struct Ref { var: KalmanVariant, nom: [f64; 2], dev: V2, p: M2 }
impl Ref {
    fn new(var: KalmanVariant, e: &KfEstimate<Od2>) -> Ref { Ref { var, nom: e.nominal_state.x, dev: e.state_deviation, p: e.covar } }
    fn go(&mut self, t: f64) {
        if self.var == EKF { for i in 0..2 { self.nom[i] += self.dev[i]; } self.dev = V2::zeros(); }
        let phi = M2::new(1.0, t, 0.0, 1.0);
        self.nom[0] += t * self.nom[1];
        self.dev = phi * self.dev;
        self.p = phi * self.p * phi.transpose();
    }
    /// all the measurements at once: rows of H, variances and observation minus bias
    fn see<const M: usize>(&mut self, h: SMatrix<f64, M, 2>, r: SVector<f64, M>, y: SVector<f64, M>) -> SVector<f64, M> {
        if self.var == EKF { for i in 0..2 { self.nom[i] += self.dev[i]; } self.dev = V2::zeros(); }
        let s = h * self.p * h.transpose() + SMatrix::<f64, M, M>::from_diagonal(&r);
        let k = self.p * h.transpose() * s.try_inverse().unwrap();
        let pre = y - h * V2::new(self.nom[0], self.nom[1]);
        self.dev = self.dev + k * (pre - h * self.dev);
        self.p = (M2::identity() - k * h) * self.p;
        pre
    }
    fn same(&self, e: &KfEstimate<Od2>, t: i64, id: u32) {
        vp_check(e.epoch() == ep(E0 + t * S), id);
        for i in 0..2 {
            vp_check(near(e.nominal_state.x[i], self.nom[i], 1e-5), id + 1);
            vp_check(near(e.state_deviation[i], self.dev[i], 1e-5), id + 2);
            for j in 0..2 { vp_check(near(e.covar[(i, j)], self.p[(i, j)], 1e-7), id + 3); }
        }
    }
}
fn h1(g: &Gauge, k: usize) -> SMatrix<f64, 1, 2> { SMatrix::<f64, 1, 2>::new(g.h[k][0], g.h[k][1]) }
fn s1(x: f64) -> SVector<f64, 1> { SVector::<f64, 1>::new(x) }

/// scalar measurements with bias, time updates in between
fn basic(var: KalmanVariant) {
    let mut g = gauge("A", &[RG]);
    g.bias[0] = v(1, 100.0);
    let e = start(10);
    let y = [v(20, 1e3), v(21, 1e3)];
    let a = arc(vec![msr("A", 40, &[(RG, y[0])]), msr("A", 130, &[(RG, y[1])])]);
    let s = process1(var, None, &[g.clone()]).process_arc(e, &a).unwrap();
    vp_check(s.estimates.len() == 3 && s.residuals.len() == 3 && s.gains.len() == 3 && s.filter_smoother_ratios.len() == 3, 1);
    let mut r = Ref::new(var, &e);
    r.go(40.0);
    let pre = r.see(h1(&g, 0), s1(g.var[0]), s1(y[0] - g.bias[0]));
    r.same(&s.estimates[0], 40, 10);
    let z = s.residuals[0].as_ref().unwrap();
    vp_check(near(z.prefit[0], pre[0], 1e-5) && near(z.real_obs[0], y[0], 1e-9) && near(z.computed_obs[0], y[0] - pre[0], 1e-5) && !z.rejected, 2);
    vp_check(z.tracker.as_deref() == Some("A") && z.msr_types.len() == 1 && z.msr_types.contains(&RG) && z.epoch == ep(E0 + 40 * S), 3);
    r.go(60.0);
    r.same(&s.estimates[1], 100, 20);
    vp_check(s.residuals[1].is_none() && s.estimates[1].predicted, 4);
    r.go(30.0);
    let pre = r.see(h1(&g, 0), s1(g.var[0]), s1(y[1] - g.bias[0]));
    r.same(&s.estimates[2], 130, 30);
    vp_check(near(s.residuals[2].as_ref().unwrap().prefit[0], pre[0], 1e-4) && !s.estimates[2].predicted, 5);
    vp_check(s.is_filter_run() && !s.is_smoother_run(), 6);
    // whatever the variant, the state is the nominal one plus the deviation
    let x = s.to_traj().unwrap();
    vp_check(x.states.len() == 3, 7);
    for i in 0..2 { vp_check(near(x.states[2].x[i], r.nom[i] + r.dev[i], 1e-4), 8); }
}

/// measurement k is: 0 ordinary, 1 rejected by hand, 2 from an unknown tracker, 3 out of sight, 4 of a type the device lacks
fn skip(var: KalmanVariant) {
    let g = gauge("A", &[RG]);
    let mut b = gauge("B", &[RG]);
    b.seen = false;
    let e = start(10);
    let y = [v(20, 1e3), v(21, 1e3), v(22, 1e3)];
    let kind = vp_fix_i64(vp_i64(1, 0, 4));
    let mut m = msr(match kind { 2 => "Z", 3 => "B", _ => "A" }, 80, &[(if kind == 4 { DP } else { RG }, y[1])]);
    m.rejected = kind == 1;
    let a = arc(vec![msr("A", 40, &[(RG, y[0])]), m, msr("A", 130, &[(RG, y[2])])]);
    let s = process1(var, None, &[g.clone(), b]).process_arc(e, &a).unwrap();
    let mut r = Ref::new(var, &e);
    r.go(40.0);
    r.see(h1(&g, 0), s1(g.var[0]), s1(y[0]));
    r.same(&s.estimates[0], 40, 10);
    let mut n = 0;
    for (i, z) in s.residuals.iter().enumerate() { if let Some(z) = z { n += 1; vp_check(z.epoch == s.estimates[i].epoch(), 1); } }
    vp_check(n == if kind == 0 { 3 } else { 2 }, 2);
    vp_check(s.accepted_residuals().len() == n && s.rejected_residuals().is_empty(), 3);
    r.go(40.0);
    if kind == 0 { r.see(h1(&g, 0), s1(g.var[0]), s1(y[1])); }
    r.go(50.0);
    r.see(h1(&g, 0), s1(g.var[0]), s1(y[2]));
    r.same(s.estimates.last().unwrap(), 130, 20);
    // in between, only predictions of the first estimate
    for e in &s.estimates[1..s.estimates.len() - 1] { vp_check(kind == 0 || e.predicted, 4); }
}

/// sigma rejection, or of the whole arc
fn reject(var: KalmanVariant, force: bool) {
    let g = gauge("A", &[RG]);
    let e = start(10);
    let y = [v(20, 1e3), v(21, 1e3)];
    let mut a = arc(vec![msr("A", 40, &[(RG, y[0])]), msr("A", 80, &[(RG, y[1])])]);
    a.force_reject = force;
    let s = process1(var, Some(3.0), &[g.clone()]).process_arc(e, &a).unwrap();
    vp_check(s.estimates.len() == 2, 1);
    let mut r = Ref::new(var, &e);
    let mut acc = 0;
    for k in 0..2 {
        r.go(40.0);
        let mut q = r.clone();
        let sig = (h1(&g, 0) * q.p * h1(&g, 0).transpose())[0] + g.var[0];
        let pre = q.see(h1(&g, 0), s1(g.var[0]), s1(y[k]))[0];
        let z = s.residuals[k].as_ref().unwrap();
        vp_check(near(z.prefit[0], pre, 1e-4), 2);
        if z.rejected {
            vp_check(force || pre * pre >= 9.0 * sig - 1e-2, 3);
            r.same(&s.estimates[k], 40 * (k as i64 + 1), 10);
            vp_check(s.gains[k].is_none() && s.estimates[k].predicted, 4);
        } else {
            vp_check((!force || near(pre, 0.0, 1e-3)) && pre * pre <= 9.0 * sig + 1e-2, 5);
            acc += 1;
            r = q;
            r.same(&s.estimates[k], 40 * (k as i64 + 1), 20);
        }
    }
    vp_check(s.accepted_residuals().len() == acc && s.rejected_residuals().len() == 2 - acc, 6);
}

fn types(var: KalmanVariant, both: bool) {
    let mut g = gauge("A", &[RG, DP]);
    g.bias = [v(1, 100.0), v(2, 10.0)];
    let e = start(10);
    let y = [v(20, 1e3), v(21, 1e3), v(22, 1e3)];
    // the first measurement lacks a type, the second lists them in the other order
    let first = vp_fix_i64(vp_i64(3, 0, 1)) as usize;
    let m0 = if first == 0 { msr("A", 40, &[(RG, y[0])]) } else { msr("A", 40, &[(DP, y[0])]) };
    let a = arc(vec![m0, msr("A", 80, &[(DP, y[2]), (RG, y[1])])]);
    let mut r = Ref::new(var, &e);
    r.go(40.0);
    let pre = r.see(h1(&g, first), s1(g.var[first]), s1(y[0] - g.bias[first]))[0];
    let mut q = r.clone();
    q.go(40.0);
    let h2 = SMatrix::<f64, 2, 2>::new(g.h[0][0], g.h[0][1], g.h[1][0], g.h[1][1]);
    let pre2 = q.see(h2, SVector::<f64, 2>::new(g.var[0], g.var[1]), SVector::<f64, 2>::new(y[1] - g.bias[0], y[2] - g.bias[1]));
    if both {
        let s = process2(var, None, &[g.clone()]).process_arc(e, &a).unwrap();
        vp_check(s.estimates.len() == 2, 1);
        r.same(&s.estimates[0], 40, 10);
        q.same(&s.estimates[1], 80, 20);
        let z = s.residuals[0].as_ref().unwrap();
        vp_check(near(z.prefit[first], pre, 1e-4) && near(z.prefit[1 - first], 0.0, 1e-9), 2);
        let z = s.residuals[1].as_ref().unwrap();
        vp_check(near(z.prefit[0], pre2[0], 1e-4) && near(z.prefit[1], pre2[1], 1e-4), 3);
    } else {
        // one after the other, the same information
        let s = process1(var, None, &[g.clone()]).process_arc(e, &a).unwrap();
        vp_check(s.estimates.len() == 3, 4);
        r.same(&s.estimates[0], 40, 30);
        let z = s.estimates[2].state();
        for i in 0..2 {
            vp_check(near(z.x[i], q.nom[i] + q.dev[i], 1e-4), 5);
            for j in 0..2 { vp_check(near(s.estimates[2].covar[(i, j)], q.p[(i, j)], 1e-6), 6); }
        }
        vp_check(s.estimates[2].epoch() == ep(E0 + 80 * S) && s.estimates[1].epoch() == ep(E0 + 80 * S), 7);
        let t: Vec<_> = s.residuals.iter().map(|z| z.as_ref().unwrap().msr_types[0]).collect();
        vp_check(t[0] == (if first == 0 { RG } else { DP }) && t[1] == RG && t[2] == DP, 8);
        let x = s.to_traj().unwrap();
        vp_check(x.states.len() == 2, 9);
        for i in 0..2 { vp_check(near(x.states[1].x[i], q.nom[i] + q.dev[i], 1e-4), 10); }
    }
}

/// measurements of two devices at the same epoch, and one at the initial epoch
fn same_epoch(var: KalmanVariant) {
    let (a, mut b) = (gauge("A", &[RG]), gauge("B", &[RG]));
    b.h[0][0] = -0.5;
    b.h[0][1] = 1.5;
    b.bias[0] = v(1, 100.0);
    b.var[0] = 2.0;
    let e = start(10);
    let y = [v(20, 1e3), v(21, 1e3), v(22, 1e3)];
    let t = arc(vec![msr("B", 0, &[(RG, y[0])]), msr("B", 40, &[(RG, y[1])]), msr("A", 40, &[(RG, y[2])])]);
    let s = process1(var, None, &[a.clone(), b.clone()]).process_arc(e, &t).unwrap();
    vp_check(s.estimates.len() == 3, 1);
    let mut r = Ref::new(var, &e);
    r.go(0.0);
    r.see(h1(&b, 0), s1(2.0), s1(y[0] - b.bias[0]));
    r.same(&s.estimates[0], 0, 10);
    r.go(40.0);
    r.see(h1(&b, 0), s1(2.0), s1(y[1] - b.bias[0]));
    r.same(&s.estimates[1], 40, 20);
    r.see(h1(&a, 0), s1(0.5), s1(y[2]));
    r.same(&s.estimates[2], 40, 30);
    vp_check(s.residuals[1].as_ref().unwrap().tracker.as_deref() == Some("B") && s.residuals[2].as_ref().unwrap().tracker.as_deref() == Some("A"), 2);
}

/// prediction to any epoch with a step: ends there, exactly mapped
fn predict(var: KalmanVariant) {
    let e = start(10);
    let o = process1(var, None, &[]);
    let end = [0, 40, 60, 100, 150][vp_fix_i64(vp_i64(1, 0, 4)) as usize];
    let s = if vp_fix_i64(vp_i64(2, 0, 1)) == 0 { o.predict_until(e, ep(E0 + end * S)) } else { o.predict_for(e, ns(end * S)) }.unwrap();
    let mut r = Ref::new(var, &e);
    let mut t = 0;
    let mut k = 1;
    vp_check(s.estimates[0] == e, 1);
    while t < end {
        let d = STEP.min(end - t);
        t += d;
        r.go(d as f64);
        r.same(&s.estimates[k], t, 10);
        vp_check(s.estimates[k].predicted && s.residuals[k].is_none(), 2);
        k += 1;
    }
    vp_check(s.estimates.last().unwrap().epoch() == ep(E0 + end * S), 3);
    // nothing moves after the end
    r.go(0.0);
    for e in &s.estimates[k..] { r.same(e, end, 20); }
}

/// smoothing uniform motion: every smoothed state is the last one mapped back
fn smooth(var: KalmanVariant, two: bool) {
    let mut g = gauge("A", if two { &[RG, DP] } else { &[RG] });
    g.bias[0] = v(1, 100.0);
    g.bias[1] = v(2, 10.0);
    let e = start(10);
    let y = [v(20, 1e3), v(21, 1e3), v(22, 1e3)];
    let a = arc(vec![msr("A", 40, &[(RG, y[0])]), msr("A", 130, &[(RG, y[1])]), msr("A", 150, &[(RG, y[2])])]);
    // what is exactly zero cannot be told from what was not measured
    for x in y { vp_assume(x > 1e-6 || x < -1e-6); }
    macro_rules! check { ($s:expr, $dim:expr) => {{
        let (s, g) = ($s, &g);
        let f = s.clone();
        let s = s.smooth(&anise::prelude::Almanac::default()).unwrap();
        let n = f.estimates.len();
        vp_check(n == 4 && s.estimates.len() == n && s.residuals.len() == n && s.gains.len() == n && s.filter_smoother_ratios.len() == n, 1);
        let l = &f.estimates[n - 1];
        for k in 0..n {
            let (e, fe) = (&s.estimates[k], &f.estimates[k]);
            vp_check(e.epoch() == fe.epoch(), 2);
            let dt = (fe.epoch() - l.epoch()).to_seconds();
            let phi = M2::new(1.0, dt, 0.0, 1.0);
            let x = phi * V2::new(l.state().x[0], l.state().x[1]);
            let p = phi * l.covar * phi.transpose();
            for i in 0..2 {
                vp_check(near(e.state().x[i], x[i], 1e-4), 3);
                for j in 0..2 { vp_check(near(e.covar[(i, j)], p[(i, j)], 1e-6), 4); }
                vp_check(e.nominal_state.x[i] == fe.nominal_state.x[i], 5);
            }
            vp_check(s.residuals[k].is_some() == f.residuals[k].is_some(), 6);
            if let (Some(z), Some(fz)) = (&s.residuals[k], &f.residuals[k]) {
                vp_check(z.epoch == e.epoch() && z.real_obs[0] == fz.real_obs[0] && z.prefit[0] == fz.prefit[0] && z.tracker.as_deref() == Some("A"), 7);
                if k < n - 1 {
                    vp_check(near(z.postfit[0], z.real_obs[0] - (g.value(RG, &e.state().x) + g.bias[0]), 1e-4), 8);
                    if $dim == 2 { vp_check(near(z.postfit[1], 0.0, 1e-9), 9); }
                }
            }
            if let Some(q) = &s.filter_smoother_ratios[k] {
                for i in 0..2 {
                    let d = fe.covar[(i, i)] - e.covar[(i, i)];
                    let dx = fe.state().x[i] - e.state().x[i];
                    if d > 1e-3 { vp_check(near(q[i] * q[i] * d, dx * dx, 1e-2), 10); }
                }
            } else { vp_check(k == n - 1, 11); }
            vp_check(s.gains[k].is_none(), 12);
        }
        vp_check(s.is_smoother_run() && !s.is_filter_run(), 13);
    }} }
    if two { check!(process2(var, None, &[g.clone()]).process_arc(e, &a).unwrap(), 2) } else { check!(process1(var, None, &[g.clone()]).process_arc(e, &a).unwrap(), 1) }
}

type Sol = ODSolution<Od2, KfEstimate<Od2>, U1, Gauge>;
/// entry k: estimate at an epoch, carrying the tag k everywhere
fn push(s: &mut Sol, t: Epoch, k: usize, resid: Option<(&str, MeasurementType, bool)>) {
    let mut e = KfEstimate::from_covar(Od2 { epoch: t, x: [k as f64, 0.0], stm: None }, p0());
    e.state_deviation = V2::zeros();
    s.estimates.push(e);
    s.residuals.push(resid.map(|(n, ty, rej)| { let mut z = Residual::<U1>::zeros(); z.epoch = t; z.ratio = k as f64; z.tracker = Some(n.to_string()); z.msr_types.insert(ty); z.rejected = rej; z }));
    s.gains.push(if resid.is_some() { Some(OMatrix::<f64, C2, U1>::new(k as f64, 0.0)) } else { None });
    s.filter_smoother_ratios.push(Some(OVector::<f64, C2>::new(k as f64, 0.0)));
}
fn tags(s: &Sol) -> Vec<usize> {
    vp_check(s.residuals.len() == s.estimates.len() && s.gains.len() == s.estimates.len() && s.filter_smoother_ratios.len() == s.estimates.len(), 90);
    s.estimates.iter().enumerate().map(|(i, e)| {
        let k = e.nominal_state.x[0];
        if let Some(z) = &s.residuals[i] { vp_check(z.ratio == k && z.epoch == e.epoch(), 91); vp_check(s.gains[i].is_some(), 92); } else { vp_check(s.gains[i].is_none(), 93); }
        if let Some(g) = &s.gains[i] { vp_check(g[0] == k, 94); }
        vp_check(s.filter_smoother_ratios[i].unwrap()[0] == k, 95);
        k as usize
    }).collect()
}
fn empty() -> Sol { ODSolution::new(BTreeMap::new(), IndexSet::new()) }

harnesses! {
    /// observations, bias, initial state and deviation arbitrary; measurements at 40 s and 130 s, 60 s steps
    fn h_c15_arc_ekf() { basic(EKF); }
    /// as above, deviation tracking
    fn h_c15_arc_ckf() { basic(CKF); }
    /// a measurement rejected by hand, from an unknown device, out of sight or of a type the device has not leaves no trace
    fn h_c15_skip_ekf() { skip(EKF); }
    /// as above, deviation tracking
    fn h_c15_skip_ckf() { skip(CKF); }
    /// residual rejection at 3 sigma
    fn h_c15_reject_ekf() { reject(EKF, false); }
    /// residual rejection at 3 sigma
    fn h_c15_reject_ckf() { reject(CKF, false); }
    /// an arc flagged as rejected changes no estimate
    fn h_c15_force() { reject(EKF, true); }
    /// two types processed together, one missing from the first measurement
    fn h_c15_types2_ekf() { types(EKF, true); }
    /// as above, deviation tracking
    fn h_c15_types2_ckf() { types(CKF, true); }
    /// two types processed one after the other carry the same information
    fn h_c15_types1_ekf() { types(EKF, false); }
    /// as above, deviation tracking
    fn h_c15_types1_ckf() { types(CKF, false); }
    /// a filter of two types with a device that has only one
    fn h_c15_types_single() {
        let g = gauge("A", &[DP]);
        let e = start(10);
        let y = [v(20, 1e3), v(21, 1e3)];
        let a = arc(vec![msr("A", 40, &[(DP, y[0])]), msr("A", 80, &[(DP, y[1])])]);
        let s = process2(CKF, None, &[g.clone()]).process_arc(e, &a).unwrap();
        let mut r = Ref::new(CKF, &e);
        for k in 0..2 {
            r.go(40.0);
            r.see(h1(&g, 1), s1(g.var[1]), s1(y[k]));
            r.same(&s.estimates[k], 40 * (k as i64 + 1), 10);
        }
    }
    /// several devices at one epoch
    fn h_c15_same_epoch_ekf() { same_epoch(EKF); }
    /// as above, deviation tracking
    fn h_c15_same_epoch_ckf() { same_epoch(CKF); }
    /// a range known up to a modulus is resolved with the computed one
    fn h_c15_moduli() {
        let g = gauge("A", &[RG]);
        let mut e = start(10);
        e.state_deviation = V2::zeros();
        let mut y = [vp_f64(20, 0.0, 100.0), vp_f64(21, 0.0, 100.0)];
        let k = vp_fix_i64(vp_i64(1, -2, 2));
        let mut a = arc(vec![msr("A", 40, &[(RG, y[0])]), msr("A", 80, &[(RG, y[1])])]);
        a.set_moduli(RG, 100.0);
        // the computed range of the first one
        let c = e.nominal_state.x[0] + (40.0 + 0.25) * e.nominal_state.x[1];
        vp_assume(c > 100.0 * k as f64 + 1e-3 && c < 100.0 * (k + 1) as f64 - 1e-3);
        let s = process1(CKF, None, &[g.clone()]).process_arc(e, &a).unwrap();
        y[0] += 100.0 * k as f64;
        let z = s.residuals[0].as_ref().unwrap();
        vp_check(near(z.real_obs[0], y[0], 1e-6) && near(z.prefit[0], y[0] - c, 1e-5), 1);
        let mut r = Ref::new(CKF, &e);
        r.go(40.0);
        r.see(h1(&g, 0), s1(0.5), s1(y[0]));
        r.same(&s.estimates[0], 40, 10);
        // the second one is also within a modulus of what was expected
        let z = s.residuals[1].as_ref().unwrap();
        vp_check(z.prefit[0] > -100.0 - 1e-6 && z.prefit[0] < 100.0 + 1e-6, 2);
    }
    /// any measurement epochs: predictions never further apart than the step (plus the precision of the epoch, 1 us), estimates at the measurement epochs exactly
    fn h_c15_epochs() {
        let mut g = gauge("A", &[DP]);
        g.h[1][0] = 0.0;
        g.h[1][1] = 1.0;
        let e = start(10);
        let t1 = vp_i64(1, 0, 130 * S);
        let t2 = vp_i64(2, 0, 130 * S);
        vp_assume(t2 > t1);
        let step = [STEP * S, 45 * S][vp_fix_i64(vp_i64(3, 0, 1)) as usize];
        let a = arc([t1, t2].iter().map(|t| { let mut m = msr("A", 0, &[(DP, 5.0)]); m.epoch = ep(E0 + *t); m }).collect());
        let mut o = process1(EKF, None, &[g]);
        o.max_step = ns(step);
        let s = o.process_arc(e, &a).unwrap();
        let mut at = E0;
        let mut seen = vec![];
        for (i, e) in s.estimates.iter().enumerate() {
            let t = e.epoch();
            vp_check(t >= ep(at) && t < ep(at + step + 1000), 1);
            at = (t - ep(0)).total_nanoseconds() as i64;
            if let Some(z) = &s.residuals[i] { vp_check(z.epoch == t, 2); seen.push(t); } else { vp_check(e.predicted, 3); }
        }
        vp_check(seen.len() == 2 && seen[0] == ep(E0 + t1) && seen[1] == ep(E0 + t2), 4);
        vp_check(s.estimates.last().unwrap().epoch() == ep(E0 + t2), 5);
    }
    /// a process needs two finite measurements and a positive step
    fn h_c15_errors() {
        let g = gauge("A", &[RG]);
        let e = start(10);
        let k = vp_fix_i64(vp_i64(1, 0, 4));
        let mut ms = vec![msr("A", 40, &[(RG, v(20, 1e3))]), msr("A", 80, &[(RG, v(21, 1e3))])];
        let mut o = process1(EKF, None, &[g]);
        match k {
            0 => { ms.pop(); }
            1 => { o.max_step = ns(0); }
            2 => { o.max_step = ns(-S); }
            3 => { ms[1].push(RG, f64::NAN); }
            _ => { ms[0].push(RG, f64::INFINITY); }
        }
        vp_check(o.process_arc(e, &arc(ms)).is_err(), 1);
    }
    /// prediction to 0, 40, 60, 100 and 150 s with steps of 60 s
    fn h_c15_predict_ekf() { predict(EKF); }
    /// as above, deviation tracking
    fn h_c15_predict_ckf() { predict(CKF); }
    /// three range measurements and a prediction
    fn h_c15_smooth_ekf() { smooth(EKF, false); }
    /// as above, deviation tracking
    fn h_c15_smooth_ckf() { smooth(CKF, false); }
    /// two types configured, one always missing
    fn h_c15_smooth_types() { smooth(CKF, true); }
    /// a prediction with decaying process noise, from its start: any initial velocity variance
    fn h_c15_predict_noise() {
        let q = vp_f64(1, 0.01, 1.0);
        let (d, tau) = (1e-6, 0.01);
        let decay = vp_fix_i64(vp_i64(2, 0, 1)) == 1;
        let mut n = ProcessNoise3D::from_diagonal(&[d, d, d], ns(1000 * S), None);
        if decay { n = ProcessNoise3D::with_decay(&[d, d, d], ns(1000 * S), &[tau, tau, tau], None); }
        let s0 = Od6 { epoch: ep(E0), x: [7000.0, 10.0, -20.0, 0.5, 7.0, 1.0], stm: None };
        let e = KfEstimate::from_diag(s0, OVector::<f64, Const<6>>::from_column_slice(&[1.0, 1.0, 1.0, q, q, q]));
        let mut o: KalmanODProcess<Drift6, U1, U3, Gauge> = KalmanODProcess::new(Propagator::new(Drift6(0.0), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(STEP * S))), EKF, None, BTreeMap::new(), Arc::new(anise::prelude::Almanac::default()));
        o = o.with_process_noise(n);
        let s = o.predict_for(e, ns(100 * S)).unwrap();
        let (mut pp, mut pv, mut vv) = (1.0, 0.0, q);
        for (k, (dt, t)) in [(60.0, 60.0), (40.0, 100.0f64)].into_iter().enumerate() {
            let w = if decay { d * (-tau * t).exp() } else { d };
            pp = pp + 2.0 * dt * pv + dt * dt * vv + w * (dt * dt / 2.0) * (dt * dt / 2.0);
            pv = pv + dt * vv + w * (dt * dt / 2.0) * dt;
            vv += w * dt * dt;
            let c = &s.estimates[k + 1].covar;
           
            for i in 0..3 { vp_check(near(c[(i, i)], pp, 1e-6) && near(c[(i, i + 3)], pv, 1e-6) && near(c[(i + 3, i + 3)], vv, 1e-9), 1); }
        }
        vp_check(s.estimates.len() == 3, 2);
    }
    /// smoothing nothing or a single estimate
    fn h_c15_smooth_short() {
        let e = start(10);
        let n = vp_fix_i64(vp_i64(1, 0, 1));
        let mut s: ODSolution<Od2, KfEstimate<Od2>, U1, Gauge> = ODSolution::new(BTreeMap::new(), IndexSet::new());
        if n == 1 { s.estimates.push(e); s.residuals.push(None); s.gains.push(None); s.filter_smoother_ratios.push(None); }
        match s.smooth(&anise::prelude::Almanac::default()) {
            Ok(s) => { vp_check(s.estimates.len() == n as usize, 1); if n == 1 { vp_check(s.estimates[0].nominal_state.x == e.nominal_state.x, 2); } }
            Err(_) => vp_check(n == 0, 3),
        }
    }
    /// merging two solutions of up to three estimates each keeps every record together, in order
    fn h_c15_merge() {
        let (n, m) = (vp_fix_i64(vp_i64(1, 1, 3)) as usize, vp_fix_i64(vp_i64(2, 0, 2)) as usize);
        let t: Vec<i64> = (0..n + m).map(|k| vp_i64(10 + k as u32, 0, 1_000_000)).collect();
        for k in 1..n { vp_assume(t[k - 1] <= t[k]); }
        for k in 1..m { vp_assume(t[n + k - 1] <= t[n + k]); }
        let (mut a, mut b) = (empty(), empty());
        for k in 0..n { push(&mut a, ep(E0 + t[k]), k, if k == 1 { None } else { Some(("A", RG, false)) }); }
        for k in n..n + m { push(&mut b, ep(E0 + t[k]), k, Some(("B", DP, true))); }
        let s = a.merge(b);
        let g = tags(&s);
        vp_check(g.len() == n + m, 1);
        for k in 0..n + m { vp_check(g.iter().filter(|x| **x == k).count() == 1, 2); vp_check(s.estimates.iter().any(|e| e.nominal_state.x[0] == k as f64 && e.epoch() == ep(E0 + t[k])), 3); }
        for k in 1..n + m { vp_check(s.estimates[k - 1].epoch() <= s.estimates[k].epoch(), 4); }
    }
    /// every record: tracker A or B, range or Doppler, accepted or rejected, or a time update
    fn h_c15_filters() {
        let mut s = empty();
        let mut kind = vec![];
        for k in 0..3usize {
            let c = vp_fix_i64(vp_i64(10 + k as u32, 0, 4));
            kind.push(c);
            let r = match c { 0 => None, 1 => Some(("A", RG, false)), 2 => Some(("A", DP, true)), 3 => Some(("B", RG, true)), _ => Some(("B", DP, false)) };
            push(&mut s, ep(E0 + 10 * S * k as i64), k, r);
        }
        let want = |f: &dyn Fn(i64) -> bool| -> Vec<usize> { (0..3).filter(|k| f(kind[*k])).collect() };
        vp_check(tags(&s.clone().drop_time_updates()) == want(&|c| c != 0), 1);
        vp_check(tags(&s.clone().filter_by_tracker("A".to_string())) == want(&|c| c == 1 || c == 2), 2);
        vp_check(tags(&s.clone().exclude_tracker("A".to_string())) == want(&|c| c != 1 && c != 2), 3);
        vp_check(tags(&s.clone().filter_by_msr_type(DP)) == want(&|c| c == 2 || c == 4), 4);
        vp_check(s.accepted_residuals().len() == want(&|c| c == 1 || c == 4).len() && s.accepted_residuals().iter().all(|z| !z.rejected), 5);
        vp_check(s.rejected_residuals().len() == want(&|c| c == 2 || c == 3).len() && s.rejected_residuals().iter().all(|z| z.rejected), 6);
        let sp = s.clone().split();
        vp_check(sp.len() == (1..5).filter(|c| kind.contains(c)).count() && s.unique().len() == sp.len(), 7);
        for q in &sp {
            let t = tags(q);
            vp_check(!t.is_empty(), 8);
            vp_check(t == want(&|c| c == kind[t[0]]), 9);
        }
        for k in 0..3usize {
            let r = s.at(ep(E0 + 10 * S * k as i64)).unwrap();
            vp_check(r.estimate.nominal_state.x[0] == k as f64 && r.residual.is_some() == (kind[k] != 0) && r.gain.is_some() == (kind[k] != 0) && r.filter_smoother_ratio.unwrap()[0] == k as f64, 10);
        }
        vp_check(s.at(ep(E0 + 5 * S)).is_none(), 11);
    }
    /// statistics are over the residuals: adding predictions changes none of them
    fn h_c15_stats() {
        let mut s = empty();
        let pre = [v(1, 10.0), v(2, 10.0)];
        let post = [v(3, 10.0), v(4, 10.0)];
        let rat = [vp_f64(5, 0.0, 10.0), vp_f64(6, 0.0, 10.0)];
        let n = vp_fix_i64(vp_i64(7, 0, 2));
        push(&mut s, ep(E0), 0, Some(("A", RG, false)));
        for k in 0..n { push(&mut s, ep(E0 + (k + 1) * S), 2, None); }
        push(&mut s, ep(E0 + 10 * S), 1, Some(("A", RG, false)));
        let mut i = 0;
        for z in s.residuals.iter_mut().flatten() { z.prefit[0] = pre[i]; z.postfit[0] = post[i]; z.ratio = rat[i]; i += 1; }
        let rms = |a: f64, q: &[f64; 2]| a >= 0.0 && near(2.0 * a * a, q[0] * q[0] + q[1] * q[1], 1e-6);
        vp_check(rms(s.rms_prefit_residuals(), &pre), 1);
        vp_check(rms(s.rms_postfit_residuals(), &post), 2);
        vp_check(rms(s.rms_residual_ratios(), &rat), 3);
        let th = vp_f64(8, 0.0, 10.0);
        let c = rat.iter().filter(|r| **r <= th).count() as f64;
        vp_check(near(s.residual_ratio_within_threshold(th).unwrap(), c / 2.0, 1e-12), 4);
        vp_check(empty().residual_ratio_within_threshold(th).is_err(), 5);
    }
}
