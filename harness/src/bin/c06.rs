use nyx_space::linalg::{OMatrix, OVector, SMatrix, SVector, U1, U2, U3};
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::kalman::KalmanFilter;
use nyx_space::od::prelude::KalmanVariant;
use nyx_space::od::process::SigmaRejection;
use vpharness::sc::*;
use vpharness::toy::*;
use vpharness::*;

type M2 = SMatrix<f64, 2, 2>;

const VAR: [KalmanVariant; 2] = [KalmanVariant::ReferenceUpdate, KalmanVariant::DeviationTracking];

fn m2(id: u32, b: f64) -> M2 { M2::new(v(id, b), v(id + 1, b), v(id + 2, b), v(id + 3, b)) }
/// symmetric
fn sym2(id: u32, b: f64) -> M2 {
    let (a, c, o) = (vp_f64(id, 0.01, b), vp_f64(id + 1, 0.01, b), v(id + 2, b));
    M2::new(a, o, o, c)
}
fn eq(a: &M2, b: &M2, t: f64, id: u32) { for i in 0..2 { for j in 0..2 { vp_check(near(a[(i, j)], b[(i, j)], t), id); } } }

/// arbitrary earlier estimate and arbitrary propagated nominal state with its STM
fn setup(var: KalmanVariant) -> (KalmanFilter<Lin2, U3>, Lin2, M2, M2, SVector<f64, 2>) {
    let p = sym2(10, 10.0);
    let phi = m2(20, 3.0);
    let dev = SVector::<f64, 2>::new(v(30, 5.0), v(31, 5.0));
    let prev = Lin2 { epoch: ep(E0), x: [v(40, 1e3), v(41, 1e3)], stm: None };
    let mut est = KfEstimate::from_covar(prev, p);
    est.state_deviation = dev;
    let now = Lin2 { epoch: ep(E0 + vp_i64(1, 0, 1_000_000_000_000)), x: [v(42, 1e3), v(43, 1e3)], stm: Some(phi) };
    (KalmanFilter::new(est, var), now, p, phi, dev)
}
fn bar(var: KalmanVariant, phi: &M2, dev: &SVector<f64, 2>) -> SVector<f64, 2> { if var == KalmanVariant::DeviationTracking { phi * dev } else { SVector::<f64, 2>::zeros() } }

/// the documented time update
fn time(var: KalmanVariant) {
    let (mut kf, now, p, phi, dev) = setup(var);
    let est = kf.time_update(now).unwrap();
    let pb = phi * p * phi.transpose();
    eq(&est.covar, &pb, 1e-6, 1);
    eq(&est.covar_bar, &pb, 1e-6, 2);
    let xb = bar(var, &phi, &dev);
    for i in 0..2 { vp_check(near(est.state_deviation[i], xb[i], 1e-6), 3); vp_check(est.nominal_state.x[i] == now.x[i], 4); }
    vp_check(est.predicted, 5);
    vp_check(est.epoch() == now.epoch, 6);
    eq(&est.stm, &phi, 0.0, 7);
    let pe = kf.previous_estimate();
    eq(&pe.covar, &est.covar, 0.0, 8);
    vp_check(pe.epoch() == now.epoch && pe.predicted, 9);
    for i in 0..2 { vp_check(pe.state_deviation[i] == est.state_deviation[i], 10); }
}

/// scalar measurement against the textbook equations; `rej` uses an arbitrary rejection threshold
fn meas1(var: KalmanVariant, rej: bool) {
    let (mut kf, now, p, phi, dev) = setup(var);
    let h = SMatrix::<f64, 1, 2>::new(v(50, 3.0), v(51, 3.0));
    let r = vp_f64(52, 0.01, 10.0);
    let (re, co) = (v(53, 100.0), v(54, 100.0));
    let sig = vp_f64(55, 0.1, 10.0);
    let pb = phi * p * phi.transpose();
    let pht = pb * h.transpose();
    let s = (h * pht)[0] + r;
    // holds for every positive semi-definite covariance
    vp_assume(s >= 0.01);
    let y = re - co;
    let (est, res, gain) = kf.measurement_update::<U1>(now, OVector::<f64, U1>::new(re), OVector::<f64, U1>::new(co), OMatrix::<f64, U1, U1>::new(r), h, if rej { Some(SigmaRejection { num_sigmas: sig }) } else { None }).unwrap();
    vp_check(near(res.prefit[0], y, 1e-9) && res.real_obs[0] == re && res.computed_obs[0] == co && res.epoch == now.epoch, 1);
    vp_check(res.ratio >= 0.0 && near(res.ratio * res.ratio * s, y * y, 1e-4), 2);
    vp_check(near(res.nis() * s, y * y, 1e-4), 3);
    vp_check(near(res.tracker_msr_noise[0] * res.tracker_msr_noise[0], s, 1e-6), 4);
    eq(&est.covar_bar, &pb, 1e-6, 5);
    vp_check(est.epoch() == now.epoch, 6);
    let xb = bar(var, &phi, &dev);
    if res.rejected {
        vp_check(rej && y * y >= sig * sig * s - 1e-4, 7);
        vp_check(gain.is_none() && est.predicted, 8);
        eq(&est.covar, &pb, 1e-6, 9);
        for i in 0..2 { vp_check(near(est.state_deviation[i], xb[i], 1e-6), 10); }
    } else {
        vp_check(!rej || y * y <= sig * sig * s + 1e-4, 11);
        vp_check(!est.predicted, 12);
        let k = gain.unwrap();
        for i in 0..2 { vp_check(near(k[i] * s, pht[i], 1e-6), 13); }
        let inn = y - (h * xb)[0];
        // EKF: deviation is K y; CKF: xbar + K (y - H xbar)
        for i in 0..2 { vp_check(near(est.state_deviation[i], xb[i] + k[i] * inn, 1e-5), 14); }
        if var == KalmanVariant::ReferenceUpdate { vp_check(near(res.postfit[0] * s, y * r, 1e-4), 15); }
        // (I - K H) P, through the gain's own defining equation: S P+ = S P - P H' H P
        for i in 0..2 { for j in 0..2 { vp_check(near(est.covar[(i, j)] * s, pb[(i, j)] * s - pht[i] * pht[j], 1e-4), 16); } }
        vp_check(near(est.covar[(0, 1)], est.covar[(1, 0)], 0.0), 17);
    }
    let pe = kf.previous_estimate();
    eq(&pe.covar, &est.covar, 0.0, 18);
    for i in 0..2 { vp_check(pe.state_deviation[i] == est.state_deviation[i], 19); }
    vp_check(pe.epoch() == now.epoch && pe.predicted == est.predicted, 20);
}

/// two simultaneous measurements with correlated noise
fn meas2(var: KalmanVariant, rej: bool) {
    let (mut kf, mut now, p, _, dev) = setup(var);
    let phi = M2::identity();
    now.stm = Some(phi);
    let h = M2::new(1.0, if rej { 0.25 } else { v(50, 3.0) }, 0.5, 1.0);
    let r = sym2(60, 10.0);
    let re = SVector::<f64, 2>::new(v(64, 100.0), v(65, 100.0));
    let co = SVector::<f64, 2>::new(v(66, 100.0), v(67, 100.0));
    let sig = vp_f64(55, 0.1, 10.0);
    let pb = phi * p * phi.transpose();
    let pht = pb * h.transpose();
    let s = h * pht + r;
    let det = s[(0, 0)] * s[(1, 1)] - s[(0, 1)] * s[(1, 0)];
    vp_assume(s[(0, 0)] >= 0.01 && det >= 0.01);
    let y = re - co;
    let (est, res, gain) = kf.measurement_update::<U2>(now, re, co, r, h, if rej { Some(SigmaRejection { num_sigmas: sig }) } else { None }).unwrap();
    for i in 0..2 { vp_check(near(res.prefit[i], y[i], 1e-9) && res.real_obs[i] == re[i] && res.computed_obs[i] == co[i], 1); }
    // Mahalanobis distance, times det S: y' adj(S) y
    let maha = y[0] * y[0] * s[(1, 1)] - 2.0 * y[0] * y[1] * s[(0, 1)] + y[1] * y[1] * s[(0, 0)];
    vp_check(res.ratio >= 0.0 && near(2.0 * res.ratio * res.ratio * det, maha, 1e-2), 2);
    vp_check(near(res.tracker_msr_noise[0] * res.tracker_msr_noise[0], s[(0, 0)], 1e-6), 4);
    eq(&est.covar_bar, &pb, 1e-6, 5);
    let xb = bar(var, &phi, &dev);
    if res.rejected {
        vp_check(rej && maha >= 2.0 * sig * sig * det - 1e-2, 7);
        vp_check(gain.is_none() && est.predicted, 8);
        eq(&est.covar, &pb, 1e-6, 9);
        for i in 0..2 { vp_check(near(est.state_deviation[i], xb[i], 1e-6), 10); }
    } else {
        vp_check(!rej || maha <= 2.0 * sig * sig * det + 1e-2, 11);
        vp_check(!est.predicted, 12);
        let k = gain.unwrap();
        eq(&(k * s), &pht, 1e-3, 13);
        let inn = y - h * xb;
        let want = xb + k * inn;
        for i in 0..2 { vp_check(near(est.state_deviation[i], want[i], 1e-4), 14); }
        if var == KalmanVariant::ReferenceUpdate { let pf = y - h * k * y; for i in 0..2 { vp_check(near(res.postfit[i], pf[i], 1e-4), 15); } }
        let ikh = M2::identity() - k * h;
        eq(&est.covar, &(ikh * pb * ikh.transpose() + k * r * k.transpose()), 1e-4, 16);
        vp_check(near(est.covar[(0, 1)], est.covar[(1, 0)], 0.0), 17);
    }
    let pe = kf.previous_estimate();
    eq(&pe.covar, &est.covar, 0.0, 18);
}

harnesses! {
    /// two simultaneous, correlated measurements; no rejection
    fn h_c06_meas2_ekf() { meas2(VAR[0], false); }
    fn h_c06_meas2_ckf() { meas2(VAR[1], false); }
    fn h_c06_rej2_ekf() { meas2(VAR[0], true); }
    fn h_c06_rej2_ckf() { meas2(VAR[1], true); }

    /// 2-state filter, arbitrary positive definite covariance, STM, deviation, time step 0..1000 s; reference-update variant
    //@ checks=10
    fn h_c06_time_ekf() { time(VAR[0]); }
    /// 2-state filter, as above; deviation-tracking variant
    //@ checks=10
    fn h_c06_time_ckf() { time(VAR[1]); }
    /// scalar measurement, arbitrary H, R > 0, observed and computed values; no rejection
    fn h_c06_meas1_ekf() { meas1(VAR[0], false); }
    fn h_c06_meas1_ckf() { meas1(VAR[1], false); }
    /// with an arbitrary rejection threshold: both outcomes
    fn h_c06_rej_ekf() { meas1(VAR[0], true); }
    fn h_c06_rej_ckf() { meas1(VAR[1], true); }
    /// no STM: both updates are errors and the filter keeps its previous estimate
    fn h_c06_nostm() {
        let (mut kf, mut now, p, _, dev) = setup(VAR[(vp_fix_i64(vp_i64(2, 0, 1))) as usize]);
        now.stm = None;
        let which = vp_fix_i64(vp_i64(3, 0, 1)) == 0;
        if which { vp_check(kf.time_update(now).is_err(), 1); }
        else { vp_check(kf.measurement_update::<U1>(now, OVector::<f64, U1>::new(1.0), OVector::<f64, U1>::new(0.0), OMatrix::<f64, U1, U1>::new(1.0), SMatrix::<f64, 1, 2>::new(1.0, 0.0), None).is_err(), 2); }
        let pe = kf.previous_estimate();
        eq(&pe.covar, &p, 0.0, 3);
        vp_check(pe.epoch() == ep(E0) && pe.state_deviation[0] == dev[0] && pe.state_deviation[1] == dev[1], 4);
    }
}
