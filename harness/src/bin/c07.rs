use anise::prelude::Orbit;
use nyx_space::linalg::{Const, OMatrix, OVector, SMatrix, U1, U3, U6};
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::kalman::KalmanFilter;
use nyx_space::od::prelude::KalmanVariant;
use nyx_space::od::snc::{ProcessNoise, ProcessNoise3D};
use vpharness::sc::*;
use vpharness::toy::*;
use vpharness::*;

const S: i64 = 1_000_000_000;
fn diag3(id: u32) -> [f64; 3] { [vp_f64(id, 0.0, 1.0), vp_f64(id + 1, 0.0, 1.0), vp_f64(id + 2, 0.0, 1.0)] }
/// the mapping of a constant acceleration noise over dt into position and velocity covariance
fn gqg(i: usize, j: usize, q: &[f64; 3], dt: f64) -> f64 {
    if i >= 6 || j >= 6 || i % 3 != j % 3 { return 0.0; }
    let g = |k: usize| if k < 3 { dt * dt / 2.0 } else { dt };
    g(i) * g(j) * q[i % 3]
}

harnesses! {
    /// process noise contribution over any step up to an arbitrary disable time (0..200 s), 6 and 9 states
    fn h_c07_gamma() {
        let q = diag3(1);
        let dis = ns(vp_i64(10, S, 100 * S));
        let dtn = vp_i64(11, 0, 200 * S);
        let pn = ProcessNoise3D::from_diagonal(&q, dis, None);
        let o = fixed_orbit(ep(E0));
        let six = pn.propagate::<U6>(o, ns(dtn)).unwrap();
        let nine = pn.propagate::<Const<9>>(o, ns(dtn)).unwrap();
        if ns(dtn) > dis { vp_check(six.is_none() && nine.is_none(), 1); return; }
        let (six, nine) = (six.unwrap(), nine.unwrap());
        let dt = dtn as f64 * 1e-9;
        for i in 0..9 { for j in 0..9 {
            let w = gqg(i, j, &q, dt);
            if i < 6 && j < 6 { vp_check(near(six[(i, j)], w, 1e-3), 2); }
            vp_check(near(nine[(i, j)], w, 1e-3), 3);
        } }
    }
    /// start time, disable time and decay of the matrix at any epoch
    fn h_c07_window() {
        let q = diag3(1);
        let dk = [vp_f64(4, 0.0, 1e-2), vp_f64(5, 0.0, 1e-2), vp_f64(6, 0.0, 1e-2)];
        let dis = vp_i64(10, S, 100 * S);
        let (st, pr, now) = (vp_i64(11, 0, 500 * S), vp_i64(12, 0, 500 * S), vp_i64(13, 0, 500 * S));
        let has_start = vp_fix_i64(vp_i64(14, 0, 1)) == 1;
        let has_prev = vp_fix_i64(vp_i64(15, 0, 1)) == 1;
        let decay = vp_fix_i64(vp_i64(16, 0, 1)) == 1;
        let mut pn = if decay { ProcessNoise3D::with_decay(&q, ns(dis), &dk, None) } else if has_start { ProcessNoise3D::with_start_time(ns(dis), &q, ep(E0 + st)) } else { ProcessNoise3D::from_diagonal(&q, ns(dis), None) };
        if has_start { pn.start_time = Some(ep(E0 + st)); }
        if has_prev { pn.prev_epoch = Some(ep(E0 + pr)); }
        pn.init_epoch = Some(ep(E0));
        let m = pn.to_matrix(ep(E0 + now));
        let off = (has_start && st > now) || (has_prev && now - pr > dis);
        vp_check(m.is_none() == off, 1);
        if let Some(m) = m {
            for i in 0..3 { for j in 0..3 {
                let w = if i != j { 0.0 } else if decay { q[i] * (-dk[i] * (now as f64 * 1e-9)).exp() } else { q[i] };
                vp_check(near(m[(i, j)], w, 1e-6), 2);
            } }
        }
    }
    /// noise given in a local frame: its variances along the inertial axes are the rotated ones
    fn h_c07_local() {
        let q = diag3(1);
        let frame = match vp_fix_i64(vp_i64(5, 0, 2)) { 0 => LocalFrame::RIC, 1 => LocalFrame::VNC, _ => LocalFrame::RCN };
        let pn = ProcessNoise3D::from_diagonal(&q, ns(100 * S), Some(frame));
        let o: Orbit = fixed_orbit(ep(E0));
        let dtn = vp_i64(11, S, 100 * S);
        let c = pn.propagate::<U6>(o, ns(dtn)).unwrap().unwrap();
        let r = o.dcm_to_inertial(frame).unwrap().rot_mat;
        let dt = dtn as f64 * 1e-9;
        for i in 0..3 {
            let w = r[(i, 0)] * r[(i, 0)] * q[0] + r[(i, 1)] * r[(i, 1)] * q[1] + r[(i, 2)] * r[(i, 2)] * q[2];
            vp_check(near(c[(i + 3, i + 3)], w * dt * dt, 1e-3), 1);
            vp_check(near(c[(i, i)], w * dt * dt * dt * dt / 4.0, 10.0), 2);
            vp_check(near(c[(i, i + 3)], c[(i + 3, i)], 1e-6), 3);
        }
    }
    /// velocity noise accumulated over a duration
    fn h_c07_velocity() {
        let q = diag3(1);
        let d = vp_i64(10, S, 100 * S);
        let pn = ProcessNoise3D::from_velocity_km_s(&q, ns(d), ns(100 * S), None);
        let m = pn.to_matrix(ep(E0)).unwrap();
        for i in 0..3 { vp_check(near(m[(i, i)] * (d as f64 * 1e-9), q[i], 1e-9), 1); }
    }
    /// filter with two process noises, the second starting at an arbitrary time or always on: exactly one applies, in both updates
    fn h_c07_filter() {
        let q1 = diag3(1);
        let q2 = diag3(4);
        let dis = vp_i64(10, S, 50 * S);
        let st = vp_i64(11, 0, 100 * S);
        let dtn = vp_i64(12, S, 100 * S);
        let mut p = SMatrix::<f64, 6, 6>::zeros();
        for i in 0..6 { p[(i, i)] = vp_f64(20 + i as u32, 1.0, 10.0); }
        let prev = Lin6 { epoch: ep(E0), x: [0.0; 6], stm: None };
        let now = Lin6 { epoch: ep(E0 + dtn), x: [0.0; 6], stm: Some(SMatrix::<f64, 6, 6>::identity()) };
        let pn1 = ProcessNoise::<U3>::from_diagonal(&q1, ns(dis), None);
        let mut pn2 = ProcessNoise::<U3>::from_diagonal(&q2, ns(dis), None);
        let started = vp_fix_i64(vp_i64(14, 0, 1)) == 1;
        if started { pn2.start_time = Some(ep(E0 + st)); }
        let kf: KalmanFilter<Lin6, U3> = KalmanFilter::from_process_noise(KfEstimate::from_covar(prev, p), KalmanVariant::ReferenceUpdate, pn1);
        let mut kf = kf.and_with_process_noise(pn2);
        let meas = vp_fix_i64(vp_i64(13, 0, 1)) == 1;
        let pb = if meas {
            let h = SMatrix::<f64, 1, 6>::new(1.0, 0.0, 0.0, 0.0, 0.0, 0.0);
            kf.measurement_update::<U1>(now, OVector::<f64, U1>::new(1.0), OVector::<f64, U1>::new(0.0), OMatrix::<f64, U1, U1>::new(1.0), h, None).unwrap().0.covar_bar
        } else { kf.time_update(now).unwrap().covar };
        let dt = dtn as f64 * 1e-9;
        for i in 0..6 { for j in 0..6 {
            let base = if i == j { p[(i, i)] } else { 0.0 };
            let w = if dtn > dis { 0.0 } else if !started || dtn >= st { gqg(i, j, &q2, dt) } else { gqg(i, j, &q1, dt) };
            vp_check(near(pb[(i, j)], base + w, 1e-2), 1);
        } }
        for pn in &kf.process_noise { vp_check(pn.prev_epoch == Some(now.epoch), 2); vp_check(pn.init_epoch == Some(ep(E0)), 3); }
        vp_check(kf.previous_estimate().epoch() == now.epoch, 4);
    }
}
