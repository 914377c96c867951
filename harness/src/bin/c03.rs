use hifitime::{Duration, Epoch};
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use anise::prelude::Almanac;
use nyx_space::dynamics::{Dynamics, DynamicsError};
use nyx_space::linalg::{Const, OVector};
use std::sync::Arc;
use vpharness::toy::*;
use vpharness::*;

fn ns(x: i64) -> Duration { Duration::from_truncated_nanoseconds(x) }
fn pow(h: f64, n: usize) -> f64 { let mut p = 1.0; for _ in 0..n { p *= h; } p }

macro_rules! order {
    ($m:expr, $order:literal, $dynm:ident, $st:ident, $n:literal, $neg:expr, $tol:expr) => {{
        let h = vp_i64(1, 1_000_000_000, 1_000_000_000_000);
        let t = Arc::new(trees($order));
        vp_check(t.len() == $n, 1);
        let step = if $neg { ns(-h) } else { ns(h) };
        let opts = IntegratorOptions::with_fixed_step(step);
        let setup = Propagator::new($dynm { t: t.clone() }, $m, opts);
        let e0 = Epoch::from_tai_duration(ns(2_000_000_000_000));
        let mut prop = setup.with($st { epoch: e0, x: [0.0; $n] }, Arc::new(Default::default())).quiet();
        prop.single_step().unwrap();
        let hs = step.to_seconds();
        for i in 0..$n {
            let c = prop.state.x[i] * t[i].1 / pow(hs, t[i].0);
            vp_check(near(c, 1.0, $tol), 2);
        }
    }};
}

/// embedded estimate: vanishes on every problem the lower-order member solves exactly, not beyond
macro_rules! embedded {
    ($m:expr, $order:literal, $dynm:ident, $st:ident, $n:literal, $zero:expr, $tol:expr) => {{
        let h = vp_i64(1, 1_000_000_000, 100_000_000_000);
        let t = Arc::new(trees($order));
        let mut opts = IntegratorOptions::with_adaptive_step(ns(1_000_000), ns(1_000_000_000_000), 0.0, ErrorControl::LargestStep);
        opts.attempts = 1;
        let setup = Propagator::new($dynm { t: t.clone() }, $m, opts);
        let e0 = Epoch::from_tai_duration(ns(2_000_000_000_000));
        let mut prop = setup.with($st { epoch: e0, x: [0.0; $n] }, Arc::new(Default::default())).quiet();
        prop.set_step(ns(h), false);
        prop.single_step().unwrap();
        let err = prop.latest_details().error;
        if $zero { vp_check(err <= $tol, 1); } else { vp_check(err > 1e-9, 2); }
        vp_check(prop.state.epoch == e0 + ns(h), 3);
    }};
}

/// y_k' = t^k for k = 0..8 (t passed to the equations of motion, seconds past the start of the step)
#[derive(Clone)]
struct TimeDyn;
impl Dynamics for TimeDyn {
    type HyperdualSize = Const<2>;
    type StateType = Vs8;
    fn eom(&self, dt: f64, _v: &OVector<f64, Const<8>>, ctx: &Vs8, _alm: &Almanac) -> Result<OVector<f64, Const<8>>, DynamicsError> {
        let mut o = OVector::<f64, Const<8>>::zeros();
        let mut p = 1.0;
        for i in 0..8 { o[i] = p; p *= dt; }
        // the context is the state at the start of the step
        vp_check(ctx.epoch == Epoch::from_tai_duration(ns(2_000_000_000_000)), 4);
        Ok(o)
    }
}
fn quad(m: IntegratorMethod, order: usize, back: bool) {
    let h = vp_i64(1, 1_000_000_000, 1_000_000_000_000);
    let step = if back { ns(-h) } else { ns(h) };
    let setup = Propagator::new(TimeDyn, m, IntegratorOptions::with_fixed_step(step));
    let e0 = Epoch::from_tai_duration(ns(2_000_000_000_000));
    let mut prop = setup.with(Vs8 { epoch: e0, x: [0.0; 8] }, Arc::new(Default::default())).quiet();
    prop.single_step().unwrap();
    let hs = step.to_seconds();
    for k in 0..order { vp_check(near(prop.state.x[k] * (k + 1) as f64 / pow(hs, k + 1), 1.0, 1e-9), 5); }
    vp_check(prop.state.epoch == e0 + step, 6);
}

harnesses! {
    /// all 8 rooted trees of order <= 4; any step 1 s .. 1000 s
    fn h_c03_rk4() { order!(IntegratorMethod::RungeKutta4, 4, Tree8, Vs8, 8, false, 1e-9) }
    /// all 17 rooted trees of order <= 5
    fn h_c03_dp45() { order!(IntegratorMethod::DormandPrince45, 5, Tree17, Vs17, 17, false, 1e-9) }
    /// all 17 rooted trees of order <= 5
    fn h_c03_ck45() { order!(IntegratorMethod::CashKarp45, 5, Tree17, Vs17, 17, false, 1e-9) }
    /// all 37 rooted trees of order <= 6
    fn h_c03_v56() { order!(IntegratorMethod::Verner56, 6, Tree37, Vs37, 37, false, 1e-9) }
    /// all 200 rooted trees of order <= 8
    fn h_c03_dp78() { order!(IntegratorMethod::DormandPrince78, 8, Tree200, Vs200, 200, false, 1e-9) }
    /// all 200 rooted trees of order <= 8
    fn h_c03_rk89() { order!(IntegratorMethod::RungeKutta89, 8, Tree200, Vs200, 200, false, 1e-9) }
    /// backward steps
    fn h_c03_back() { order!(IntegratorMethod::RungeKutta89, 5, Tree17, Vs17, 17, true, 1e-9) }

    /// embedded pair: trees of order <= 4
    fn h_c03_emb_dp45() { embedded!(IntegratorMethod::DormandPrince45, 4, Tree8, Vs8, 8, true, 1e-9) }
    /// embedded pair: trees of order <= 4
    fn h_c03_emb_ck45() { embedded!(IntegratorMethod::CashKarp45, 4, Tree8, Vs8, 8, true, 1e-9) }
    /// embedded pair: trees of order <= 5
    fn h_c03_emb_v56() { embedded!(IntegratorMethod::Verner56, 5, Tree17, Vs17, 17, true, 1e-9) }
    /// embedded pair: trees of order <= 7
    fn h_c03_emb_dp78() { embedded!(IntegratorMethod::DormandPrince78, 7, Tree85, Vs85, 85, true, 1e-9) }
    /// embedded pair: trees of order <= 8
    fn h_c03_emb_rk89() { embedded!(IntegratorMethod::RungeKutta89, 8, Tree200, Vs200, 200, true, 1e-9) }
    /// the estimate reacts to a problem outside the lower order
    fn h_c03_sens_dp45() { embedded!(IntegratorMethod::DormandPrince45, 5, Tree17, Vs17, 17, false, 1e-9) }
    /// the estimate reacts to a problem outside the lower order
    fn h_c03_sens_ck45() { embedded!(IntegratorMethod::CashKarp45, 5, Tree17, Vs17, 17, false, 1e-9) }
    /// the estimate reacts to a problem outside the lower order
    fn h_c03_sens_v56() { embedded!(IntegratorMethod::Verner56, 6, Tree37, Vs37, 37, false, 1e-9) }
    /// the estimate reacts to a problem outside the lower order
    fn h_c03_sens_dp78() { embedded!(IntegratorMethod::DormandPrince78, 8, Tree200, Vs200, 200, false, 1e-9) }

    /// time-dependent dynamics y' = t^k, k < order
    fn h_c03_time_rk4() { quad(IntegratorMethod::RungeKutta4, 4, false) }
    fn h_c03_time_dp45() { quad(IntegratorMethod::DormandPrince45, 5, false) }
    fn h_c03_time_ck45() { quad(IntegratorMethod::CashKarp45, 5, true) }
    fn h_c03_time_v56() { quad(IntegratorMethod::Verner56, 6, false) }
    fn h_c03_time_dp78() { quad(IntegratorMethod::DormandPrince78, 8, true) }
    fn h_c03_time_rk89() { quad(IntegratorMethod::RungeKutta89, 8, false) }
}
