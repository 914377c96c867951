use hifitime::{Duration, Epoch};
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use std::sync::Arc;
use vpharness::toy::*;
use vpharness::*;

fn ns(x: i64) -> Duration { Duration::from_truncated_nanoseconds(x) }

/// one accepted adaptive step from an arbitrary step size; `att` attempts at most
fn one_step(m: IntegratorMethod, att: u8, back: bool) {
    let n = m.stages();
    let mut k = Vec::new();
    // two free derivative values per attempt reach every (error, increment) pair
    for i in 0..(n * att as usize) { k.push(if i % n == 0 || i % n == n - 1 { vp_f64(100 + i as u32, -10.0, 10.0) } else { 0.0 }); }
    let min = vp_i64(1, 1_000_000, 1_000_000_000);
    let max = vp_i64(2, 1_000_000, 100_000_000_000);
    let init = vp_i64(3, 1_000_000, 100_000_000_000);
    vp_assume(min <= init && init <= max);
    let tol = vp_f64(4, 1e-12, 1.0);
    let x0 = vp_f64(5, -1e3, 1e3);
    let mut opts = IntegratorOptions::with_adaptive_step(ns(min), ns(max), tol, ErrorControl::RSSStep);
    opts.attempts = att;
    let dynm = FreeDyn { k: k.clone(), n: Default::default() };
    let cnt = dynm.n.clone();
    let setup = Propagator::new(dynm, m, opts);
    let e0 = Epoch::from_tai_duration(ns(1_000_000_000_000));
    let mut prop = setup.with(Toy { epoch: e0, x: x0 }, Arc::new(Default::default())).quiet();
    prop.set_step(if back { ns(-init) } else { ns(init) }, false);
    prop.single_step().unwrap();
    let d = prop.latest_details();
    let taken = d.step;
    let calls = cnt.load(std::sync::atomic::Ordering::Relaxed);
    vp_check(d.error <= tol || taken.abs() <= ns(min) || d.attempts >= att, 1);
    vp_check(prop.state.epoch == e0 + taken, 2);
    vp_check(taken.is_negative() == back, 3);
    vp_check(taken.abs() <= ns(init), 4);
    vp_check(taken.abs() + ns(1) >= ns(min), 5);
    vp_check(calls == n * d.attempts as usize, 6);
}

use nyx_space::linalg::SVector;
type V<const N: usize> = SVector<f64, N>;
fn vecs<const N: usize>(b: f64) -> (V<N>, V<N>, V<N>) {
    let (mut e, mut c, mut u) = (V::<N>::zeros(), V::<N>::zeros(), V::<N>::zeros());
    for i in 0..N { e[i] = vp_f64(10 + i as u32, -1.0, 1.0); c[i] = vp_f64(30 + i as u32, -b, b); u[i] = vp_f64(50 + i as u32, -b, b); }
    (e, c, u)
}
fn ctrl(i: i64) -> ErrorControl {
    match i { 0 => ErrorControl::RSSCartesianState, 1 => ErrorControl::RSSCartesianStep, 2 => ErrorControl::RSSState, 3 => ErrorControl::RSSStep, 4 => ErrorControl::LargestError, 5 => ErrorControl::LargestState, _ => ErrorControl::LargestStep }
}
fn sq(x: f64) -> f64 { x * x }
fn ab(x: f64) -> f64 { if x < 0.0 { -x } else { x } }

harnesses! {
    /// setting the bounds of the step, in any order, keeps the first step within them and changes nothing else
    fn h_c02_options() {
        let (a, b) = (vp_i64(1, 1_000_000, 100_000_000_000), vp_i64(2, 1_000_000, 5_000_000_000_000));
        vp_assume(a <= b);
        let init = vp_i64(3, 1_000_000, 3_000_000_000_000);
        let tol = vp_f64(4, 1e-12, 1.0);
        let o = IntegratorOptions { init_step: ns(init), ..IntegratorOptions::with_tolerance(tol) };
        let mut p = o;
        if vp_fix_i64(vp_i64(5, 0, 1)) == 1 { p.set_max_step(ns(b)); p.set_min_step(ns(a)); } else { p.set_min_step(ns(a)); p.set_max_step(ns(b)); }
        vp_check(p.min_step == ns(a) && p.max_step == ns(b), 1);
        vp_check(p.init_step == ns(if init < a { a } else if init > b { b } else { init }), 2);
        vp_check(p.tolerance == tol && p.attempts == o.attempts && !p.fixed_step && p.error_ctrl == o.error_ctrl && p.integration_frame.is_none(), 3);
        let m = IntegratorOptions::with_max_step(ns(b));
        vp_check(m.max_step == ns(b) && m.init_step <= m.max_step && m.min_step == o.min_step && m.tolerance == IntegratorOptions::default().tolerance, 4);
        let e = ctrl(vp_fix_i64(vp_i64(6, 0, 6)));
        let q = IntegratorOptions::with_adaptive_step(ns(a), ns(b), tol, e);
        vp_check(q.min_step == ns(a) && q.max_step == ns(b) && q.tolerance == tol && !q.fixed_step && q.error_ctrl == e && q.init_step >= q.min_step && q.init_step <= q.max_step && q.attempts > 0, 5);
        let f = IntegratorOptions::with_fixed_step(ns(a));
        vp_check(f.init_step == ns(a) && f.fixed_step, 6);
    }
    /// every control: mirroring the problem changes nothing (nonlinear magnitudes, 2 components)
    fn h_c02_mirror() {
        let (e, c, u) = vecs::<2>(10.0);
        let k = ctrl(vp_fix_i64(vp_i64(1, 0, 6)));
        let a = k.estimate(&e, &c, &u);
        vp_check(a >= 0.0, 1);
        let b = k.estimate(&-e, &-c, &-u);
        vp_check(near(a, b, 1e-9), 2);
        vp_check(k.estimate(&V::<2>::zeros(), &c, &u) == 0.0, 3);
    }
    /// L1 and per-component controls, 3 components: the documented relative error above the threshold, absolute below
    fn h_c02_largest() {
        let (e, c, u) = vecs::<3>(10.0);
        let es = ab(e[0]) + ab(e[1]) + ab(e[2]);
        let st = 0.5 * (ab(c[0] + u[0]) + ab(c[1] + u[1]) + ab(c[2] + u[2]));
        let dl = ab(c[0] - u[0]) + ab(c[1] - u[1]) + ab(c[2] - u[2]);
        vp_assume(!near(st, 0.1, 1e-6) && !near(dl, 0.1, 1e-6));
        let a = ErrorControl::LargestState.estimate(&e, &c, &u);
        let b = ErrorControl::LargestStep.estimate(&e, &c, &u);
        vp_check(near(if st > 0.1 { a * st } else { a }, es, 1e-9), 1);
        vp_check(near(if dl > 0.1 { b * dl } else { b }, es, 1e-9), 2);
    }
    /// per-component control, 2 components: at least every component's own relative error, and equal to one of them
    fn h_c02_component() {
        let (e, c, u) = vecs::<2>(10.0);
        let a = ErrorControl::LargestError.estimate(&e, &c, &u);
        let mut hit = a == 0.0;
        for i in 0..2 {
            let d = ab(c[i] - u[i]);
            vp_assume(!near(d, 0.1, 1e-6));
            let m = if d > 0.1 { a * d } else { a };
            vp_check(m >= ab(e[i]) - 1e-9, 1);
            if near(m, ab(e[i]), 1e-9) { hit = true; }
        }
        vp_check(hit, 2);
    }
    /// RSS controls, 2 components
    fn h_c02_rss() {
        let (e, c, u) = vecs::<2>(10.0);
        let es = sq(e[0]) + sq(e[1]);
        let st = 0.25 * (sq(c[0] + u[0]) + sq(c[1] + u[1]));
        let dl = sq(c[0] - u[0]) + sq(c[1] - u[1]);
        vp_assume(!near(st, 0.01, 1e-6) && !near(dl, 0.1, 1e-6));
        let a = ErrorControl::RSSState.estimate(&e, &c, &u);
        let b = ErrorControl::RSSStep.estimate(&e, &c, &u);
        vp_check(near(if st > 0.01 { a * a * st } else { a * a }, es, 1e-6), 1);
        vp_check(near(if dl > 0.1 { b * b * dl } else { b * b }, es, 1e-6), 2);
    }
    /// Cartesian controls on 6 (and 9) components: the larger of the position and the velocity error, nothing else counts
    fn h_c02_cart() {
        let (e, c, u) = vecs::<6>(10.0);
        let mut e9 = V::<9>::zeros();
        let (mut c9, mut u9) = (V::<9>::zeros(), V::<9>::zeros());
        for i in 0..6 { e9[i] = e[i]; c9[i] = c[i]; u9[i] = u[i]; }
        for i in 6..9 { e9[i] = 5.0; c9[i] = 3.0; u9[i] = 1.0; }
        for (k, p) in [(ErrorControl::RSSCartesianState, ErrorControl::RSSState), (ErrorControl::RSSCartesianStep, ErrorControl::RSSStep)] {
            let a = k.estimate(&e, &c, &u);
            let r = p.estimate(&V::<3>::new(e[0], e[1], e[2]), &V::<3>::new(c[0], c[1], c[2]), &V::<3>::new(u[0], u[1], u[2]));
            let w = p.estimate(&V::<3>::new(e[3], e[4], e[5]), &V::<3>::new(c[3], c[4], c[5]), &V::<3>::new(u[3], u[4], u[5]));
            vp_check(near(a, if r > w { r } else { w }, 1e-9), 1);
            vp_check(k.estimate(&e9, &c9, &u9) == a, 2);
        }
    }
    //@ cost=8
    /// history: after a propagation in either direction, the next step is adaptive again
    fn h_c02_history() {
        let m = IntegratorMethod::CashKarp45;
        let b1 = vp_fix_i64(vp_i64(1, 0, 1)) == 1;
        let mut k = vec![0.0; 18];
        for i in [0, 6, 11, 12, 17] { k[i] = vp_f64(100 + i as u32, -10.0, 10.0); }
        let tol = vp_f64(4, 1e-12, 1.0);
        let mut opts = IntegratorOptions::with_adaptive_step(ns(1_000_000_000), ns(60_000_000_000), tol, ErrorControl::RSSStep);
        opts.init_step = ns(60_000_000_000);
        opts.attempts = 2;
        let k2 = k.clone();
        let dynm = FreeDyn { k, n: Default::default() };
        let cnt = dynm.n.clone();
        let setup = Propagator::new(dynm, m, opts);
        let e0 = Epoch::from_tai_duration(ns(1_000_000_000_000));
        let mut prop = setup.with(Toy { epoch: e0, x: 0.0 }, Arc::new(Default::default())).quiet();
        let s1 = prop.for_duration(ns(if b1 { -20_000_000_000 } else { 20_000_000_000 })).unwrap();
        vp_check(s1.epoch == e0 + ns(if b1 { -20_000_000_000 } else { 20_000_000_000 }), 1);
        vp_check(cnt.load(std::sync::atomic::Ordering::Relaxed) == 6, 2);
        prop.single_step().unwrap();
        let d = prop.latest_details();
        let calls = cnt.load(std::sync::atomic::Ordering::Relaxed) - 6;
        vp_check(calls == 6 * d.attempts as usize && d.attempts >= 1, 3);
        vp_check(d.error <= tol || d.attempts == 2 || d.step <= ns(1_000_000_000), 4);
        // the error of the accepted attempt, from its two free derivatives
        let h = d.step.to_seconds();
        let (ka, kb) = (k2[calls], k2[calls + 5]);
        let e = h * ((37.0 / 378.0 - 2825.0 / 27648.0) * ka + (512.0 / 1771.0 - 0.25) * kb);
        let dl = h * (37.0 / 378.0 * ka + 512.0 / 1771.0 * kb);
        vp_check(ab(dl) < 0.32 || ab(e) <= tol * ab(dl) + 1e-9 || d.attempts == 2, 5);
        vp_check(ab(dl) < 0.32 || near(d.error * ab(dl), ab(e), 1e-9), 6);
        vp_check(d.step > ns(0), 7);
        vp_check(d.attempts > 1 || d.step == ns(60_000_000_000), 8);
    }
    /// one forward step of an adaptive propagation with an arbitrary first step and tolerance
    //@ cost=9
    fn h_c02_ck45_fwd() { one_step(IntegratorMethod::CashKarp45, 2, false); }
    /// one backward step
    //@ cost=10 time=400
    fn h_c02_ck45_back() { one_step(IntegratorMethod::CashKarp45, 2, true); }
}
