use anise::constants::frames::IAU_EARTH_FRAME;
use anise::prelude::Almanac;
use hifitime::Epoch;
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use std::sync::Arc;
use std::sync::mpsc::channel;
use vpharness::sc::*;
use vpharness::ob::*;
use vpharness::toy::*;
use vpharness::*;

const S: i64 = 1_000_000_000;

fn alm() -> Arc<Almanac> { Arc::new(Default::default()) }
fn adaptive(min: i64, max: i64, init: i64) -> IntegratorOptions { let mut o = IntegratorOptions::with_adaptive_step(ns(min), ns(max), 1e-9, ErrorControl::RSSStep); o.init_step = ns(init); o }

harnesses! {
    /// one propagation, any fixed step, any duration (either sign, zero) of at most 3 steps, any start epoch
    fn h_c01_fixed() {
        let step = vp_i64(1, 1, 100_000_000_000);
        let dur = vp_i64(2, -300_000_000_000, 300_000_000_000);
        vp_assume(dur <= 3 * step && dur >= -3 * step);
        let t0 = vp_i64(3, 0, 1_000_000_000_000_000_000);
        let dynm = ToyDyn { a: 1.0, b: 0.0, c: 0.0 };
        let opts = IntegratorOptions::with_fixed_step(ns(step));
        let setup = Propagator::new(dynm, IntegratorMethod::RungeKutta4, opts);
        let e0 = Epoch::from_tai_duration(ns(t0));
        let mut prop = setup.with(Toy { epoch: e0, x: 0.0 }, alm()).quiet();
        let r = prop.for_duration(ns(dur)).unwrap();
        vp_check(r.epoch == e0 + ns(dur), 1);
        vp_check(prop.state == r, 2);
        vp_check(near(r.x, dur as f64 * 1e-9, 1e-9), 3);
    }
    /// histories: two propagations of one instance, any signs, each of at most 2 fixed steps; the second until an epoch
    //@ cost=5
    fn h_c01_twice() {
        let step = vp_i64(1, 1, 100 * S);
        let d1 = vp_i64(2, -200 * S, 200 * S);
        let d2 = vp_i64(3, -200 * S, 200 * S);
        vp_assume(d1 <= 2 * step && d1 >= -2 * step && d2 <= 2 * step && d2 >= -2 * step);
        let setup = Propagator::new(ToyDyn { a: 1.0, b: 0.0, c: 0.0 }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(step)));
        let mut prop = setup.with(Toy { epoch: ep(E0), x: 0.0 }, alm()).quiet();
        let a = prop.for_duration(ns(d1)).unwrap();
        vp_check(a.epoch == ep(E0 + d1), 1);
        let b = prop.until_epoch(ep(E0 + d1 + d2)).unwrap();
        vp_check(b.epoch == ep(E0 + d1 + d2), 2);
        vp_check(near(b.x, (d1 + d2) as f64 * 1e-9, 1e-9), 3);
        // the step used is still the one asked for
        prop.single_step().unwrap();
        vp_check(prop.state.epoch == b.epoch + ns(step), 4);
    }
    /// published states: one per step, in the direction of propagation, no further apart than the step, the last one is the returned state
    fn h_c01_channel() {
        let step = vp_i64(1, 1, 100 * S);
        let dur = vp_i64(2, -300 * S, 300 * S);
        vp_assume(dur <= 3 * step && dur >= -3 * step && dur != 0);
        let setup = Propagator::new(Line { frame: earth() }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(step)));
        let s0 = Ob { o: orbit(10, ep(E0)), done: 0 };
        let mut prop = setup.with(s0, alm()).quiet();
        let (tx, rx) = channel();
        let r = prop.until_epoch_with_channel(ep(E0 + dur), tx).unwrap();
        let mut last = ep(E0);
        let mut x = s0.o.radius_km.x;
        for s in rx.try_iter() {
            let d = s.o.epoch - last;
            vp_check(d.is_negative() == (dur < 0) && d != ns(0), 1);
            vp_check(d.abs() <= ns(step), 2);
            vp_check(near(s.o.radius_km.x - x, d.to_seconds() * s0.o.velocity_km_s.x, 1e-6), 3);
            last = s.o.epoch;
            x = s.o.radius_km.x;
        }
        vp_check(last == ep(E0 + dur), 4);
        vp_check(r.o.epoch == last, 5);
        vp_check(r.o.radius_km.x == x, 6);
    }
    /// adaptive control on a problem with no error: any bounds, any first step; two propagations in a row
    //@ cost=5
    fn h_c01_adaptive() {
        let min = vp_i64(1, 1_000_000, S);
        let max = vp_i64(2, 10 * S, 100 * S);
        let init = vp_i64(3, S, 100 * S);
        vp_assume(init <= max);
        let d1 = vp_i64(4, -150 * S, 150 * S);
        let d2 = vp_i64(5, -150 * S, 150 * S);
        vp_assume(d1 <= 2 * init && d1 >= -2 * init && d2 <= max && d2 >= -max);
        let setup = Propagator::new(ToyDyn { a: 0.0, b: 0.0, c: 0.0 }, IntegratorMethod::DormandPrince45, adaptive(min, max, init));
        let mut prop = setup.with(Toy { epoch: ep(E0), x: 1.0 }, alm()).quiet();
        let a = prop.for_duration(ns(d1)).unwrap();
        vp_check(a.epoch == ep(E0 + d1), 1);
        let b = prop.for_duration(ns(d2)).unwrap();
        vp_check(b.epoch == ep(E0 + d1 + d2) && b.x == 1.0, 2);
        vp_check(prop.state == b, 3);
    }
    /// trajectory of a propagation: starts and ends exactly where the propagation does, in increasing order, whatever the direction
    fn h_c01_traj() {
        let step = vp_i64(1, 1, 100 * S);
        let dur = vp_i64(2, -200 * S, 200 * S);
        vp_assume(dur <= 2 * step && dur >= -2 * step && dur != 0);
        let f = earth();
        let setup = Propagator::new(Line { frame: f }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(step)));
        let s0 = Ob { o: orbit(10, ep(E0)), done: 0 };
        let mut prop = setup.with(s0, alm()).quiet();
        let (end, traj) = prop.for_duration_with_traj(ns(dur)).unwrap();
        let n = traj.states.len();
        let (a, b) = (traj.states[0], traj.states[n - 1]);
        let (first, last) = if dur > 0 { (a, b) } else { (b, a) };
        vp_check(first.o.epoch == s0.o.epoch && first.o.radius_km == s0.o.radius_km && last == end, 1);
        vp_check(end.o.epoch == ep(E0 + dur), 2);
        for k in 1..n { vp_check(traj.states[k - 1].o.epoch < traj.states[k].o.epoch, 3); }
        let t = dur as f64 * 1e-9;
        for k in 0..3 { vp_check(near(end.o.radius_km[k], s0.o.radius_km[k] + t * s0.o.velocity_km_s[k], 1e-6), 4); }
        // the dynamics' own end-of-step hook ran once at the start and once per step
        vp_check(end.done as usize == n, 5);
    }
    /// integrating in another frame: the equations see that frame, everything handed back is in the frame of the initial state
    //@ cost=4
    fn h_c01_frame() {
        let step = 60 * S;
        let dur = match vp_fix_i64(vp_i64(2, 0, 4)) { 0 => -130 * S, 1 => -60 * S, 2 => 120 * S, 3 => 7, _ => 100 * S };
        let f = IAU_EARTH_FRAME.with_mu_km3_s2(398600.4418);
        let mut opts = IntegratorOptions::with_fixed_step(ns(step));
        opts.integration_frame = Some(f);
        let setup = Propagator::new(Line { frame: f }, IntegratorMethod::RungeKutta4, opts);
        let s0 = Ob { o: orbit(10, ep(E0)), done: 0 };
        let mut al = vpharness::alm::almanac(&[vpharness::alm::body(399, 0, [0.0; 3], [0.0; 3])], &[]);
        al.planetary_data.insert("p".to_string(), vpharness::alm::planets_rot(&[(399, 398600.4418, 6378.0)], 30.0, 0.0));
        let mut prop = setup.with(s0, Arc::new(al)).quiet();
        let (tx, rx) = channel();
        let end = prop.for_duration_with_channel(ns(dur), tx).unwrap();
        vp_check(end.o.frame.orientation_id == s0.o.frame.orientation_id && end.o.frame.ephemeris_id == s0.o.frame.ephemeris_id, 1);
        let ok = |s: &Ob| { let t = (s.o.epoch - s0.o.epoch).to_seconds(); (0..3).all(|k| near(s.o.radius_km[k], s0.o.radius_km[k] + t * s0.o.velocity_km_s[k], 1e-3) && near(s.o.velocity_km_s[k], s0.o.velocity_km_s[k], 1e-6)) };
        vp_check(ok(&end), 2);
        let mut n = 0;
        for s in rx.try_iter() { vp_check(s.o.frame.orientation_id == s0.o.frame.orientation_id, 3); vp_check(ok(&s), 4); n += 1; }
        vp_check(n >= 1 && prop.state == end && end.o.epoch == ep(E0 + dur), 5);
    }
}
