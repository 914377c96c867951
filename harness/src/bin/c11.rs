use anise::analysis::prelude::{Condition, Event, OrbitalElement, ScalarExpr};
use anise::constants::frames::IAU_EARTH_FRAME;
use anise::prelude::Almanac;
use nyx_space::cosmic::Orbit;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, PropagationError, Propagator};
use std::sync::Arc;
use vpharness::ob::*;
use vpharness::sc::*;
use vpharness::*;

const S: i64 = 1_000_000_000;
const STEP: i64 = 60 * S;
fn event(c: f64, prec: i64) -> Event { let mut e = Event::new(ScalarExpr::Element(OrbitalElement::X), Condition::Equals(c)); e.epoch_precision = ns(prec); e }
fn start(x: f64) -> Ob { Ob { o: Orbit::new(x, 7000.0, 0.0, 0.0, 1.0, 0.0, ep(E0), earth()), done: 0 } }

/// x piecewise linear with arbitrary speeds over n steps (the last one shorter); the trigger-th crossing
fn nth(n: usize, trigger: usize, back: bool, tail: i64) { nth_in(n, trigger, back, tail, false) }
/// `framed`: the event is evaluated in a frame turned by half a turn
fn nth_in(n: usize, trigger: usize, back: bool, tail: i64, framed: bool) {
    let x0 = v(1, 100.0);
    let mut k = vec![];
    for i in 0..n { k.push(v(10 + i as u32, 10.0)); }
    let c = v(2, 100.0);
    vp_assume(!near(x0, c, 1e-3));
    let dynm = Piece { k: k.clone(), n: Default::default(), snap: c };
    let setup = Propagator::new(dynm, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(STEP)));
    let mut al = Almanac::default();
    if framed {
        al = vpharness::alm::almanac(&[vpharness::alm::body(399, 0, [0.0; 3], [0.0; 3])], &[]);
        al.planetary_data.insert("p".to_string(), vpharness::alm::planets_rot(&[(399, 398600.4418, 6378.0)], 90.0, 0.0));
    }
    let mut prop = setup.with(start(x0), Arc::new(al)).quiet();
    let dur = (n as i64 - 1) * STEP + tail;
    let r = prop.until_nth_event(ns(if back { -dur } else { dur }), &event(if framed { -c } else { c }, 1000 * STEP), if framed { Some(IAU_EARTH_FRAME) } else { None }, trigger);
    // reference: nodes and sign changes
    let sg = if back { -1.0 } else { 1.0 };
    let mut x = x0;
    let mut found = 0;
    let mut at = 0;
    for i in 0..n {
        let d = if i == n - 1 { tail } else { STEP };
        let y = x + sg * k[i] * (d as f64 * 1e-9);
        vp_assume((near(y, c, 1e-7) && !framed) || !near(y, c, 1e-5));
        let y = if near(y, c, 1e-6) { c } else { y };
        if (x - c) * (y - c) < 0.0 || (y == c && x != c) { found += 1; if found == trigger && at == 0 { at = i + 1; } }
        x = y;
    }
    match r {
        Err(PropagationError::NthEventError { nth, found: f }) => { vp_check(at == 0, 1); vp_check(nth == trigger && f == found, 2); }
        Err(_) => vp_check(false, 3),
        Ok((s, traj)) => {
            vp_check(at != 0, 4);
            let lo = (at as i64 - 1) * STEP;
            let hi = if at == n { dur } else { at as i64 * STEP };
            let t = s.o.epoch - ep(E0);
            let t = if back { -t } else { t };
            vp_check(t >= ns(lo) && t <= ns(hi), 5);
            vp_check(traj.states.len() == at + 1, 6);
            for q in 1..traj.states.len() { vp_check(traj.states[q - 1].o.epoch < traj.states[q].o.epoch, 7); }
            let first = if back { ep(E0 - hi) } else { ep(E0) };
            let last = if back { ep(E0) } else { ep(E0 + hi) };
            vp_check(traj.states[0].o.epoch == first && traj.states[at].o.epoch == last, 8);
        }
    }
}

harnesses! {
    /// 3 steps of arbitrary motion forward, first crossing
    fn h_c11_first() { nth(3, 1, false, STEP / 2); }
    /// 3 steps of arbitrary motion backward, first crossing
    fn h_c11_first_back() { nth(3, 1, true, STEP / 3); }
    /// second crossing
    fn h_c11_second() { nth(3, 2, false, STEP); }
    /// second crossing, backward
    fn h_c11_second_back() { nth(3, 2, true, STEP); }
    /// event evaluated in another frame, from the initial state on
    fn h_c11_framed() { nth_in(2, 1, false, STEP, true); }
    /// at any crossing speed the event state is found to the requested precision; the event is evaluated in the requested frame
    fn h_c11_precise() {
        let back = vp_fix_i64(vp_i64(1, 0, 1)) == 1;
        let framed = vp_fix_i64(vp_i64(2, 0, 1)) == 1;
        let c = 7.0 + 19.0 * vp_fix_i64(vp_i64(3, 0, 5)) as f64;
        let setup = Propagator::new(Line { frame: earth() }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(STEP)));
        let mut al = vpharness::alm::almanac(&[vpharness::alm::body(399, 0, [0.0; 3], [0.0; 3])], &[]);
        al.planetary_data.insert("p".to_string(), vpharness::alm::planets_rot(&[(399, 398600.4418, 6378.0)], 90.0, 0.0));
        // forward x grows at 1 km/s; the rotated frame's x axis is the inertial y axis, along which y grows
        let vx = if back { -1.0 } else { 1.0 };
        let s0 = Ob { o: Orbit::new(0.0, 0.0, 50.0, vx, vx, 0.0, ep(E0), earth()), done: 0 };
        let mut prop = setup.with(s0, Arc::new(al)).quiet();
        let dur = ns(if back { -120 * S } else { 120 * S });
        let (s, _) = prop.until_event(dur, &event(if framed { -c } else { c }, S / 10), if framed { Some(IAU_EARTH_FRAME) } else { None }).unwrap();
        let t = (s.o.epoch - ep(E0)).to_seconds();
        vp_check(near(t, if back { -c } else { c }, 0.11), 1);
        vp_check(near(s.o.radius_km.x, c, 0.2), 2);
    }
    /// after an event stops a propagation, the instance propagates exactly, in either direction
    fn h_c11_after() {
        let back = vp_fix_i64(vp_i64(1, 0, 1)) == 1;
        let setup = Propagator::new(Line { frame: earth() }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(STEP)));
        let s0 = Ob { o: Orbit::new(0.0, 7000.0, 0.0, if back { -1.0 } else { 1.0 }, 0.0, 0.0, ep(E0), earth()), done: 0 };
        let mut prop = setup.with(s0, Arc::new(Almanac::default())).quiet();
        prop.until_event(ns(if back { -200 * S } else { 200 * S }), &event(70.0, 1000 * STEP), None).unwrap();
        let e = prop.state.o.epoch;
        let d = vp_i64(2, -100 * S, 100 * S);
        let r = prop.for_duration(ns(d)).unwrap();
        vp_check(r.o.epoch == e + ns(d), 1);
        vp_check(near(r.o.radius_km.x, (r.o.epoch - ep(E0)).to_seconds() * if back { -1.0 } else { 1.0 }, 1e-6), 2);
    }
}
