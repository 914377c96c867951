use anise::constants::frames::*;
use anise::prelude::*;
use anise::structure::spacecraft::{DragData, Mass, SRPData};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::dynamics::solid_tides::{SolidTides, TidalPerturber};
use nyx_space::dynamics::{AccelModel, AtmDensity, Drag, Dynamics as _, ForceModel, PointMasses, SolarPressure};
use nyx_space::dynamics::guidance::mnvr::{ImpulsiveManeuver, Maneuver};
use nyx_space::dynamics::guidance::{GuidanceLaw, Kluever, LocalFrame, ObjectiveEfficiency, ObjectiveWeight, Ruggiero, Thruster};
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::{StateParameter, objective::Objective};
use anise::analysis::prelude::OrbitalElement as Oe;
use nyx_space::dynamics::sequence::*;
use nyx_space::linalg::Vector3;
use nyx_space::propagators::*;
use std::sync::Arc;
use vpharness::alm::*;
use vpharness::sc::*;
use vpharness::*;

const S: i64 = 1_000_000_000;
fn sky() -> Arc<Almanac> { Arc::new(almanac(&[body(399, 0, [0.0; 3], [0.0; 3]), body(301, 399, [1000.0, -500.0, 20.0], [0.01, 0.02, -0.01])], &[(399, 0.0, 1.0), (301, 0.0, 1.0)])) }
fn cfg(step: i64) -> PropagatorConfig {
    PropagatorConfig { dynamics: Dynamics { accel_models: AccelModels::default(), force_models: ForceModels::default() }, method: IntegratorMethod::RungeKutta4, options: IntegratorOptions::with_fixed_step(ns(step)) }
}
fn phase(name: &str, prop: &str, on: Option<DiscreteEvent>, disabled: bool) -> Phase {
    Phase::Activity { name: name.to_string(), propagator: prop.to_string(), guidance: None, on_entry: on.map(Box::new), disabled }
}
fn craft3(t: i64, f: Frame) -> Spacecraft {
    let mut s = Spacecraft::new(Orbit::new(7000.0, 100.0, -300.0, 0.1, 7.5, 0.4, ep(t), f), vp_f64(0, 100.0, 200.0), vp_f64(1, 50.0, 100.0), vp_f64(2, 5.0, 10.0), vp_f64(3, 5.0, 10.0), vp_f64(4, 1.0, 1.4), vp_f64(5, 1.0, 3.0));
    s.mass.extra_mass_kg = vp_f64(6, 10.0, 20.0);
    s
}
fn drop(b: u32) -> PhysicalProperties {
    PhysicalProperties { mass: Some(Mass { dry_mass_kg: vp_f64(b, 0.0, 30.0), prop_mass_kg: vp_f64(b + 1, 0.0, 20.0), extra_mass_kg: vp_f64(b + 2, 0.0, 5.0) }), srp: Some(SRPData { area_m2: vp_f64(b + 3, 0.0, 2.0), coeff_reflectivity: vp_f64(b + 4, 0.0, 0.5) }), drag: Some(DragData { area_m2: vp_f64(b + 5, 0.0, 2.0), coeff_drag: vp_f64(b + 6, 0.0, 0.5) }) }
}
/// dry, propellant, extra mass; SRP area and coefficient; drag area and coefficient
fn seven(s: &Spacecraft) -> [f64; 7] { [s.mass.dry_mass_kg, s.mass.prop_mass_kg, s.mass.extra_mass_kg, s.srp.area_m2, s.srp.coeff_reflectivity, s.drag.area_m2, s.drag.coeff_drag] }
fn free() -> Frame { EARTH_J2000.with_mu_km3_s2(0.0) }
fn at(r: &Vector3<f64>, v: &Vector3<f64>, s: &Spacecraft, tol: f64) -> bool { (0..3).all(|k| near(s.orbit.radius_km[k], r[k], tol) && near(s.orbit.velocity_km_s[k], v[k], tol)) }

harnesses! {
    //@ time=120
    /// three phases: staging with a manoeuvre in a local frame, docking; masses, areas, coefficients and manoeuvres symbolic
    fn h_phases() {
        let a = sky();
        let mut q = SpacecraftSequence::default();
        q.propagators.insert("p".to_string(), cfg(50 * S));
        let (dv, dw) = (Vector3::new(v(40, 0.1), v(41, 0.1), v(42, 0.1)), Vector3::new(v(43, 0.1), v(44, 0.1), v(45, 0.1)));
        let (d1, d2) = (drop(10), drop(20));
        let k = vp_fix_i64(vp_i64(9, 0, 3)) as usize;
        let fr = [LocalFrame::Inertial, LocalFrame::VNC, LocalFrame::RIC, LocalFrame::RCN][k];
        q.seq.insert(ep(E0), phase("a", "p", None, false));
        q.seq.insert(ep(E0 + 100 * S), phase("b", "p", Some(DiscreteEvent::Staging { impulsive_maneuver: Some(ImpulsiveManeuver { local_frame: fr, dv_km_s: dv }), decrement_properties: Some(d1.clone()) }), false));
        q.seq.insert(ep(E0 + 200 * S), phase("c", "p", Some(DiscreteEvent::Docking { impulsive_maneuver: Some(ImpulsiveManeuver { local_frame: LocalFrame::Inertial, dv_km_s: dw }), increment_properties: Some(d2.clone()) }), false));
        q.seq.insert(ep(E0 + 250 * S), Phase::Terminate);
        vp_check(q.setup(a.clone()).is_ok(), 1);
        let sc = craft3(E0, free());
        let t = q.propagate(sc, None, a).unwrap();
        vp_check(t.len() == 3, 2);
        let ends = [E0, E0 + 100 * S, E0 + 200 * S, E0 + 250 * S];
        for i in 0..3 { vp_check(t[i].first().epoch() == ep(ends[i]) && t[i].last().epoch() == ep(ends[i + 1]) && t[i].name.as_deref() == Some(["a", "b", "c"][i]), 3); }
        let (r0, v0) = (sc.orbit.radius_km, sc.orbit.velocity_km_s);
        let r1 = r0 + v0 * 100.0;
        vp_check(at(&r0, &v0, t[0].first(), 1e-9) && at(&r1, &v0, t[0].last(), 1e-6), 4);
        let u = |x: Vector3<f64>| x / x.norm();
        let (r, h, w) = (u(r1), u(r1.cross(&v0)), u(v0));
        let dvi = match k { 0 => dv, 1 => w * dv.x + h * dv.y + w.cross(&h) * dv.z, 2 => r * dv.x + h.cross(&r) * dv.y + h * dv.z, _ => Orbit::new(r1.x, r1.y, r1.z, v0.x, v0.y, v0.z, ep(E0), free()).dcm_to_inertial(LocalFrame::RCN).unwrap().rot_mat * dv };
        let v1 = v0 + dvi;
        let r2 = r1 + v1 * 100.0;
        vp_check(at(&r1, &v1, t[1].first(), 1e-6) && at(&r2, &v1, t[1].last(), 1e-5), 6);
        let v2 = v1 + dw;
        vp_check(at(&r2, &v2, t[2].first(), 1e-5) && at(&(r2 + v2 * 50.0), &v2, t[2].last(), 1e-5), 7);
        let m = |d: &PhysicalProperties| { let (m, s, g) = (d.mass.unwrap(), d.srp.unwrap(), d.drag.unwrap()); [m.dry_mass_kg, m.prop_mass_kg, m.extra_mass_kg, s.area_m2, s.coeff_reflectivity, g.area_m2, g.coeff_drag] };
        let (s0, s1, s2, x1, x2) = (seven(&sc), seven(t[1].last()), seven(t[2].last()), m(&d1), m(&d2));
        for i in 0..7 { vp_check(near(seven(t[0].last())[i], s0[i], 1e-9) && near(s1[i], s0[i] - x1[i], 1e-9) && near(s2[i], s1[i] + x2[i], 1e-9), 8); }
    }
    //@ time=120
    /// any of four phases disabled, each with its own propagator and staging; stop at any of them, at an unknown one, or at the end
    fn h_disabled() {
        let a = sky();
        let mut q = SpacecraftSequence::default();
        let off = vp_fix_i64(vp_i64(9, 0, 7));
        let stop = vp_fix_i64(vp_i64(8, 0, 5)) as usize;
        let names = ["a", "b", "c", "d"];
        let ends = [E0, E0 + 100 * S, E0 + 200 * S, E0 + 300 * S, E0 + 400 * S];
        let lost = [vp_f64(10, 0.0, 5.0), vp_f64(11, 0.0, 5.0), vp_f64(12, 0.0, 5.0), vp_f64(13, 0.0, 5.0)];
        let dis = [false, off & 1 == 1, off & 2 == 2, off & 4 == 4];
        for i in 0..4 {
            q.propagators.insert(names[i].to_string(), cfg([50, 25, 20, 10][i] * S));
            q.seq.insert(ep(ends[i]), phase(names[i], names[i], Some(DiscreteEvent::Staging { impulsive_maneuver: None, decrement_properties: Some(PhysicalProperties { mass: Some(Mass { dry_mass_kg: lost[i], prop_mass_kg: 0.0, extra_mass_kg: 0.0 }), srp: None, drag: None }) }), dis[i]));
        }
        q.seq.insert(ep(ends[4]), Phase::Terminate);
        q.seq.insert(ep(ends[4] + S), phase("z", "a", None, false));
        q.seq.insert(ep(ends[4] + 2 * S), Phase::Terminate);
        vp_check(q.setup(a.clone()).is_ok(), 1);
        let sc = craft3(E0, free());
        let until = match stop { 0 => None, 5 => Some("none".to_string()), k => Some(names[k - 1].to_string()) };
        let t = q.propagate(sc, until, a).unwrap();
        let last = if stop == 0 || stop == 5 { 4 } else { stop - 1 };
        let run: Vec<usize> = (0..last).filter(|i| !dis[*i]).collect();
        vp_check(t.len() == run.len(), 2);
        let (mut m, mut n) = (sc.mass.dry_mass_kg, 0);
        for (j, &i) in run.iter().enumerate() {
            let to = if j + 1 < run.len() { ends[run[j + 1]] } else { ends[last] };
            m -= lost[i];
            vp_check(t[j].first().epoch() == ep(ends[i]) && t[j].last().epoch() == ep(to), 3);
            vp_check(t[j].name.as_deref() == Some(names[i]), 4);
            vp_check(near(t[j].first().mass.dry_mass_kg, m, 1e-9) && near(t[j].last().mass.dry_mass_kg, m, 1e-9), 5);
            vp_check(t[j].states.len() as i64 == (to - ends[i]) / ([50, 25, 20, 10][i] * S) + 1, 6);
            let dt = ((to - E0) / S) as f64;
            vp_check(at(&(sc.orbit.radius_km + sc.orbit.velocity_km_s * dt), &sc.orbit.velocity_km_s, t[j].last(), 1e-6), 7);
            n += 1;
        }
        vp_check(n == run.len(), 8);
    }
    //@ time=120
    /// starting anywhere in the plan: the phase in progress goes on without being entered again
    fn h_resume() {
        let a = sky();
        let mut q = SpacecraftSequence::default();
        let ends = [E0, E0 + 100 * S, E0 + 200 * S, E0 + 300 * S];
        let lost = [vp_f64(10, 0.0, 5.0), vp_f64(11, 0.0, 5.0), vp_f64(12, 0.0, 5.0)];
        q.propagators.insert("p".to_string(), cfg(200 * S));
        let off = vp_fix_i64(vp_i64(9, 0, 1)) == 1;
        for i in 0..3 {
            q.seq.insert(ep(ends[i]), phase(["a", "b", "c"][i], "p", Some(DiscreteEvent::Staging { impulsive_maneuver: None, decrement_properties: Some(PhysicalProperties { mass: Some(Mass { dry_mass_kg: lost[i], prop_mass_kg: 0.0, extra_mass_kg: 0.0 }), srp: None, drag: None }) }), off && i == 1));
        }
        q.seq.insert(ep(ends[3]), Phase::Terminate);
        vp_check(q.setup(a.clone()).is_ok(), 1);
        let s = vp_i64(30, 0, 320 * S);
        let sc = craft3(E0 + s, free());
        let t = q.propagate(sc, None, a).unwrap();
        if s >= 300 * S { vp_check(t.is_empty(), 2); return; }
        let cur = if s >= 200 * S { 2 } else if s >= 100 * S && !off { 1 } else { 0 };
        let run: Vec<usize> = (cur..3).filter(|i| !(off && *i == 1)).collect();
        vp_check(t.len() == run.len(), 3);
        let mut m = sc.mass.dry_mass_kg;
        for (j, &i) in run.iter().enumerate() {
            let to = if j + 1 < run.len() { ends[run[j + 1]] } else { ends[3] };
            if j > 0 || ends[i] == E0 + s { m -= lost[i]; }
            vp_check(t[j].first().epoch() == ep(if j == 0 { E0 + s } else { ends[i] }) && t[j].last().epoch() == ep(to), 4);
            vp_check(near(t[j].last().mass.dry_mass_kg, m, 1e-9), 5);
        }
    }
    //@ time=120
    /// change of the central body and of the axes
    fn h_swap() {
        let a = sky();
        let mut q = SpacecraftSequence::default();
        q.propagators.insert("p".to_string(), cfg(50 * S));
        let k = vp_fix_i64(vp_i64(9, 0, 2)) as usize;
        let f = a.frame_info([MOON_J2000, IAU_EARTH_FRAME, MOON_J2000.with_orient(399)][k]).unwrap();
        q.seq.insert(ep(E0), phase("a", "p", None, false));
        q.seq.insert(ep(E0 + 100 * S), phase("b", "p", Some(DiscreteEvent::FrameSwap { new_frame: f }), false));
        q.seq.insert(ep(E0 + 200 * S), Phase::Terminate);
        vp_check(q.setup(a.clone()).is_ok(), 1);
        let mut sc = craft3(E0, free());
        sc.orbit = Orbit::new(7000.0 + v(20, 10.0), v(21, 10.0), 300.0, v(22, 1.0), 7.5, v(23, 1.0), ep(E0), free());
        let t = q.propagate(sc, None, a.clone()).unwrap();
        vp_check(t.len() == 2, 2);
        let want = a.transform_to(t[0].last().orbit, f, None).unwrap();
        vp_check(t[1].first().orbit.frame.ephem_origin_match(f) && t[1].first().orbit.frame.orient_origin_match(f), 3);
        vp_check(at(&want.radius_km, &want.velocity_km_s, t[1].first(), 1e-6), 4);
        vp_check(at(&(want.radius_km + want.velocity_km_s * 100.0), &want.velocity_km_s, t[1].last(), 1e-5), 5);
    }
    //@ time=120
    /// a burn with the thrusters named, then without; thrust symbolic
    fn h_burn() {
        let a = sky();
        let mut q = SpacecraftSequence::default();
        q.propagators.insert("p".to_string(), cfg(10 * S));
        let (f, g) = (vp_f64(10, 1.0, 50.0), vp_f64(11, 60.0, 90.0));
        q.thruster_sets.insert("x".to_string(), Thruster { thrust_N: f, isp_s: 300.0 });
        q.thruster_sets.insert("y".to_string(), Thruster { thrust_N: g, isp_s: 200.0 });
        let k = vp_fix_i64(vp_i64(9, 0, 1)) as usize;
        let keep = vp_fix_i64(vp_i64(8, 0, 1)) == 1;
        let m = Maneuver::from_time_invariant(ep(E0 + 20 * S), ep(E0 + 60 * S), 0.5, Vector3::new(0.0, 1.0, 0.0), LocalFrame::Inertial);
        q.seq.insert(ep(E0), phase("a", "p", None, false));
        q.seq.insert(ep(E0 + 20 * S), Phase::Activity { name: "b".to_string(), propagator: "p".to_string(), guidance: Some(Box::new(GuidanceConfig { thruster_model: ["x", "y"][k].to_string(), disable_prop_mass: keep, law: SteeringLaw::FiniteBurn(m) })), on_entry: None, disabled: false });
        q.seq.insert(ep(E0 + 60 * S), phase("c", "p", None, false));
        q.seq.insert(ep(E0 + 80 * S), Phase::Terminate);
        vp_check(q.setup(a.clone()).is_ok(), 1);
        let sc = Spacecraft::new(Orbit::new(7000.0, 100.0, -300.0, 0.1, 7.5, 0.4, ep(E0), free()), 500.0, 200.0, 0.0, 0.0, 1.0, 2.0);
        let t = q.propagate(sc, None, a).unwrap();
        vp_check(t.len() == 3, 2);
        let (th, isp) = [(f, 300.0), (g, 200.0)][k];
        let used = if keep { 0.0 } else { 0.5 * th / (isp * 9.80665) * 40.0 };
        vp_check(near(t[0].last().mass.prop_mass_kg, 200.0, 1e-9) && near(t[1].last().mass.prop_mass_kg, 200.0 - used, 1e-6) && near(t[2].last().mass.prop_mass_kg, 200.0 - used, 1e-6), 3);
        vp_check(near(t[0].last().orbit.velocity_km_s.y, 7.5, 1e-9) && near(t[2].last().orbit.velocity_km_s.y, t[1].last().orbit.velocity_km_s.y, 1e-9), 4);
        if keep { vp_check(near(t[1].last().orbit.velocity_km_s.y, 7.5 + 0.5 * th * 1e-3 / 700.0 * 40.0, 1e-7), 5); }
        else { vp_check(t[1].last().orbit.velocity_km_s.y > 7.5 + 0.5 * th * 1e-3 / 700.0 * 40.0, 6); }
    }
    //@ time=120
    /// a phase with any guidance law, first or after a coast, with or without an impulse on entry and propellant usage: it flies as the law set up with the state on entry; thrusts nothing afterwards
    fn h_guided() {
        let a = Arc::new(almanac(&[body(399, 0, [0.0; 3], [0.0; 3])], &[(399, 398600.4418, 6378.0)]));
        let (law, first, kick, keep) = (vp_fix_i64(vp_i64(6, 0, 2)), vp_fix_i64(vp_i64(7, 0, 1)) == 1, vp_fix_i64(vp_i64(8, 0, 1)) == 1, vp_fix_i64(vp_i64(9, 0, 1)) == 1);
        let frame = a.frame_info(EARTH_J2000).unwrap();
        let mut q = SpacecraftSequence::default();
        q.propagators.insert("p".to_string(), cfg(30 * S));
        let th = Thruster { thrust_N: 20.0, isp_s: 300.0 };
        q.thruster_sets.insert("x".to_string(), th);
        q.thruster_sets.insert("y".to_string(), Thruster { thrust_N: 30.0, isp_s: 200.0 });
        let goals = [Objective::within_tolerance(StateParameter::Element(Oe::Eccentricity), 0.3, 1e-4), Objective::within_tolerance(StateParameter::Element(Oe::SemiMajorAxis), 9000.0, 1.0)];
        let m = Maneuver::from_time_invariant(ep(E0 + 60 * S), ep(E0 + 120 * S), 0.5, Vector3::new(0.0, 1.0, 0.0), LocalFrame::VNC);
        let eff: Vec<_> = goals.iter().map(|o| ObjectiveEfficiency { objective: *o, efficiency: 0.0 }).collect();
        let wgt: Vec<_> = goals.iter().map(|o| ObjectiveWeight { objective: *o, weight: 0.5 }).collect();
        let sl = match law { 0 => SteeringLaw::FiniteBurn(m), 1 => SteeringLaw::Ruggiero { objectives: eff.clone(), max_eclipse_prct: None }, _ => SteeringLaw::Kluever { objectives: wgt.clone(), max_eclipse_prct: None } };
        let dv = Vector3::new(0.3, -0.2, 0.1);
        let on = if kick { Some(Box::new(DiscreteEvent::Staging { impulsive_maneuver: Some(ImpulsiveManeuver { local_frame: LocalFrame::Inertial, dv_km_s: dv }), decrement_properties: None })) } else { None };
        if !first { q.seq.insert(ep(E0), phase("a", "p", None, false)); }
        q.seq.insert(ep(E0 + 60 * S), Phase::Activity { name: "b".to_string(), propagator: "p".to_string(), guidance: Some(Box::new(GuidanceConfig { thruster_model: "x".to_string(), disable_prop_mass: keep, law: sl })), on_entry: on, disabled: false });
        q.seq.insert(ep(E0 + 120 * S), phase("c", "p", None, false));
        q.seq.insert(ep(E0 + 150 * S), Phase::Terminate);
        vp_check(q.setup(a.clone()).is_ok(), 1);
        let area = vp_f64(1, 0.0, 5.0);
        let start = Spacecraft::new(Orbit::new(7000.0, 100.0, -300.0, 0.1, 7.5, 0.4, ep(if first { E0 + 60 * S } else { E0 }), frame), 500.0, 200.0, area, 0.0, 1.0, 2.0);
        let t = q.propagate(start, None, a.clone()).unwrap();
        // by hand
        let p = || Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(30 * S)));
        let mut s = start;
        if !first { s = p().with(s, a.clone()).until_epoch(ep(E0 + 60 * S)).unwrap(); }
        if kick { s.orbit.velocity_km_s += dv; }
        s.thruster = Some(th);
        let g: Arc<dyn GuidanceLaw> = match law { 0 => Arc::new(m), 1 => Arc::new(Ruggiero { objectives: eff, max_eclipse_prct: None, init_state: s }), _ => Arc::new(Kluever { objectives: wgt, max_eclipse_prct: None }) };
        let mut w = p();
        w.dynamics.guid_law = Some(g);
        w.dynamics.decrement_mass = !keep;
        let e = w.with(s, a.clone()).until_epoch(ep(E0 + 120 * S)).unwrap();
        let x = *t[t.len() - 2].last();
        vp_check(at(&e.orbit.radius_km, &e.orbit.velocity_km_s, &x, 1e-9) && near(e.mass.prop_mass_kg, x.mass.prop_mass_kg, 1e-9) && x.srp.area_m2 == area, 2);
        // thrust acted
        vp_check((e.orbit.velocity_km_s - p().with(s, a.clone()).until_epoch(ep(E0 + 120 * S)).unwrap().orbit.velocity_km_s).norm() > 1e-6 && (keep == (e.mass.prop_mass_kg == 200.0)), 3);
        let f = p().with(x, a).until_epoch(ep(E0 + 150 * S)).unwrap();
        let y = t.last().unwrap().last();
        vp_check(at(&f.orbit.radius_km, &f.orbit.velocity_km_s, y, 1e-9) && near(f.mass.prop_mass_kg, y.mass.prop_mass_kg, 1e-9), 4);
    }
    /// a plan has to end, and to name existing propagators and thrusters
    fn h_plan() {
        let a = sky();
        let mut q = SpacecraftSequence::default();
        q.propagators.insert("p".to_string(), cfg(10 * S));
        q.thruster_sets.insert("x".to_string(), Thruster { thrust_N: 1.0, isp_s: 300.0 });
        let k = vp_fix_i64(vp_i64(9, 0, 7));
        let at = vp_fix_i64(vp_i64(8, 0, 1)) as usize;
        let m = Maneuver::from_time_invariant(ep(E0), ep(E0 + 60 * S), 0.5, Vector3::new(0.0, 1.0, 0.0), LocalFrame::Inertial);
        for i in 0..2 {
            let bad = i == at;
            q.seq.insert(ep(E0 + i as i64 * 100 * S), Phase::Activity { name: "b".to_string(), propagator: (if bad && k & 1 == 1 { "r" } else { "p" }).to_string(), guidance: Some(Box::new(GuidanceConfig { thruster_model: (if bad && k & 2 == 2 { "y" } else { "x" }).to_string(), disable_prop_mass: false, law: SteeringLaw::FiniteBurn(m) })), on_entry: None, disabled: false });
        }
        if k & 4 == 0 { q.seq.insert(ep(E0 + 200 * S), Phase::Terminate); }
        vp_check(q.validate().is_ok() == (k == 0), 1);
        vp_check(q.setup(a).is_ok() == (k == 0), 2);
    }
    /// any choice of force models, step control and method: the propagator of a phase is the configured one
    fn h_build() {
        let a = Arc::new(almanac(&[body(399, 0, [0.0; 3], [0.0; 3]), body(301, 399, [3e5, 2e5, 1e4], [0.0; 3]), body(10, 0, [1.2e8, -8e7, -3e7], [0.0; 3])], &[(399, 398600.4418, 6378.0), (301, 4902.8, 1737.4), (10, 1.327e11, 695700.0)]));
        let k = vp_fix_i64(vp_i64(9, 0, 15));
        let info = |f: Frame| a.frame_info(f).unwrap();
        let pm = PointMasses::new(vec![301, 10]);
        let ti = SolidTides { frame: info(EARTH_J2000), k2: vp_f64(10, 0.1, 1.0), k3: vp_f64(11, 0.1, 1.0), perturbers: vec![TidalPerturber { frame: info(MOON_J2000), compute_degree_3: true }] };
        let sp = SolarPressure { phi: vp_f64(12, 1000.0, 2000.0), shadow_model: ShadowModel { light_source: info(SUN_J2000), shadow_bodies: vec![] }, estimate: true };
        let dr = Drag { density: AtmDensity::Constant(vp_f64(13, 1e-12, 1e-9)), frame: info(EARTH_J2000), estimate: false };
        let opts = IntegratorOptions { init_step: ns(7 * S), min_step: ns(3 * S), max_step: ns(11 * S), tolerance: vp_f64(14, 1e-12, 1e-3), attempts: 17, fixed_step: k & 1 == 1, error_ctrl: ErrorControl::RSSCartesianState, ..Default::default() };
        let method = [IntegratorMethod::RungeKutta4, IntegratorMethod::DormandPrince78, IntegratorMethod::Verner56, IntegratorMethod::CashKarp45][(k % 4) as usize];
        let c = PropagatorConfig { dynamics: Dynamics { accel_models: AccelModels { point_masses: (k & 1 == 1).then(|| pm.clone()), gravity_field: None, solid_tides: (k & 2 == 2).then(|| ti.clone()) }, force_models: ForceModels { solar_pressure: (k & 4 == 4).then(|| sp.clone()), drag: (k & 8 == 8).then_some(dr) } }, method, options: opts };
        let p = c.build(a.clone()).unwrap();
        vp_check(p.opts == opts && p.method == method && p.dynamics.guid_law.is_none() && p.dynamics.decrement_mass, 1);
        let mut s = craft3(E0, info(EARTH_J2000));
        s.orbit.velocity_km_s.z = v(15, 1.0);
        let x = p.dynamics.eom(0.0, &s.to_vector(), &s, &a).unwrap();
        let o = &s.orbit;
        let mut w = o.radius_km * (-398600.4418 / o.radius_km.norm().powi(3));
        if k & 1 == 1 { w += pm.eom(o, &a).unwrap(); }
        if k & 2 == 2 { w += ti.eom(o, &a).unwrap(); }
        let m = s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg;
        let mut f = Vector3::zeros();
        if k & 4 == 4 { f += sp.eom(&s, &a).unwrap(); }
        if k & 8 == 8 { f += dr.eom(&s, &a).unwrap(); }
        for i in 0..3 { vp_check(near(x[i], o.velocity_km_s[i], 1e-12) && near((x[i + 3] - w[i]) * m, f[i], 1e-13), 2); }
    }
}
