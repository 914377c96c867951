import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import mk, ALM

mk("s01-tail-skipped", "C01", [("propagators/instance.rs", "if stop_time == epoch {", "if (stop_time - epoch).abs() < 10.0 * Unit::Microsecond {")], r'''
use nyx_space::dynamics::*; use nyx_space::propagators::*;
fn main() {
    let setup = Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorOptions::with_fixed_step(10.seconds()));
    for dur in [100.seconds(), 101.seconds(), 100.seconds() + Duration::from_truncated_nanoseconds(700), -(100.seconds() + Duration::from_truncated_nanoseconds(700))] {
        let end = setup.with(Spacecraft::from(orbit()), Arc::new(Almanac::default())).quiet().for_duration(dur).unwrap();
        need(end.epoch() == e0() + dur, "end epoch");
    }
}''', "a duration whose remainder after whole steps is below 10 microseconds", "the propagation stops up to 10 microseconds before the requested epoch")

mk("s02-adaptive-lost", "C02", [("propagators/instance.rs", "let prev_step_kind = self.fixed_step;", "let prev_step_kind = self.fixed_step || backprop;")], r'''
use nyx_space::dynamics::*; use nyx_space::propagators::*;
fn main() {
    let o = Orbit::new(6678.0, 0.0, 0.0, 0.0, 10.6, 0.0, e0(), earth());
    let opts = IntegratorOptions::with_adaptive_step(0.1.seconds(), 1.hours(), 1e-9, ErrorControl::RSSCartesianStep);
    let setup = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorMethod::DormandPrince45, opts);
    let alm = Arc::new(Almanac::default());
    let mut inst = setup.with(Spacecraft::from(o), alm.clone()).quiet();
    let mid = inst.for_duration(-5.hours()).unwrap();
    let a = inst.for_duration(8.hours()).unwrap();
    let b = setup.with(mid, alm).quiet().for_duration(8.hours()).unwrap();
    let d = (a.orbit.radius_km - b.orbit.radius_km).norm();
    println!("{d:e}");
    need(d < 0.01, "adaptive control lost after a backward propagation");
}''', "a backward adaptive propagation, then a further propagation of the same instance", "the propagator silently continues with fixed steps, no longer honouring its tolerance")

mk("s03-verner-coeff", "C03", [("propagators/rk_methods/verner.rs", "-8_263.0 / 15_000.0", "-8_236.0 / 15_000.0")], r'''
use nyx_space::dynamics::*; use nyx_space::propagators::*;
fn run(m: IntegratorMethod, step: Duration) -> Orbit {
    let setup = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), m, IntegratorOptions::with_fixed_step(step));
    setup.with(Spacecraft::from(orbit()), Arc::new(Almanac::default())).quiet().for_duration(1.hours()).unwrap().orbit
}
fn main() {
    let t = run(IntegratorMethod::DormandPrince78, 10.seconds());
    let e1 = (run(IntegratorMethod::Verner56, 120.seconds()).radius_km - t.radius_km).norm();
    let e2 = (run(IntegratorMethod::Verner56, 60.seconds()).radius_km - t.radius_km).norm();
    println!("{e1:e} {e2:e} ratio {}", e1 / e2);
    need(e1 / e2 > 40.0, "halving the step of a sixth order method divides the error by less than 40");
}''', "the 5th stage of the Verner method; shows as a lower convergence order", "the method is no longer sixth order")

mk("s04-add-cr", "C04", [("cosmic/spacecraft.rs", "self.srp.coeff_reflectivity = (self.srp.coeff_reflectivity + other[6]).clamp(0.0, 2.0);", "self.srp.coeff_reflectivity = self.srp.coeff_reflectivity.clamp(0.0, 2.0) + other[6].max(-self.srp.coeff_reflectivity).min(1.0);")], r'''
use nyx_space::linalg::*;
fn main() {
    let sc = Spacecraft::new(orbit(), 100.0, 20.0, 2.0, 1.0, 0.4, 2.2);
    for d in [0.1, 0.5, 1.2, -0.2] {
        let mut v = SVector::<f64, 9>::zeros();
        v[6] = d;
        let n = sc + v;
        need((n.srp.coeff_reflectivity - (0.4 + d)).abs() < 1e-12, "deviation of the reflectivity coefficient");
    }
}''', "a deviation of the reflectivity coefficient above one", "adding a deviation to a spacecraft truncates the reflectivity component")

mk("s05-grad-mass", "C05", [("dynamics/spacecraft.rs", "let (model_frc, model_grad) = model.gradient(ctx, almanac)?;", "let (model_frc, model_grad) = model.gradient(ctx, almanac)?;\n            let total_mass = if model.estimation_index().is_some() { ctx.mass.dry_mass_kg + ctx.mass.prop_mass_kg } else { total_mass };")], r'''
use nyx_space::dynamics::*; use nyx_space::linalg::*; use nyx_space::cosmic::*; use nyx_space::State;
struct F;
impl std::fmt::Display for F { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "F") } }
impl ForceModel for F {
    fn estimation_index(&self) -> Option<usize> { Some(6) }
    fn eom(&self, _: &Spacecraft, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> { Ok(Vector3::new(1.0, 2.0, 3.0)) }
    fn gradient(&self, _: &Spacecraft, _: &Almanac) -> Result<(Vector3<f64>, Matrix4x3<f64>), DynamicsError> { Ok((Vector3::new(1.0, 2.0, 3.0), Matrix4x3::zeros())) }
}
fn main() {
    let d = SpacecraftDynamics::from_model(OrbitalDynamics::two_body(), Arc::new(F));
    for extra in [0.0, 50.0] {
        let mut sc = Spacecraft::new(orbit(), 100.0, 20.0, 2.0, 1.0, 0.4, 2.2);
        sc.mass.extra_mass_kg = extra;
        let a = d.eom(0.0, &sc.to_vector(), &sc, &Almanac::default()).unwrap();
        let st = sc.with_stm();
        let b = d.eom(0.0, &st.to_vector(), &st, &Almanac::default()).unwrap();
        for i in 0..9 { need((a[i] - b[i]).abs() < 1e-12, "enabling the STM changes the motion"); }
    }
}''', "a spacecraft with extra mass, the STM enabled, and a force model whose coefficient is estimated", "force models are divided by the wrong mass when the STM is on, so enabling the STM changes the motion")

mk("s06-ratio", "C06", [("od/kalman/filtering.rs", "let ratio = (whitened_resid.norm_squared() / (M::DIM as f64)).sqrt();", "let ratio = whitened_resid.norm_squared().sqrt() / (M::DIM as f64);")], r'''
use nyx_space::od::prelude::*; use nyx_space::od::process::*; use nyx_space::linalg::*; use nyx_space::State;
use nyx_space::od::kalman::*;
use nyx_space::od::estimate::*;
fn main() {
    let sc = Spacecraft::new(orbit(), 100.0, 20.0, 2.0, 1.0, 0.4, 2.2).with_stm();
    let est = KfEstimate::from_diag(sc, SVector::<f64, 9>::from_element(1e-6));
    let mut h = SMatrix::<f64, 2, 9>::zeros();
    h[(0, 0)] = 1.0; h[(1, 1)] = 1.0;
    let r = SMatrix::<f64, 2, 2>::identity();
    let mut kf: KalmanFilter<Spacecraft, Const<3>> = KalmanFilter::new(est, KalmanVariant::ReferenceUpdate);
    // both residuals at 3.5 sigma: an N-sigma ratio of 3.5 exceeds a threshold of 3
    let (_, resid, _) = kf.measurement_update(sc, SVector::<f64, 2>::new(3.5, 3.5), SVector::<f64, 2>::zeros(), r, h, Some(SigmaRejection { num_sigmas: 3.0 })).unwrap();
    need(resid.rejected, "3.5 sigma measurement accepted with a 3 sigma threshold");
}''', "two simultaneous measurements whose root mean square ratio is between the threshold and sqrt(2) times it", "bad simultaneous measurements are accepted")

mk("s07-two-noises", "C07", [("od/kalman/filtering.rs", "                // And break so we don't add any more process noise\n                break;\n            }\n        }\n\n        // Project", "                // And break so we don't add any more process noise\n                if snc.start_time.is_some() {\n                    break;\n                }\n            }\n        }\n\n        // Project")], r'''
use nyx_space::od::prelude::*; use nyx_space::linalg::*; use nyx_space::State; use nyx_space::od::kalman::*; use nyx_space::od::estimate::*; use nyx_space::od::snc::*;
fn main() {
    let sc = Spacecraft::new(orbit(), 100.0, 20.0, 2.0, 1.0, 0.4, 2.2).with_stm();
    let est = KfEstimate::from_diag(sc, SVector::<f64, 9>::from_element(1e-6));
    let mut nxt = sc; nxt.orbit.epoch = sc.epoch() + 60.seconds();
    let mut h = SMatrix::<f64, 1, 9>::zeros(); h[(0, 0)] = 1.0;
    let run = |n: usize| {
        let s1 = ProcessNoise3D::from_diagonal(&[1e-6; 3], 5.minutes(), None);
        let s2 = ProcessNoise3D::from_diagonal(&[1e-8; 3], 5.minutes(), None);
        let mut kf: KalmanFilter<Spacecraft, Const<3>> = KalmanFilter::from_process_noise(est, KalmanVariant::ReferenceUpdate, s2.clone());
        if n == 2 { kf.process_noise = vec![s1, s2]; }
        let (e, _, _) = kf.measurement_update(nxt, SVector::<f64, 1>::new(0.0), SVector::<f64, 1>::new(0.0), SMatrix::<f64, 1, 1>::identity(), h, None).unwrap();
        e.covar_bar
    };
    need((run(1) - run(2)).norm() < 1e-12, "an earlier process noise is added on top of the latest one");
}''', "two process noises without start times, both applicable, at a measurement update", "both process noises are added instead of the latest one")

mk("s08-within", "C08", [("od/estimate/mod.rs", "let bound = covar[(i, i)].sqrt() * sigma;", "let bound = if i < 6 { covar[(i, i)].sqrt() * sigma } else { (covar[(i, i)] * sigma).sqrt() };")], r'''
use nyx_space::od::prelude::*; use nyx_space::linalg::*; use nyx_space::od::estimate::*;
fn main() {
    let sc = Spacecraft::new(orbit(), 100.0, 20.0, 2.0, 1.0, 0.4, 2.2);
    let mut est = KfEstimate::from_diag(sc, SVector::<f64, 9>::from_element(0.04));
    let mut d = SVector::<f64, 9>::zeros(); d[6] = 0.5; est.state_deviation = d;
    need(est.within_3sigma(), "2.5 sigma is within 3 sigma");
}''', "a deviation of a spacecraft coefficient between sqrt(n) and n sigmas", "an estimate within n sigma is reported as outside")

mk("s09-traj-add", "C09", [("md/trajectory/traj.rs", ".filter(|s| s.epoch() > self.last().epoch())", ".filter(|s| s.epoch() >= other.first().epoch().max(self.last().epoch() + 1.0 * hifitime::Unit::Millisecond))")], r'''
use nyx_space::md::trajectory::*; use nyx_space::State;
fn main() {
    let mk = |o: &[f64]| { let mut t = Traj::new(); for s in o { let mut x = Spacecraft::from(orbit()); x.set_epoch(e0() + *s * Unit::Second); t.states.push(x); } t.finalize(); t };
    let s = (&mk(&[0.0, 10.0, 20.0]) + &mk(&[20.0, 20.0004, 30.0])).unwrap();
    need(s.states.len() == 5, "a state of the second trajectory was lost");
}''', "a state of the second trajectory less than a millisecond after the end of the first", "concatenation loses a state")

mk("s10-sort-merge", "C10", [("od/msr/trackingdata/mod.rs", "if next.epoch == kept.epoch && next.tracker == kept.tracker {", "if (next.epoch - kept.epoch).abs() < 1.0 * hifitime::Unit::Microsecond && next.tracker == kept.tracker {")], r'''
use nyx_space::od::prelude::*; use nyx_space::od::msr::*;
fn main() {
    let m = |ns: i64, v: f64| Measurement::new("A".to_string(), e0() + Duration::from_truncated_nanoseconds(ns)).with(MeasurementType::Range, v);
    let mut a = TrackingDataArc::default();
    a.measurements = vec![m(500, 2.0), m(0, 1.0)];
    a.sort();
    need(a.len() == 2, "two measurements at different epochs were merged");
}''', "two measurements of one tracker less than a microsecond apart", "sorting an arc merges and so loses a measurement")

mk("s11-event-frame", "C11", [("propagators/event.rs", "        let orbit = if let Some(observer_frame) = event_frame {\n            self.almanac", "        let orbit = if let Some(observer_frame) = event_frame\n            && trigger > 1\n        {\n            self.almanac")], r'''
use nyx_space::dynamics::*; use nyx_space::propagators::*; use anise::analysis::prelude::*;
use anise::structure::PlanetaryDataSet; use anise::structure::planetocentric::{PlanetaryData, ellipsoid::Ellipsoid, phaseangle::PhaseAngle};
use anise::naif::SPK;
/// ET of the middle of the segment (about 2000 s past J1900) and its half-length
pub const MID: f64 = -3155671000.0;
pub const RAD: f64 = 1e6;
pub struct Body { pub id: i32, pub center: i32, pub pos: [f64; 3], pub vel: [f64; 3] }
pub fn body(id: i32, center: i32, pos: [f64; 3], vel: [f64; 3]) -> Body { Body { id, center, pos, vel } }

fn put(b: &mut [u8], at: usize, x: f64) { b[at..at + 8].copy_from_slice(&x.to_ne_bytes()); }
pub fn spk(bodies: &[Body]) -> SPK {
    let mut b = vec![0u8; 3072 + bodies.len() * 96];
    b[..8].copy_from_slice(b"DAF/SPK ");
    b[8..12].copy_from_slice(&2u32.to_le_bytes());
    b[12..16].copy_from_slice(&6u32.to_le_bytes());
    b[76..80].copy_from_slice(&2u32.to_le_bytes());
    b[80..84].copy_from_slice(&2u32.to_le_bytes());
    b[88..96].copy_from_slice(b"LTL-IEEE");
    put(&mut b, 1024 + 16, bodies.len() as f64);
    for (i, y) in bodies.iter().enumerate() {
        let s = 1048 + 40 * i;
        put(&mut b, s, MID - RAD);
        put(&mut b, s + 8, MID + RAD);
        let d0 = 385 + 12 * i as i32;
        for (k, x) in [y.id, y.center, 1, 2, d0, d0 + 11].iter().enumerate() { b[s + 16 + 4 * k..s + 20 + 4 * k].copy_from_slice(&x.to_le_bytes()); }
        let d = 3072 + 96 * i;
        put(&mut b, d, MID);
        put(&mut b, d + 8, RAD);
        for a in 0..3 { put(&mut b, d + 16 + 16 * a, y.pos[a]); put(&mut b, d + 24 + 16 * a, y.vel[a] * RAD); }
        put(&mut b, d + 64, MID - RAD);
        put(&mut b, d + 72, 2.0 * RAD);
        put(&mut b, d + 80, 8.0);
        put(&mut b, d + 88, 1.0);
    }
    SPK::parse(b).unwrap()
}
fn alm() -> Almanac {
    let mut set = PlanetaryDataSet::default();
    let mut d = PlanetaryData { object_id: 399, parent_id: 1, mu_km3_s2: 398600.4418, ..Default::default() };
    d.shape = Some(Ellipsoid::from_sphere(6378.0));
    let ph = |o: f64, r: f64| PhaseAngle { offset_deg: o, rate_deg: r, accel_deg: 0.0, coeffs_count: 0, coeffs: [0.0; 32] };
    d.pole_right_ascension = Some(ph(0.0, 0.0)); d.pole_declination = Some(ph(90.0, 0.0)); d.prime_meridian = Some(ph(190.0, 360.9856));
    set.push(d, Some(399), None).unwrap();
    let mut a = Almanac::default();
    a.planetary_data.insert("v".to_string(), set);
    a.spk_data.insert("v".to_string(), spk(&[body(399, 3, [1e3, 0.0, 0.0], [0.0; 3])]));
    a
}
fn main() {
    let a = Arc::new(alm());
    let setup = Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorOptions::with_fixed_step(1.minutes()));
    for k in 0..8 {
        let o = Orbit::new(7000.0, 100.0, -300.0, 0.1, 7.5, 0.4, Epoch::from_tai_duration(2000.seconds()) + (k as f64) * 3.hours(), earth());
        let mut p = setup.with(Spacecraft::from(o), a.clone()).quiet();
        let (_, traj) = setup.with(Spacecraft::from(o), a.clone()).quiet().for_duration_with_traj(2.hours()).unwrap();
        let x = |s: &Spacecraft| a.transform_to(s.orbit, IAU_EARTH_FRAME, None).unwrap().radius_km.x;
        let w = traj.states.windows(2).find(|w| x(&w[0]) * x(&w[1]) < 0.0).unwrap();
        let ev = Event::new(ScalarExpr::Element(OrbitalElement::X), Condition::Equals(0.0));
        match p.until_nth_event(2.hours(), &ev, Some(IAU_EARTH_FRAME), 1) {
            Ok((s, _)) => need(s.orbit.epoch >= w[0].orbit.epoch && s.orbit.epoch <= w[1].orbit.epoch, "not the first crossing"),
            Err(e) => { println!("{e}"); need(false, "crossing not found") }
        }
    }
}''', "an event frame that differs from the frame of the state, first occurrence", "the initial event value is evaluated in the wrong frame, so a spurious crossing is counted or a genuine one missed")

mk("s12-raan-efficiency", "C12", [("dynamics/guidance/ruggiero.rs", "* ((1.0 - e.powi(2) * ω.cos().powi(2)).sqrt() - e * ω.sin().abs());", "* ((1.0 - e.powi(2) * ω.sin().powi(2)).sqrt() - e * ω.sin().abs());")], r'''
use nyx_space::dynamics::guidance::*;
use anise::analysis::prelude::OrbitalElement;
fn main() {
    // the efficiency is the rate of change of the node over its best value on the orbit: never above one
    let p = StateParameter::Element(OrbitalElement::RAAN);
    for aop in [10.0, 70.0, 130.0, 250.0] {
        let mut best: f64 = 0.0;
        for ta in 0..360 {
            let o = Orbit::keplerian(24000.0, 0.6, 20.0, 40.0, aop, ta as f64, e0(), earth());
            best = best.max(Ruggiero::efficiency(&p, &o).unwrap());
        }
        need((best - 1.0).abs() < 1e-3, "best efficiency of the orbit is not one");
    }
}''', "an eccentric orbit and an efficiency threshold on the node", "the efficiency of a RAAN objective is off, so it coasts where it should thrust and vice versa")
mk("s12-burn-ra", "C12", [("dynamics/guidance/mnvr.rs", "let t = (epoch - self.start).to_seconds();", "let t = (epoch.min(self.end) - self.start).to_seconds().floor();")], r'''
use nyx_space::dynamics::guidance::*;
use nyx_space::polyfit::CommonPolynomial;
fn main() {
    let m = Maneuver { start: e0(), end: e0() + 1.hours(), thrust_prct: 1.0, frame: LocalFrame::Inertial, representation: MnvrRepr::Angles { azimuth: CommonPolynomial::Linear { a: 0.1, b: 0.2 }, elevation: CommonPolynomial::Constant { a: 0.0 } } };
    let v = m.vector(e0() + 2.5.seconds());
    need((v.y.atan2(v.x) - 0.45).abs() < 1e-9, "wrong direction between full seconds");
}''', "a steering polynomial evaluated between full seconds of the burn", "the steering angles are held for a second instead of following the polynomial")
mk("s13-sens-frame", "C13", [("od/msr/sensitivity.rs", "let delta_v = receiver.velocity_km_s - transmitter.velocity_km_s;", "let delta_v = receiver.velocity_km_s;")], r'''
use nyx_space::od::prelude::*;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::MeasurementType as T;
use nalgebra::Const;
fn main() {
    let a = alm();
    let g = GroundStation::from_point("s".to_string(), 20.0, 30.0, 0.0, IAU_EARTH_FRAME).with_msr_type(T::Doppler, StochasticNoise::MIN);
    let s = a.transform_to(g.to_orbit(e0(), &a).unwrap(), EARTH_J2000, None).unwrap();
    let r = s.radius_km * 1.3;
    let o = Orbit::new(r.x + 100.0, r.y, r.z + 300.0, 1.0, 2.0, 3.0, e0(), earth());
    let dop = |o: Orbit| g.azimuth_elevation_of(o, None, &a).unwrap().range_rate_km_s;
    let m = od::msr::Measurement::new("s".to_string(), e0()).with(T::Doppler, dop(o));
    let h = g.h_tilde::<Const<1>>(&m, &[T::Doppler].into_iter().collect(), &Spacecraft::from(o), &a).unwrap();
    for j in 0..3 {
        let (mut p, mut n) = (o, o);
        p.radius_km[j] += 1e-2; n.radius_km[j] -= 1e-2;
        need(((dop(p) - dop(n)) / 2e-2 - h[(0, j)]).abs() < 1e-6, "the sensitivity is not the derivative");
    }
}''', "a Doppler measurement filtered from a rotating station", "the position sensitivity of Doppler ignores the velocity of the station", pre=ALM)
mk("s13-noise-order", "C13", [("od/ground_station/mod.rs", """            for (ii, msr_type) in self.measurement_types.iter().enumerate() {
                noises[ii + 1] = stochastics
                    .get_mut(msr_type)
                    .ok_or(ODError::NoiseNotConfigured {
                        kind: format!("{msr_type:?}"),
                    })?
                    .sample(epoch, rng);
            }""", """            for msr_type in &self.measurement_types {
                if !stochastics.contains_key(msr_type) {
                    return Err(ODError::NoiseNotConfigured {
                        kind: format!("{msr_type:?}"),
                    });
                }
            }

            for (noise, stochastic) in noises.iter_mut().skip(1).zip(stochastics.values_mut()) {
                *noise = stochastic.sample(epoch, rng);
            }""")], r'''
use nyx_space::od::prelude::*;
use nyx_space::od::msr::MeasurementType as T;
use nyx_space::od::noise::*;
use rand_pcg::Pcg64Mcg;
fn main() {
    let a = alm();
    let big = StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: 10.0 }), bias: None };
    let none = StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: 0.0 }), bias: None };
    let mut g = GroundStation::from_point("s".to_string(), 20.0, 30.0, 0.0, IAU_EARTH_FRAME);
    g.measurement_types.insert(T::Range);
    g.measurement_types.insert(T::Doppler);
    g.stochastic_noises = Some([(T::Doppler, none), (T::Range, big)].into_iter().collect());
    let s = a.transform_to(g.to_orbit(e0(), &a).unwrap(), EARTH_J2000, None).unwrap();
    let r = s.radius_km * 1.3;
    let o = Orbit::new(r.x, r.y, r.z, 1.0, 2.0, 3.0, e0(), earth());
    let truth = g.azimuth_elevation_of(o, None, &a).unwrap().range_rate_km_s;
    let mut rng = Pcg64Mcg::new(3);
    let m = g.measure_instantaneous(Spacecraft::from(o), Some(&mut rng), &a).unwrap().unwrap();
    need((m.data[&T::Doppler] - truth).abs() < 1e-9, "noise of another type on the Doppler");
}''', "a station whose noises are listed in another order than its measurement types", "each type gets the noise of another one", pre=ALM)
mk("s14-curvature", "C14", [("od/groundpnt/mod.rs", "    let v_south = -lat_rate_rad_s * (m + alt_km); // Negative because x is south\n    let v_east = long_rate_rad_s * (n + alt_km) * lat_rad.cos();", "    let v_south = -lat_rate_rad_s * (n + alt_km); // Negative because x is south\n    let v_east = long_rate_rad_s * (n + alt_km) * lat_rad.cos();"),
  ("od/groundpnt/mod.rs", "let lat_rate_rad_s = -v_south / (m + alt_km);", "let lat_rate_rad_s = -v_south / (n + alt_km);")], r'''
use nyx_space::od::groundpnt::*;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
fn main() {
    let mut f = IAU_EARTH_FRAME;
    f.shape = Some(Ellipsoid::from_spheroid(6378.0, 6356.0));
    let g = GroundAsset::from_fixed(10.0, 20.0, 0.0, e0(), f).with_velocity_sez_m_s(-100.0, 0.0, 0.0).unwrap();
    // 100 s to the north: 10 km
    let mut h = g;
    h.latitude_deg += 100.0 * g.latitude_rate_deg_s;
    let d = (h.orbit().radius_km - g.orbit().radius_km).norm();
    need((d - 10.0).abs() < 1e-3, "moved another distance than the speed says");
}''', "a body with flattening and motion along the meridian", "the speed over ground and the rate of latitude disagree by the flattening, in both directions alike")
mk("s14-integration-start", "C14", [("od/groundpnt/trk_device.rs", "                let msr_t0_opt = self.measure_instantaneous(rx_0, None, almanac)?;", "                let msr_t0_opt = self.measure_instantaneous(rx_1, None, almanac)?;"),
  ("od/groundpnt/trk_device.rs", "                let msr_t1_opt = self.measure_instantaneous(rx_1, None, almanac)?;", "                let msr_t1_opt = match self.measure_instantaneous(rx_0, None, almanac)? {\n                    Some(_) => msr_t0_opt.clone(),\n                    None => None,\n                };")], r'''
use nyx_space::od::prelude::*;
use nyx_space::od::groundpnt::*;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::msr::MeasurementType as T;
use nyx_space::md::trajectory::Traj;
fn main() {
    let a = alm();
    let f = a.frame_info(IAU_EARTH_FRAME).unwrap();
    let g = GroundAsset::from_fixed(10.0, 20.0, 0.0, e0(), f);
    let mut tr = Traj::<GroundAsset>::new();
    let mut veh = Traj::<Spacecraft>::new();
    let u = g.orbit().radius_km;
    for i in 0..2 {
        let t = e0() + (i as f64) * 1.minutes();
        let mut x = g; x.epoch = t; tr.states.push(x);
        let r = u * (1.2 + 0.1 * i as f64);
        veh.states.push(Spacecraft::from(Orbit::new(r.x, r.y, r.z, 0.0, 0.0, 0.0, t, f)));
    }
    let mut l = InterlinkTxSpacecraft { traj: veh, measurement_types: [T::Range].into_iter().collect(), integration_time: Some(1.minutes()), timestamp_noise_s: None, stochastic_noises: None, ab_corr: None };
    let m = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure(&mut l, e0() + 1.minutes(), &tr, None, &a).unwrap().unwrap();
    need((m.data[&T::Range] - 0.25 * u.norm()).abs() < 1.0, "not the mean of both ends");
}''', "a measurement with an integration time while the range changes", "the integrated measurement is the value at its end instead of the mean of both ends", pre=ALM)
DEV = r'''
use nyx_space::dynamics::*; use nyx_space::propagators::*; use nyx_space::linalg::*; use nyx_space::linalg::allocator::Allocator;
use nyx_space::io::ConfigRepr; use nyx_space::md::trajectory::Traj; use nyx_space::od::prelude::*; use nyx_space::od::msr::MeasurementType as T;
use nyx_space::od::msr::measurement::Measurement; use nyx_space::od::msr::TrackingDataArc; use nyx_space::od::msr::sensitivity::TrackerSensitivity; use nyx_space::od::*; use nyx_space::State;
use indexmap::IndexSet; use std::collections::BTreeMap; use rand_pcg::Pcg64Mcg;
/// measures x as range and y as Doppler
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
struct G { #[serde(skip)] t: IndexSet<T>, var: f64 }
fn val(t: T, s: &Spacecraft) -> f64 { if t == T::Range { s.orbit.radius_km.x } else if t == T::Doppler { s.orbit.radius_km.y } else { s.orbit.radius_km.z } }
fn gauge(t: &[T], var: f64) -> G { G { t: t.iter().copied().collect(), var } }
impl ConfigRepr for G {}
impl TrackingDevice<Spacecraft> for G {
    fn name(&self) -> String { "g".to_string() }
    fn measurement_types(&self) -> &IndexSet<T> { &self.t }
    fn measure(&mut self, e: Epoch, tr: &Traj<Spacecraft>, r: Option<&mut Pcg64Mcg>, a: &Almanac) -> Result<Option<Measurement>, ODError> { self.measure_instantaneous(tr.at(e).unwrap(), r, a) }
    fn location(&self, _: Epoch, _: Frame, _: &Almanac) -> anise::errors::AlmanacResult<Orbit> { unreachable!() }
    fn measure_instantaneous(&mut self, s: Spacecraft, _: Option<&mut Pcg64Mcg>, _: &Almanac) -> Result<Option<Measurement>, ODError> {
        let mut m = Measurement::new("g".to_string(), s.epoch());
        for t in &self.t { m.push(*t, val(*t, &s)); }
        Ok(Some(m))
    }
    fn measurement_covar(&self, _: T, _: Epoch) -> Result<f64, ODError> { Ok(self.var) }
    fn measurement_bias(&self, _: T, _: Epoch) -> Result<f64, ODError> { Ok(0.0) }
}
impl TrackerSensitivity<Spacecraft, Spacecraft> for G {
    fn h_tilde<M: DimName>(&self, _: &Measurement, ty: &IndexSet<T>, _: &Spacecraft, _: &Almanac) -> Result<OMatrix<f64, M, Const<9>>, ODError> where DefaultAllocator: Allocator<M> + Allocator<M, Const<9>> {
        let mut m = OMatrix::<f64, M, Const<9>>::zeros();
        for (i, t) in ty.iter().enumerate() { m[(i, if *t == T::Range { 0 } else if *t == T::Doppler { 1 } else { 2 })] = 1.0; }
        Ok(m)
    }
}
fn setup(step: f64) -> Propagator<SpacecraftDynamics> { Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorOptions::with_fixed_step(step.seconds())) }
fn truth(t: f64) -> Spacecraft { let s = Spacecraft::from(orbit()); if t == 0.0 { s } else { setup(10.0).with(s, Arc::new(Almanac::default())).quiet().for_duration(t.seconds()).unwrap() } }
fn arc(m: Vec<Measurement>) -> TrackingDataArc { TrackingDataArc { measurements: m, source: None, moduli: None, force_reject: false } }
fn process(g: G) -> nyx_space::od::process::KalmanODProcess<SpacecraftDynamics, U1, Const<3>, G> { nyx_space::od::process::KalmanODProcess::new(setup(60.0), KalmanVariant::ReferenceUpdate, None, BTreeMap::from([("g".to_string(), g)]), Arc::new(Almanac::default())) }
fn start(dx: f64) -> KfEstimate<Spacecraft> {
    let mut s = Spacecraft::from(orbit()); s.orbit.radius_km.x += dx; s.orbit.radius_km.y -= dx;
    let mut d = OVector::<f64, Const<9>>::zeros(); for i in 0..6 { d[i] = if i < 3 { 100.0 } else { 1e-6 }; }
    let mut p = OMatrix::<f64, Const<9>, Const<9>>::from_diagonal(&d); p[(0, 1)] = -80.0; p[(1, 0)] = -80.0;
    KfEstimate::from_covar(s, p)
}
'''
mk("s15-manual-reject", "C15", [("od/process/mod.rs", "                        od_sol.push_time_update(est);\n                        prop_instance.state.reset_stm();\n                        msr_rejected_cnt += 1;", "                        od_sol.push_time_update(est);\n                        msr_rejected_cnt += 1;")], DEV + r'''
fn main() {
    let mk = |n: &[f64]| { let mut m = vec![]; for t in n { let s = truth(*t); let mut q = Measurement::new("g".to_string(), s.epoch()); q.push(T::Range, val(T::Range, &s)); m.push(q); } m };
    let mut a = mk(&[60.0, 120.0, 180.0]);
    a[1].rejected = true;
    let p = process(gauge(&[T::Range], 1e-2));
    let x = p.process_arc(start(1.0), &arc(a)).unwrap();
    let y = p.process_arc(start(1.0), &arc(mk(&[60.0, 180.0]))).unwrap();
    let (x, y) = (x.estimates.last().unwrap(), y.estimates.last().unwrap());
    let d = (x.covar - y.covar).norm() / y.covar.norm();
    println!("{d}");
    need(d < 1e-9, "a rejected measurement changes the covariance");
}''', "a measurement rejected by hand between two others", "the transition matrix to the rejected measurement is applied twice to the covariance")
mk("s15-ambiguity", "C15", [("od/process/mod.rs", "let k = computed_obs[i].div_euclid(*modulus);", "let k = (computed_obs[i] / *modulus).trunc();")], DEV + r'''
fn main() {
    let mut m = vec![];
    for t in [60.0, 120.0] { let s = truth(t); let mut q = Measurement::new("g".to_string(), s.epoch()); q.push(T::Azimuth, val(T::Azimuth, &s).rem_euclid(100.0)); m.push(q); }
    let mut a = arc(m);
    a.moduli = Some([(T::Azimuth, 100.0)].into_iter().collect());
    let sol = process(gauge(&[T::Azimuth], 1e-6)).process_arc(start(0.0), &a).unwrap();
    for r in sol.residuals.iter().flatten() { need(r.prefit[0].abs() < 1e-3, "residual of a resolved ambiguity"); }
}''', "an ambiguous measurement whose expected value is negative", "the ambiguity is resolved to the wrong cycle")
BL = DEV + r'''
use nyx_space::od::blse::*;
fn bl(step: f64) -> BatchLeastSquares<SpacecraftDynamics, G> {
    BatchLeastSquares::builder().prop(setup(step)).devices(BTreeMap::from([("g".to_string(), gauge(&[T::Range, T::Doppler, T::Azimuth], 1e-6))])).max_step(step.seconds()).almanac(Arc::new(Almanac::default())).build()
}
fn data() -> TrackingDataArc {
    let mut m = vec![];
    for i in 1..20 { let s = truth(100.0 * i as f64); let mut q = Measurement::new("g".to_string(), s.epoch()); for ty in [T::Range, T::Doppler, T::Azimuth] { q.push(ty, val(ty, &s)); } m.push(q); }
    arc(m)
}
fn guess() -> Spacecraft { let mut s = truth(0.0); s.orbit.radius_km.x += 1.0; s.orbit.velocity_km_s.y -= 1e-3; s }
'''
mk("s16-stm-order", "C16", [("od/blse/mod.rs", "stm = step_stm * stm;", "stm *= step_stm;")], BL + r'''
fn main() {
    let s = bl(50.0).estimate(guess(), &data()).unwrap();
    println!("{}", s.num_iterations);
    let c = bl(100.0).estimate(guess(), &data()).unwrap().covariance;
    for i in 0..6 { need((s.covariance[(i, i)] / c[(i, i)] - 1.0).abs() < 1e-3, "covariance depends on the step"); }
    need(s.converged && s.num_iterations <= 4, "slow convergence");
}''', "measurements more than one step after the initial epoch, with dynamics whose transition matrices do not commute", "the data is mapped to the initial epoch with the wrong transition matrix: slow or no convergence, wrong covariance")
mk("s16-covariance", "C16", [("od/blse/mod.rs", "                                let y = d_inv * u_inv;\n                                u_inv.transpose() * y", "                                let y = d_inv * u_inv.transpose();\n                                u_inv * y")], BL + r'''
fn main() {
    let a = data();
    let s = bl(50.0).estimate(guess(), &a).unwrap();
    // information of the data by finite differences
    let mut info = OMatrix::<f64, Const<6>, Const<6>>::identity();
    for q in &a.measurements {
        let t = (q.epoch - truth(0.0).epoch()).to_seconds();
        let go = |o: Orbit| setup(10.0).with(Spacecraft::from(o), Arc::new(Almanac::default())).quiet().for_duration(t.seconds()).unwrap().orbit.radius_km;
        let mut h = OMatrix::<f64, Const<3>, Const<6>>::zeros();
        for i in 0..6 {
            let mut d = [0.0; 6]; d[i] = if i < 3 { 0.1 } else { 1e-4 };
            let o = orbit();
            let f = |k: f64| { let mut p = o; for j in 0..3 { p.radius_km[j] += k * d[j]; p.velocity_km_s[j] += k * d[j + 3]; } go(p) };
            let c = (f(1.0) - f(-1.0)) / (2.0 * d[i]);
            for r in 0..3 { h[(r, i)] = c[r]; }
        }
        info += h.transpose() * h / 1e-6;
    }
    let p = s.covariance.fixed_view::<6, 6>(0, 0) * info;
    println!("{p:.4}");
    for i in 0..6 { need((p[(i, i)] - 1.0).abs() < 0.05, "covariance is not the inverse of the information"); }
}''', "an information matrix that is not diagonal", "the covariance of the solution is that of another factorisation: wrong correlations and sigmas")

mk("s17-shadow-first", "C17", [("cosmic/eclipse.rs", "            if this_state.percentage > state.percentage {\n                state = this_state;\n            }", "            if this_state.percentage > 0.0 {\n                state = this_state;\n                break;\n            }")], r'''
use nyx_space::cosmic::eclipse::ShadowModel;
fn main() {
    let mut a = alm();
    // the Moon between Sun and Earth, the Earth covering a part of the Sun
    a.spk_data.insert("v".to_string(), spk(&[body(399, 0, [0.0; 3], [0.0; 3]), body(301, 0, [-50000.0, 6500.0, 0.0], [0.0; 3]), body(10, 0, [-1.5e8, 0.0, 0.0], [0.0; 3])]));
    let o = Orbit::new(10000.0, 6360.0, 0.0, 0.0, 1.0, 0.0, e0(), earth());
    let m = ShadowModel::cislunar(&a);
    let p: Vec<f64> = m.shadow_bodies.iter().map(|b| a.solar_eclipsing(*b, o, None).unwrap().percentage).collect();
    println!("{p:?} {}", m.compute(o, &a).unwrap().percentage);
    need(p[0] > 1.0 && p[1] > p[0] + 1.0, "setup");
    need(m.compute(o, &a).unwrap().percentage >= p[1] - 1e-9, "the body that covers most decides");
}''', "two bodies in front of the Sun at once, the first listed covering less", "the spacecraft is lit although another body covers the Sun", pre=ALM)
mk("s17-sectorial", "C17", [("dynamics/gravity_field.rs", "        for i in 0..=max_degree + 1 {\n            a_nm[(i, i)] = self.a_nm_h[(i, i)];", "        for i in 0..=max_degree {\n            a_nm[(i, i)] = self.a_nm_h[(i, i)];")], r'''
use nyx_space::dynamics::*; use nyx_space::io::gravity::GravityFieldData; use std::io::Write;
fn main() {
    let a = alm();
    let f = a.frame_info(IAU_EARTH_FRAME).unwrap();
    let p = std::env::temp_dir().join(format!("vp-field-{}", std::process::id()));
    std::fs::File::create(&p).unwrap().write_all(b"header\n1 0 0 0\n1 1 0 0\n2 0 -1e-4 0\n2 1 0 0\n2 2 3e-4 -2e-4\n").unwrap();
    let g = GravityField::new(GravityFieldData::from_shadr(p.to_str().unwrap(), 2, 2, false, f).unwrap());
    std::fs::remove_file(&p).unwrap();
    let o = orbit();
    let e = g.eom(&o, &a).unwrap();
    let (x, m) = g.gradient(&o, &a).unwrap();
    need((x - e).norm() < 1e-15, "acceleration with and without partials");
    for j in 0..3 {
        let d = |h: f64| { let mut q = o; q.radius_km[j] += h; g.eom(&q, &a).unwrap() };
        let n = (d(1.0) - d(-1.0)) / 2.0;
        for i in 0..3 { need((n[i] - m[(i, j)]).abs() < 1e-14, "partials"); }
    }
}''', "the partials of a gravity field whose last sectorial term (degree = order) is not zero", "acceleration and transition matrix with the STM enabled lack the radial part of the sectorial term of the highest degree", pre=ALM)
mk("s17-tide-degree", "C17", [("dynamics/solid_tides.rs", "            let common = kn / (2.0 * n as f64 + 1.0) * gm_ratio * r_ratio.powi(n as i32 + 1);", "            let common = kn / (2.0 * m as f64 + 1.0) * gm_ratio * r_ratio.powi(n as i32 + 1);")], r'''
use nyx_space::dynamics::*;
fn main() {
    let a = alm();
    let t = |k2: f64, k3: f64, d: bool| SolidTides { frame: a.frame_info(IAU_EARTH_FRAME).unwrap(), k2, k3, perturbers: vec![TidalPerturber { frame: a.frame_info(MOON_J2000).unwrap(), compute_degree_3: d }] };
    let o = orbit();
    // enabling degree 3 with a null Love number changes nothing
    let x = t(0.3, 0.0, false).eom(&o, &a).unwrap();
    let y = t(0.3, 0.0, true).eom(&o, &a).unwrap();
    need((x - y).norm() < 1e-12 * x.norm(), "degree 2 depends on whether degree 3 is computed");
}''', "a perturber with degree 3 enabled", "the degree 2 tide is scaled by 5/7 when degree 3 is computed as well", pre=ALM)

SIM = DEV.replace('self.measure_instantaneous(tr.at(e).unwrap(), r, a) }', '{ if self.var < 0.0 && e > tr.first().epoch() + 100.seconds() && e < tr.first().epoch() + 300.seconds() { return Err(ODError::NoiseNotConfigured { kind: "x".to_string() }); } let mut m = self.measure_instantaneous(tr.at(e).unwrap(), None, a)?; m.as_mut().unwrap().data.insert(T::Doppler, rand::RngExt::random::<u32>(r.unwrap()) as f64); Ok(m) } }') + r'''
use nyx_space::od::simulator::*;
fn path() -> Traj<Spacecraft> { setup(10.0).with(Spacecraft::from(orbit()), Arc::new(Almanac::default())).quiet().for_duration_with_traj(3000.seconds()).unwrap().1 }
fn sim(s: &[(i64, i64)], var: f64) -> TrackingDataArc {
    let e = Spacecraft::from(orbit()).epoch();
    let c = TrkConfig { scheduler: None, sampling: 30.seconds(), strands: Some(s.iter().map(|x| Strand::new(e + x.0.seconds(), e + x.1.seconds())).collect()) };
    TrackingArcSim::with_seed(BTreeMap::from([("g".to_string(), gauge(&[T::Range], var))]), path(), BTreeMap::from([("g".to_string(), c)]), 3).unwrap().generate_measurements(&Almanac::default()).unwrap()
}
'''
mk("s18-failed-strand", "C18", [("od/simulator/arc.rs", "                                        continue 'strands;", "                                        break 'strands;")], SIM + r'''
fn main() {
    need(sim(&[(0, 60), (600, 660)], 1.0).len() == 6, "setup");
    need(sim(&[(0, 60), (90, 150), (600, 660)], -1.0).len() == 7, "the strands after a failed one are lost");
}''', "a device that fails within one of several strands", "the strands after the one in which a device failed produce no measurement")
mk("s18-noise-restart", "C18", [("od/simulator/arc.rs", "                                    Some(&mut self.rng),\n", "                                    Some(&mut self.rng.clone()),\n")], SIM + r'''
fn main() {
    let m = sim(&[(0, 300)], 1.0).measurements;
    for i in 1..m.len() { need(m[i].data[&T::Doppler] != m[0].data[&T::Doppler], "every sample has the same noise"); }
}''', "a device with noise, more than one sample", "every sample is given the same random numbers: the noise is a constant bias")
mk("s18-off-time", "C18", [("od/simulator/arc.rs", "prev_strand.end + off > strand_range.start\n                        {", "prev_strand.start + off > strand_range.start\n                        {")], SIM + r'''
use anise::constants::frames::IAU_EARTH_FRAME;
fn main() {
    let a = alm();
    let o = Orbit::keplerian(12000.0, 0.001, 30.0, 10.0, 10.0, 10.0, e0(), earth());
    let (_, t) = setup(60.0).with(Spacecraft::from(o), Arc::new(a.clone())).quiet().for_duration_with_traj(2.days()).unwrap();
    let go = |off: Duration| {
        let s = Scheduler { handoff: Handoff::Overlap, cadence: Cadence::Intermittent { on: 1.hours(), off }, min_samples: 5, sample_alignment: None };
        let sim = TrackingArcSim::with_seed(BTreeMap::from([("s".to_string(), GroundStation::from_point("s".to_string(), 10.0, 40.0, 0.0, IAU_EARTH_FRAME))]), t.clone(), BTreeMap::from([("s".to_string(), TrkConfig { scheduler: Some(s), sampling: 60.seconds(), strands: None })]), 3).unwrap();
        sim.generate_schedule(&a).unwrap()["s"].strands.clone().unwrap()
    };
    let s = go(0.hours());
    println!("{s:?}");
    need(s.len() >= 2, "setup");
    let off = (s[1].start - s[0].end) + 10.minutes();
    let s = go(off);
    println!("{s:?}");
    for w in s.windows(2) { need(w[1].start - w[0].end >= off, "the station tracks again too soon"); }
}''', "an intermittent cadence whose off time falls between the gap of two passes and that gap plus a pass", "a station starts tracking again before its off time has passed", pre=ALM)

LAM = r'''
use nyx_space::tools::lambert::*; use nyx_space::linalg::Vector3; use nyx_space::dynamics::*; use nyx_space::propagators::*;
fn miss(a: Vector3<f64>, b: Vector3<f64>, t: f64, k: TransferKind, goo: bool) -> f64 {
    let at = |r: Vector3<f64>, e: Epoch| Orbit::new(r.x, r.y, r.z, 0.0, 0.0, 0.0, e, earth());
    let i = LambertInput::from_planetary_states(at(a, e0()), at(b, e0() + t.seconds())).unwrap();
    let s = if goo { gooding(i, k) } else { izzo(i, k) }.unwrap();
    let p = Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorOptions::with_tolerance(1e-12));
    let f = p.with(Spacecraft::from(s.transfer_orbit()), Arc::new(Almanac::default())).quiet().for_duration(t.seconds()).unwrap();
    println!("{} {}", (f.orbit.radius_km - b).norm(), (f.orbit.velocity_km_s - s.v_final_km_s).norm());
    (f.orbit.radius_km - b).norm() + 1000.0 * (f.orbit.velocity_km_s - s.v_final_km_s).norm()
}
'''
mk("s19-parabolic", "C19", [("tools/lambert/izzo.rs", "(eta.powi(3) * q + 4.0 * ll * eta) * 0.5", "(eta.powi(3) * q + 4.0 * ll.abs() * eta) * 0.5")], LAM + r'''
fn main() {
    let (a, b) = (Vector3::new(8000.0, 0.0, 0.0), Vector3::new(0.0, 9000.0, 500.0));
    need(miss(a, b, 3000.0, TransferKind::ShortWay, false) < 1.0, "setup");
    for t in [1500.0, 2000.0, 2500.0, 3000.0, 3500.0] { need(miss(a, b, t, TransferKind::LongWay, false) < 1.0, "the long way misses the target"); }
}''', "a nearly parabolic transfer the long way around (elsewhere another formula is used)", "the velocities of a nearly parabolic long-way transfer do not lead to the target")
mk("s19-series", "C19", [("tools/lambert/godding.rs", "c3 = (sqrt_phi.sinh() - sqrt_phi) / (-phi).powi(3).sqrt();", "c3 = (sqrt_phi.sinh() - sqrt_phi) / phi.powi(3).abs();")], LAM + r'''
fn main() {
    let (a, b) = (Vector3::new(8000.0, 0.0, 0.0), Vector3::new(0.0, 9000.0, 500.0));
    need(miss(a, b, 3000.0, TransferKind::ShortWay, true) < 1.0, "setup");
    need(miss(a, b, 900.0, TransferKind::ShortWay, true) < 1.0, "a hyperbolic transfer misses the target");
}''', "a transfer fast enough to be hyperbolic", "the velocities of a hyperbolic transfer do not lead to the target")

TGT = r'''
use nyx_space::dynamics::*; use nyx_space::propagators::*; use nyx_space::md::*; use nyx_space::md::objective::Objective; use nyx_space::md::targeter::Targeter; use anise::analysis::prelude::OrbitalElement as Oe;
fn p() -> Propagator<SpacecraftDynamics> { Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorOptions::with_tolerance(1e-12)) }
fn obj(e: Oe, x: f64, tol: f64) -> Objective { Objective::within_tolerance(StateParameter::Element(e), x, tol) }
fn fly(s: Spacecraft, t: f64) -> Spacecraft { p().with(s, Arc::new(Almanac::default())).quiet().until_epoch(e0() + t.seconds()).unwrap() }
fn a() -> Arc<Almanac> { Arc::new(Almanac::default()) }
'''
mk("s20-corrected-z", "C20", [("md/opti/raphson_hyperdual.rs", "                        Vary::PositionZ => state.orbit.radius_km.z += total_correction[i],", "                        Vary::PositionZ => state.orbit.radius_km.z = total_correction[i],")], TGT + r'''
fn main() {
    let sc = Spacecraft::from(orbit());
    let p = p();
    let go = |v: Vary, e: Oe| { let t = Targeter { prop: &p, objectives: [obj(e, fly(sc, 600.0).value(StateParameter::Element(e)).unwrap() + 3.0, 1e-4)], objective_frame: None, variables: [Variable { component: v, max_step: 10.0, min_value: -50.0, max_value: 50.0, ..Default::default() }], correction_frame: None, iterations: 20 }; let s = t.try_achieve_dual(sc, e0(), e0() + 600.seconds(), a()).unwrap(); (fly(s.corrected_state, 600.0).orbit.radius_km - s.achieved_state.orbit.radius_km).norm() };
    need(go(Vary::PositionX, Oe::X) < 1e-6, "setup");
    need(go(Vary::PositionZ, Oe::Z) < 1e-6, "the corrected state does not lead to the achieved one");
}''', "a z position correction with partial derivatives, from a state with z different from zero", "the corrected state in the solution has the correction itself as its z position")
mk("s20-step-sign", "C20", [("md/opti/raphson_hyperdual.rs", "                    delta[i] = var.max_step * delta[i].signum();", "                    delta[i] = var.max_step;")], TGT + r'''
fn main() {
    let sc = Spacecraft::from(orbit());
    let p = p();
    let go = |d: f64| { let t = Targeter { prop: &p, objectives: [obj(Oe::X, fly(sc, 600.0).orbit.radius_km.x + d, 1e-4)], objective_frame: None, variables: [Variable { component: Vary::VelocityX, max_step: 0.02, min_value: -0.5, max_value: 0.5, ..Default::default() }], correction_frame: None, iterations: 30 }; t.try_achieve_dual(sc, e0(), e0() + 600.seconds(), a()).is_ok() };
    need(go(40.0), "setup");
    need(go(-40.0), "a target that needs a negative correction larger than a step is not reached");
}''', "a negative correction larger than the maximum step", "corrections larger than the maximum step are always positive: targets that need a large negative correction are not reached")
mk("s20-tolerance", "C20", [("md/objective.rs", "(param_err.abs() <= self.tolerance, param_err)", "(param_err <= self.tolerance, param_err)")], TGT + r'''
fn main() {
    let sc = Spacecraft::from(orbit());
    let p = p();
    let go = |d: f64| { let x = fly(sc, 600.0).orbit.radius_km.x + d; let t = Targeter { prop: &p, objectives: [obj(Oe::X, x, 1e-3)], objective_frame: None, variables: [Variable { component: Vary::VelocityX, max_step: 0.1, min_value: -0.5, max_value: 0.5, ..Default::default() }], correction_frame: None, iterations: 30 }; let s = t.try_achieve_fd(sc, e0(), e0() + 600.seconds(), a()).unwrap(); (fly(s.corrected_state, 600.0).orbit.radius_km.x - x).abs() };
    need(go(10.0) < 2e-3, "setup");
    need(go(-10.0) < 2e-3, "the solution misses the objective");
}''', "an objective the initial guess overshoots", "a trajectory above the desired value is declared a solution")

SEQ = r'''
use nyx_space::dynamics::sequence::*; use nyx_space::dynamics::guidance::*; use nyx_space::propagators::*; use nyx_space::dynamics::*; use anise::structure::spacecraft::{DragData, Mass, SRPData}; use nyx_space::linalg::Vector3;
fn cfg(m: IntegratorMethod) -> PropagatorConfig { PropagatorConfig { dynamics: nyx_space::dynamics::sequence::Dynamics { accel_models: AccelModels::default(), force_models: ForceModels::default() }, method: m, options: IntegratorOptions::with_fixed_step(60.seconds()) } }
fn act(n: &str, g: Option<GuidanceConfig>, on: Option<DiscreteEvent>) -> Phase { Phase::Activity { name: n.to_string(), propagator: "p".to_string(), guidance: g.map(Box::new), on_entry: on.map(Box::new), disabled: false } }
fn seq(m: IntegratorMethod, ph: Vec<(f64, Phase)>) -> SpacecraftSequence {
    let mut q = SpacecraftSequence::default();
    q.propagators.insert("p".to_string(), cfg(m));
    q.thruster_sets.insert("t".to_string(), Thruster { thrust_N: 1.0, isp_s: 300.0 });
    for (t, p) in ph { q.seq.insert(e0() + t.seconds(), p); }
    q.setup(Arc::new(Almanac::default())).unwrap();
    q
}
fn sc() -> Spacecraft { let mut s = Spacecraft::new(orbit(), 100.0, 50.0, 1.0, 1.0, 1.0, 1.0); s.mass.extra_mass_kg = 10.0; s }
'''
mk("s21-keep-propellant", "C21", [("dynamics/sequence/mod.rs", "setup.dynamics.decrement_mass = !guid_cfg.disable_prop_mass;", "setup.dynamics.decrement_mass |= !guid_cfg.disable_prop_mass;")], SEQ + r'''
fn main() {
    let burn = |off: bool| GuidanceConfig { thruster_model: "t".to_string(), disable_prop_mass: off, law: SteeringLaw::FiniteBurn(mnvr::Maneuver::from_time_invariant(e0() + 600.seconds(), e0() + 1200.seconds(), 1.0, Vector3::new(1.0, 0.0, 0.0), LocalFrame::RCN)) };
    let go = |off: bool| { let t = seq(IntegratorMethod::RungeKutta4, vec![(0.0, act("a", None, None)), (600.0, act("b", Some(burn(off)), None)), (1200.0, Phase::Terminate)]).propagate(sc(), None, Arc::new(Almanac::default())).unwrap(); t[1].last().mass.prop_mass_kg };
    need(go(false) < 50.0, "setup");
    need(go(true) == 50.0, "propellant is used");
}''', "a thrusting phase with propellant usage disabled", "propellant is used in a phase that disables its usage")
mk("s21-docked-coefficient", "C21", [("dynamics/sequence/mod.rs", "                                            state.drag.coeff_drag += drag.coeff_drag;", "                                            state.drag.coeff_drag = drag.coeff_drag;")], SEQ + r'''
fn main() {
    let pp = PhysicalProperties { mass: Some(Mass { dry_mass_kg: 1.0, prop_mass_kg: 2.0, extra_mass_kg: 3.0 }), srp: None, drag: Some(DragData { area_m2: 1.0, coeff_drag: 0.5 }) };
    let t = seq(IntegratorMethod::RungeKutta4, vec![(0.0, act("a", None, None)), (600.0, act("b", None, Some(DiscreteEvent::Docking { impulsive_maneuver: None, increment_properties: Some(pp) }))), (1200.0, Phase::Terminate)]).propagate(sc(), None, Arc::new(Almanac::default())).unwrap();
    let s = t[1].first();
    need(s.mass.dry_mass_kg == 101.0 && s.mass.prop_mass_kg == 52.0 && s.mass.extra_mass_kg == 13.0 && s.drag.area_m2 == 2.0, "setup");
    need(s.drag.coeff_drag == 1.5, "the drag coefficient is not incremented");
}''', "docking which increments the drag coefficient", "the drag coefficient after docking is the increment")
mk("s21-stale-law", "C21", [("dynamics/sequence/mod.rs", "                                        init_state: state,\n", "                                        init_state: trajs.last().map_or(state, |t: &Trajectory| *t.first()),\n")], SEQ + r'''
use nyx_space::md::*; use nyx_space::md::objective::Objective; use anise::analysis::prelude::OrbitalElement as Oe;
fn main() {
    // raise the semi-major axis with an efficiency threshold: it depends on the orbit at the start of the phase
    let go = |n: f64| {
        let rug = GuidanceConfig { thruster_model: "t".to_string(), disable_prop_mass: false, law: SteeringLaw::Ruggiero { objectives: vec![ObjectiveEfficiency { objective: Objective::within_tolerance(StateParameter::Element(Oe::Eccentricity), 0.3, 1e-4), efficiency: 0.0 }, ObjectiveEfficiency { objective: Objective::within_tolerance(StateParameter::Element(Oe::SemiMajorAxis), 9000.0, 1.0), efficiency: 0.0 }], max_eclipse_prct: None } };
        let dv = DiscreteEvent::Staging { impulsive_maneuver: Some(mnvr::ImpulsiveManeuver { local_frame: LocalFrame::VNC, dv_km_s: Vector3::new(0.5, 0.0, 0.0) }), decrement_properties: None };
        let mut s = sc();
        let mut ph = vec![(600.0, act("b", Some(rug), Some(dv))), (3600.0, Phase::Terminate)];
        if n > 0.0 { ph.push((0.0, act("a", None, None))); } else { s = *seq(IntegratorMethod::RungeKutta4, vec![(0.0, act("a", None, None)), (600.0, Phase::Terminate)]).propagate(s, None, Arc::new(Almanac::default())).unwrap()[0].last(); }
        let t = seq(IntegratorMethod::RungeKutta4, ph).propagate(s, None, Arc::new(Almanac::default())).unwrap();
        *t.last().unwrap().last()
    };
    let (x, y) = (go(0.0), go(1.0));
    println!("{} {}", x.orbit, y.orbit);
    need((x.orbit.radius_km - y.orbit.radius_km).norm() < 1e-6, "a guided phase depends on the phase before it");
}''', "a Ruggiero phase after another phase, with an orbit change on entry", "the steering law weighs its objectives with the orbit at the start of the previous phase")

MC = r'''
use nyx_space::mc::*; use nyx_space::md::*; use nyx_space::dynamics::*; use nyx_space::propagators::*; use anise::analysis::prelude::OrbitalElement as Oe; use anise::analysis::prelude::*;
fn prop() -> Propagator<SpacecraftDynamics> { Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorOptions::with_fixed_step(60.seconds())) }
const X: StateParameter = StateParameter::Element(Oe::X);
fn mc() -> MonteCarlo<Spacecraft, MvnSpacecraft> { MonteCarlo::new(Spacecraft::from(orbit()), MvnSpacecraft::new(Spacecraft::from(orbit()), vec![StateDispersion::zero_mean(X, 5.0), StateDispersion::zero_mean(StateParameter::Element(Oe::VY), 0.01)]).unwrap(), "s".to_string(), Some(7)) }
macro_rules! run { ($n:expr) => { mc().run_until_epoch(prop(), Arc::new(Almanac::default()), e0() + 600.seconds(), $n) } }
'''
mk("s22-order", "C22", [("mc/montecarlo.rs", "        let mut runs = rx.iter().collect::<Vec<Run<S, PropResult<S>>>>();\n        runs.par_sort_by_key(|run| run.index);", "        let mut runs = rx.iter().collect::<Vec<Run<S, PropResult<S>>>>();\n        runs.par_sort_by_key(|run| run.dispersed_state.state.epoch());")], MC + r'''
fn main() {
    for _ in 0..20 { let r = run!(200); for (i, x) in r.runs.iter().enumerate() { need(x.index == i, "the runs are not in order"); } }
}''', "runs that end in another order than they start in (more than one thread)", "the runs are in the order in which the threads finished, not in that of the generated states")
mk("s22-replacement", "C22", [("mc/results.rs", """                            Err(e) => match value_if_run_failed {
                                Some(val) => report.push(val),
                                None => {
                                    warn!(""", """                            Err(e) => match value_if_run_failed {
                                Some(_) => {}
                                None => {
                                    warn!(""")], MC + r'''
fn main() {
    let r = run!(3);
    let n = r.every_value_of(X, 60.seconds(), None).len();
    need(n == 33, "setup");
    need(r.every_value_of(StateParameter::Thrust(), 60.seconds(), Some(-1.0)) == vec![-1.0; 33], "the replacement value is not reported");
}''', "a parameter which the states do not have, every_value_of over the whole trajectory, a replacement value", "states without the parameter are left out although a replacement value is given")
mk("s22-dispersion", "C22", [("mc/results.rs", "                    report.push(*val);\n                    continue 'run_loop;", "                    report.push(*val - run.dispersed_state.actual_dispersions[0].1 + *val);\n                    continue 'run_loop;")], MC + r'''
fn main() {
    let r = run!(3);
    let x = r.dispersion_values_of(X).unwrap();
    let y = r.dispersion_values_of(StateParameter::Element(Oe::VY)).unwrap();
    for i in 0..3 { let d = r.runs[i].dispersed_state.state.orbit; need((d.radius_km.x - orbit().radius_km.x - x[i]).abs() < 1e-9, "setup"); need((d.velocity_km_s.y - orbit().velocity_km_s.y - y[i]).abs() < 1e-9, "the dispersions are not those of the states"); }
}''', "more than one dispersed parameter", "the dispersions of all but the first parameter are wrong")

mk("s23-angle-bound", "C23", [("utils.rs", "    let mut bounded = angle % (2.0 * x);\n", "    let mut bounded = if angle.abs() > 360.0 { angle % (2.0 * x) } else { angle };\n")], r'''
use nyx_space::utils::*;
fn main() {
    need(between_pm_180(270.0) == -90.0 && between_pm_180(750.0) == 30.0, "setup");
    for a in [-350.0, 300.0, 170.0, 95.0] { need(between_pm_x(a, 45.0).abs() <= 45.0, "the angle is out of its bounds"); }
}''', "bounds smaller than a third of a turn and an angle of less than a turn", "angles are wrapped once at most")
mk("s23-leading", "C23", [("polyfit/polynomial.rs", "for i in 0..=self.order() {", "for i in 0..self.order() {")], r'''
use nyx_space::polyfit::Polynomial as P;
fn main() {
    let mut p = P { coefficients: [1.0, 1e-4, 3.0, 1e-4] };
    p.zero_below_tolerance(1e-3);
    need(p.coefficients[..3] == [1.0, 0.0, 3.0], "setup");
    need(p.coefficients[3] == 0.0, "the leading coefficient is not removed");
}''', "a polynomial whose leading coefficient is below the tolerance", "the leading coefficient is kept")

mk("s24-no-constant", "C24", [("od/noise/gauss_markov.rs", "        if let Some(constant) = self.constant {\n            true.encode(encoder)?;", "        if let Some(constant) = self.constant.filter(|c| *c > 0.0) {\n            true.encode(encoder)?;"), ("od/noise/gauss_markov.rs", "            + if let Some(constant) = self.constant {", "            + if let Some(constant) = self.constant.filter(|c| *c > 0.0) {")], r'''
use der::{Decode, Encode};
use nyx_space::od::noise::GaussMarkov;
fn main() {
    for c in [Some(1.5), None, Some(-2.0)] {
        let mut g = GaussMarkov::new(1.hours(), 0.1).unwrap();
        g.constant = c;
        let mut buf = vec![];
        g.encode_to_vec(&mut buf).unwrap();
        need(GaussMarkov::from_der(&buf).unwrap() == g, "a bias does not survive its binary form");
    }
}''', "a Gauss-Markov bias with a constant that is not positive", "negative constant biases are lost in the binary form")
mk("s24-mode", "C24", [("cosmic/spacecraft.rs", "        self.mode.encode(encoder)?;\n        if let Some(thruster) = self.thruster {", "        self.mode().encode(encoder)?;\n        if let Some(thruster) = self.thruster.filter(|t| t.thrust_N > 0.0) {"), ("cosmic/spacecraft.rs", "            + self.thruster.encoded_len()?\n", "            + self.thruster.filter(|t| t.thrust_N > 0.0).encoded_len()?\n")], r'''
use der::{Decode, Encode};
use nyx_space::dynamics::guidance::Thruster;
fn main() {
    for f in [2.0, 0.0] {
        let mut s = Spacecraft::new(orbit(), 100.0, 50.0, 1.0, 1.0, 1.2, 2.2);
        s.thruster = Some(Thruster { thrust_N: f, isp_s: 300.0 });
        let mut buf = vec![];
        s.encode_to_vec(&mut buf).unwrap();
        need(Spacecraft::from_der(&buf).unwrap().thruster == s.thruster, "the thruster does not survive its binary form");
    }
}''', "a thruster without thrust", "the thruster is lost in the binary form")
mk("s24-flags", "C24", [("od/ground_station/mod.rs", "        stochastics_vec.encode(encoder)?;\n\n        Ok(())", "        if let Some(mut pairs) = stochastics_vec {\n            pairs.dedup_by_key(|pair| pair.noise);\n            pairs.encode(encoder)?;\n        }\n\n        Ok(())"), ("od/ground_station/mod.rs", "        let stochastics_vec = self.stochastic_noises.as_ref().map(|map| {\n            map.iter()\n                .map(|(k, v)| MsrNoisePair {\n                    msr_type: *k,\n                    noise: *v,\n                })\n                .collect::<Vec<MsrNoisePair>>()\n        });\n\n        self.name.encoded_len()?", "        let stochastics_vec = self.stochastic_noises.as_ref().map(|map| {\n            let mut pairs = map\n                .iter()\n                .map(|(k, v)| MsrNoisePair {\n                    msr_type: *k,\n                    noise: *v,\n                })\n                .collect::<Vec<MsrNoisePair>>();\n            pairs.dedup_by_key(|pair| pair.noise);\n            pairs\n        });\n\n        self.name.encoded_len()?")], r'''
use der::{Decode, Encode};
use anise::astro::Location;
use indexmap::{IndexMap, IndexSet};
use nyx_space::od::{GroundStation, msr::MeasurementType, noise::{StochasticNoise, WhiteNoise}};
fn main() {
    let n = |s: f64| StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: s }), bias: None };
    for d in [0.5, 1.0] {
        let mut m = IndexMap::new();
        m.insert(MeasurementType::Range, n(1.0)); m.insert(MeasurementType::Doppler, n(d));
        let g = GroundStation { name: "a".to_string(), location: Location { latitude_deg: 1.0, longitude_deg: 2.0, height_km: 0.1, frame: earth().into(), terrain_mask: vec![], terrain_mask_ignored: true }, measurement_types: IndexSet::new(), integration_time: None, light_time_correction: false, timestamp_noise_s: None, stochastic_noises: Some(m) };
        let mut buf = vec![];
        g.encode_to_vec(&mut buf).unwrap();
        need(GroundStation::from_der(&buf).unwrap().stochastic_noises.unwrap().len() == 2, "noises are lost in the binary form");
    }
}''', "two measurement types in a row with the same noise", "only the first of them keeps its noise in the binary form")
ST = r'''
use indexmap::IndexSet; use std::collections::BTreeMap;
use nyx_space::linalg::*; use nyx_space::md::trajectory::Traj; use nyx_space::od::*; use nyx_space::od::estimate::*; use nyx_space::od::process::*;
type Sol = ODSolution<Spacecraft, KfEstimate<Spacecraft>, U1, GroundStation>;
fn sc(t: f64) -> Spacecraft { let mut o = orbit(); o.epoch = e0() + t * Unit::Second; Spacecraft::new(o, 100.0, 50.0, 1.0, 1.0, 1.2, 2.2) }
fn sol(w: &[(f64, bool)]) -> Sol {
    let mut s: Sol = ODSolution::new(BTreeMap::new(), IndexSet::new());
    for (i, (x, rej)) in w.iter().enumerate() {
        let st = sc(10.0 * i as f64); let z = Vector1::new(0.0); let x = Vector1::new(*x);
        s.estimates.push(KfEstimate::from_covar(st, SMatrix::<f64, 9, 9>::identity()));
        s.residuals.push(Some(if *rej { Residual::rejected(st.orbit.epoch, x, x, 1.0, z, z, z) } else { Residual::accepted(st.orbit.epoch, x, x, x, 1.0, z, z, z) }));
        s.gains.push(None); s.filter_smoother_ratios.push(None);
    }
    s
}
'''
mk("s28-nis-count", "C28", [("od/process/solution/stats.rs", "        let k = (n * MsrSize::DIM) as f64;\n        if k < 35.0 {\n            warn!(\"NIS", "        let k = (self.residuals.iter().flatten().count() * MsrSize::DIM) as f64;\n        if k < 35.0 {\n            warn!(\"NIS")], ST + r'''
fn main() {
    need(sol(&[(1.0, false), (2.0, false)]).nis_consistency(None).unwrap().k == 2.0, "setup");
    need(sol(&[(1.0, false), (20.0, true), (2.0, false)]).nis_consistency(None).unwrap().k == 2.0, "rejected residuals count as degrees of freedom");
}''', "rejected residuals", "the degrees of freedom of the NIS test include the rejected residuals, which its sum leaves out")
mk("s28-level", "C28", [("od/process/solution/stats.rs", "        let c_alpha = (-(alpha * 0.5).ln() * 0.5).sqrt();", "        let c_alpha = (-(alpha.max(0.05) * 0.5).ln() * 0.5).sqrt();")], ST + r'''
fn main() {
    let w: Vec<_> = (0..20).map(|k| (if k % 2 == 0 { 1.0 } else { -1.0 }, false)).collect();
    let s = sol(&w);
    need(!s.is_normal(None).unwrap(), "setup");
    need(s.is_normal(Some(0.001)).unwrap(), "the level of significance is not used");
}''', "a level of significance below the default", "the normality test uses 5% where less is asked for")
mk("s28-first-truth", "C28", [("od/process/solution/stats.rs", "            // At this point, est_size is set and is valid\n            let true_est_size = est_size.unwrap();", "            // At this point, est_size is set and is valid\n            let true_est_size = est_size.unwrap().min(6);")], ST + r'''
fn main() {
    let mut s = sol(&[(1.0, false), (1.0, false)]);
    let mut t = Traj::new();
    for k in 0..4 { t.states.push(sc(10.0 * k as f64)); }
    s.estimates[1].state_deviation[0] = 0.5;
    need((s.nees_consistency(&t, None).unwrap().normalized_sum - 0.25).abs() < 1e-3, "setup");
    s.estimates[1].state_deviation[6] = 0.5;
    need((s.nees_consistency(&t, None).unwrap().normalized_sum - 0.5).abs() < 1e-3, "an estimated component does not count");
}''', "a filter which estimates more than position and velocity", "errors of the further components do not count in the NEES")
mk("s24-alignment", "C24", [("od/simulator/scheduler.rs", "            true.encode(encoder)?;\n            sa.total_nanoseconds().encode(encoder)?;", "            true.encode(encoder)?;\n            sa.round(Unit::Microsecond * 1).total_nanoseconds().encode(encoder)?;"), ("od/simulator/scheduler.rs", "            len = (len + sa.total_nanoseconds().encoded_len()?)?;", "            len = (len\n                + sa.round(Unit::Microsecond * 1)\n                    .total_nanoseconds()\n                    .encoded_len()?)?;")], r'''
use der::{Decode, Encode};
use nyx_space::od::simulator::*;
fn main() {
    for n in [1_000_000_000, 333_333_333] {
        let s = Scheduler { handoff: Handoff::Greedy, cadence: Cadence::Continuous, min_samples: 3, sample_alignment: Some(Duration::from_total_nanoseconds(n)) };
        let mut buf = vec![];
        s.encode_to_vec(&mut buf).unwrap();
        need(Scheduler::from_der(&buf).unwrap() == s, "the alignment does not survive its binary form");
    }
}''', "a sample alignment which is not a whole number of microseconds", "the alignment is rounded in the binary form")
mk("s09-frame-mode", "C09", [("md/trajectory/sc_traj.rs", "            traj.states.push(state.with_orbit(new_orbit));", "            traj.states.push(Spacecraft { mode: Default::default(), ..state.with_orbit(new_orbit) });")], r'''
use nyx_space::md::trajectory::Traj; use nyx_space::cosmic::GuidanceMode;
fn main() {
    let a = alm();
    let mut t = Traj::<Spacecraft>::new();
    for k in 0..3 { let mut o = orbit(); o.epoch = e0() + (k as f64) * Unit::Minute; let mut s = Spacecraft::new(o, 100.0, 50.0, 1.0, 1.0, 1.2, 2.2); s.mode = GuidanceMode::Thrust; t.states.push(s); }
    for s in t.to_frame(MOON_J2000, &a).unwrap().states { need(s.orbit.frame.ephemeris_id == 301, "setup"); need(s.mode == GuidanceMode::Thrust, "the guidance mode is lost"); }
}''', "a trajectory with thrusting states, converted to another frame", "the guidance mode of the states is reset by a change of frame", pre=ALM)
