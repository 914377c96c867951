use anise::almanac::Almanac;
use anise::analysis::prelude::OrbitalElement;
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME};
use anise::prelude::Frame;
use indexmap::IndexSet;
use nyx_space::State;
use nyx_space::cosmic::Orbit;
use nyx_space::dynamics::Dynamics;
use nyx_space::linalg::{Const, OVector, Vector3, Vector6};
use nyx_space::md::{StateParameter, Trajectory};
use nyx_space::md::prelude::{Interpolatable, Traj};
use nyx_space::od::groundpnt::ground_dynamics::GroundDynamics;
use nyx_space::od::groundpnt::{GroundAsset, latlongalt_rate, velocity_sez_from_latlongalt_rate};
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::{Measurement, MeasurementType};
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::TrackingDevice;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::Spacecraft;
use rand::RngExt;
use rand_distr::Normal;
use rand_pcg::Pcg64Mcg;
use std::sync::Arc;
use vpharness::sc::*;
use vpharness::*;

type T = MeasurementType;
fn rng() -> Pcg64Mcg { Pcg64Mcg::new(77) }
fn z(r: &mut Pcg64Mcg) -> f64 { r.sample(Normal::new(0.0, 1.0).unwrap()) }
fn al() -> Almanac { vpharness::alm::almanac_ell(&[vpharness::alm::body(399, 0, [0.0; 3], [0.0; 3])], &[(399, 398600.4418, 6378.0)], 0.99) }
fn fr(a: &Almanac) -> Frame { a.frame_info(IAU_EARTH_FRAME).unwrap() }
/// one of 5 places: latitude, longitude, height
fn place(i: u32) -> [f64; 3] { [[10.0, 20.0, 0.1], [-70.0, 200.0, 2.0], [45.0, 359.0, -0.5], [0.0, 90.0, 0.0], [88.0, 140.0, 5.0]][vp_fix_i64(vp_i64(i, 0, 4)) as usize] }
/// an asset at one of 5 places with any rates
fn asset(b: u32, t: i64, f: Frame) -> GroundAsset {
    let p = place(b);
    let mut g = GroundAsset::from_fixed(p[0], p[1], p[2], ep(t), f);
    g.latitude_rate_deg_s = v(b + 1, 1e-3);
    g.longitude_rate_deg_s = v(b + 2, 1e-3);
    g.height_rate_km_s = v(b + 3, 0.1);
    g
}
/// all components free
fn any(b: u32, t: i64, f: Frame) -> GroundAsset {
    let mut g = GroundAsset::from_fixed(v(b, 90.0), v(b + 1, 180.0), v(b + 2, 100.0), ep(t), f);
    g.latitude_rate_deg_s = v(b + 3, 1.0);
    g.longitude_rate_deg_s = v(b + 4, 1.0);
    g.height_rate_km_s = v(b + 5, 1.0);
    g
}
fn six(g: &GroundAsset) -> [f64; 6] { [g.latitude_deg, g.longitude_deg, g.height_km, g.latitude_rate_deg_s, g.longitude_rate_deg_s, g.height_rate_km_s] }
/// body-fixed position and velocity of a moving asset: written-out geodesy on the ellipsoid
fn fixed(g: &GroundAsset, f: f64) -> (Vector3<f64>, Vector3<f64>) {
    let (a, e2) = (6378.0, 1.0 - f * f);
    let (la, lo) = (g.latitude_deg.to_radians(), g.longitude_deg.to_radians());
    let w = (1.0 - e2 * la.sin() * la.sin()).sqrt();
    let (n, m) = (a / w, a * (1.0 - e2) / (w * w * w));
    let up = Vector3::new(la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin());
    let north = Vector3::new(-la.sin() * lo.cos(), -la.sin() * lo.sin(), la.cos());
    let east = Vector3::new(-lo.sin(), lo.cos(), 0.0);
    let r = Vector3::new((n + g.height_km) * up.x, (n + g.height_km) * up.y, (n * (1.0 - e2) + g.height_km) * up.z);
    let d = std::f64::consts::PI / 180.0;
    (r, north * ((m + g.height_km) * d * g.latitude_rate_deg_s) + east * ((n + g.height_km) * la.cos() * d * g.longitude_rate_deg_s) + up * g.height_rate_km_s)
}
/// the transmitting vehicle: straight up, low on the horizon or out of sight of the asset; any velocity
fn vehicle(g: &GroundAsset, i: u32, a: &Almanac) -> Orbit {
    let (r, _) = fixed(g, 0.99);
    let u = r / r.norm();
    let n = Vector3::new(-u.y, u.x, 0.0).normalize();
    let q = u.cross(&n);
    let c = match vp_fix_i64(vp_i64(i, 0, 2)) { 0 => r + u * 3000.0 + n * 100.0, 1 => r + u * 600.0 + n * 2000.0 - q * 900.0, _ => r - u * 500.0 + n * 2000.0 };
    let o = a.transform_to(Orbit::new(c.x, c.y, c.z, 0.0, 0.0, 0.0, g.epoch, g.frame), EARTH_J2000, None).unwrap();
    Orbit::new(o.radius_km.x, o.radius_km.y, o.radius_km.z, v(i + 1, 8.0), v(i + 2, 8.0), v(i + 3, 8.0), g.epoch, earth())
}
fn sc(o: Orbit) -> Spacecraft { Spacecraft::new(o, 100.0, 10.0, 1.0, 1.0, 1.5, 2.2) }
fn wn(s: f64) -> StochasticNoise { StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: s }), bias: None } }
fn types(t: &[T]) -> IndexSet<T> { t.iter().copied().collect() }
fn link(o: &[Orbit], s: [f64; 2]) -> InterlinkTxSpacecraft {
    let mut t = Trajectory::new();
    for x in o { t.states.push(sc(*x)); }
    InterlinkTxSpacecraft { traj: t, measurement_types: types(&[T::Doppler, T::Range]), integration_time: None, timestamp_noise_s: None, stochastic_noises: Some([(T::Doppler, wn(s[0])), (T::Range, wn(s[1]))].into_iter().collect()), ab_corr: None }
}
/// range and its rate between vehicle and asset, in the body-fixed frame
fn geom(g: &GroundAsset, o: Orbit, a: &Almanac) -> (Vector3<f64>, Vector3<f64>, f64, f64) {
    let (r, w) = fixed(g, 0.99);
    let x = a.transform_to(o, g.frame, None).unwrap();
    let (d, u) = (r - x.radius_km, w - x.velocity_km_s);
    (d, u, d.norm(), d.dot(&u) / d.norm())
}
fn meas(l: &mut InterlinkTxSpacecraft, g: GroundAsset, r: Option<&mut Pcg64Mcg>, a: &Almanac) -> Option<Measurement> { <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure_instantaneous(l, g, r, a).unwrap() }

harnesses! {
    /// vector form, addition, parameters, matrix of an asset: all values
    fn h_c14_state() {
        let f = IAU_EARTH_FRAME;
        let (g, mut w) = (any(10, E0, f), any(20, E0 + 5, f));
        let stm = vp_decide(vp_f64(1, 0.0, 1.0) > 0.5);
        let mut y = OVector::<f64, Const<42>>::zeros();
        for i in 0..42 { y[i] = v(100 + i as u32, 1e3); }
        if stm { w = w.with_stm(); }
        w.set(ep(E0 + 9), &y);
        vp_check(w.epoch == ep(E0 + 9) && w.stm.is_some() == stm && w.frame == f, 1);
        for i in 0..6 { vp_check(six(&w)[i] == y[i], 2); }
        let x = w.to_vector();
        for i in 0..42 { vp_check(x[i] == if stm || i < 6 { y[i] } else { 0.0 }, 3); }
        if stm { for r in 0..6 { for c in 0..6 { vp_check(w.stm().unwrap()[(r, c)] == y[6 + r + 6 * c], 4); } } } else { vp_check(w.stm().is_err(), 5); }
        w.reset_stm();
        for r in 0..6 { for c in 0..6 { vp_check(w.stm().unwrap()[(r, c)] == if r == c { 1.0 } else { 0.0 }, 6); } }
        let d = Vector6::from_iterator((0..6).map(|i| v(200 + i, 10.0)));
        let s = State::add(g, d);
        for i in 0..6 { vp_check(near(six(&s)[i], six(&g)[i] + d[i], 1e-12), 7); }
        vp_check(s.epoch == g.epoch && s.frame == g.frame, 8);
        for (i, e) in [OrbitalElement::Latitude, OrbitalElement::Longitude, OrbitalElement::Height].into_iter().enumerate() { vp_check(g.value(StateParameter::Element(e)).unwrap() == six(&g)[i], 9); }
        vp_check(g.value(StateParameter::Element(OrbitalElement::X)).is_err(), 10);
        let l = g.to_location();
        vp_check(l.latitude_deg == g.latitude_deg && l.longitude_deg == g.longitude_deg && l.height_km == g.height_km, 11);
    }
    /// velocity on the ground and rates of the coordinates are the same motion (5 places, any velocity, flattened body)
    fn h_c14_rates() {
        let a = al();
        let p = place(1);
        let g0 = GroundAsset::from_fixed(p[0], p[1], p[2], ep(E0), fr(&a));
        let w = [v(2, 100.0), v(3, 100.0), v(4, 100.0)];
        let g = g0.with_velocity_sez_m_s(w[0], w[1], w[2]).unwrap();
        let b = g.velocity_sez_m_s().unwrap();
        for i in 0..3 { vp_check(near(b[i], w[i], 1e-6), 1); }
        vp_check(g.latitude_deg == p[0] && g.longitude_deg == p[1] && g.height_km == p[2] && g.epoch == ep(E0), 2);
        let (r, x) = fixed(&g, 0.99);
        let (la, lo) = (p[0].to_radians(), p[1].to_radians());
        let up = Vector3::new(la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin());
        let south = Vector3::new(la.sin() * lo.cos(), la.sin() * lo.sin(), -la.cos());
        let east = Vector3::new(-lo.sin(), lo.cos(), 0.0);
        let q = (south * w[0] + east * w[1] + up * w[2]) * 1e-3;
        for i in 0..3 { vp_check(near(x[i], q[i], 1e-6), 3); }
        let o = g.orbit();
        for i in 0..3 { vp_check(near(o.radius_km[i], r[i], 1e-6), 4); }
        let (x, y, h) = latlongalt_rate(o, Vector3::new(w[0], w[1], w[2]) * 1e-3).unwrap();
        vp_check(near(x, g.latitude_rate_deg_s, 1e-9) && near(y, g.longitude_rate_deg_s, 1e-7) && near(h, g.height_rate_km_s, 1e-9), 5);
        let k = velocity_sez_from_latlongalt_rate(o, x, y, h).unwrap();
        for i in 0..3 { vp_check(near(k[i], w[i] * 1e-3, 1e-9), 6); }
    }
    /// the Jacobian is the derivative of body-fixed position and velocity (5 places, any rates)
    fn h_c14_jacobian() {
        let a = al();
        let g = asset(1, E0, fr(&a));
        let j = g.geodetic_to_cartesian_jacobian().unwrap();
        for c in 0..6 {
            let h = if c < 3 { 1e-3 } else { 1.0 };
            let (mut p, mut m) = (Vector6::zeros(), Vector6::zeros());
            p[c] = h; m[c] = -h;
            let (rp, vp) = fixed(&State::add(g, p), 0.99);
            let (rm, vm) = fixed(&State::add(g, m), 0.99);
            for r in 0..3 {
                vp_check(near(j[(r, c)], (rp[r] - rm[r]) / (2.0 * h), 1e-5), 1);
                vp_check(near(j[(r + 3, c)], (vp[r] - vm[r]) / (2.0 * h), 1e-5), 2);
            }
        }
    }
    /// an asset keeps its rates and its transition matrix is that of uniform motion: any state, duration up to 3 steps either way
    fn h_c14_motion() {
        let a = Arc::new(Almanac::default());
        let g = any(10, E0, IAU_EARTH_FRAME).with_stm();
        let p = Propagator::new(GroundDynamics {}, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(ns(30_000_000_000)));
        let t = vp_i64(1, -80_000_000_000, 80_000_000_000);
        let e = p.with(g, a).for_duration(ns(t)).unwrap();
        let s = ns(t).to_seconds();
        vp_check(e.epoch == ep(E0 + t), 1);
        for i in 0..3 { vp_check(near(six(&e)[i], six(&g)[i] + s * six(&g)[i + 3], 1e-6), 2); vp_check(near(six(&e)[i + 3], six(&g)[i + 3], 1e-9), 3); }
        let m = e.stm().unwrap();
        for r in 0..6 { for c in 0..6 { vp_check(near(m[(r, c)], if r == c { 1.0 } else if c == r + 3 { s } else { 0.0 }, 1e-6), 4); } }
    }
    /// the derivative of the transition matrix is the gradient times the matrix: any matrix; the gradient is that of the motion
    fn h_c14_eom() {
        let a = Almanac::default();
        let g = any(10, E0, IAU_EARTH_FRAME).with_stm();
        let mut y = g.to_vector();
        for i in 6..42 { y[i] = v(100 + i as u32, 1e3); }
        let d = GroundDynamics {};
        let o = d.eom(0.0, &y, &g, &a).unwrap();
        let (dx, gr) = d.dual_eom(0.0, &g, &a).unwrap();
        for i in 0..6 { let w = if i < 3 { six(&g)[i + 3] } else { 0.0 }; vp_check(o[i] == w && dx[i] == w, 1); }
        for r in 0..6 { for c in 0..6 {
            vp_check(gr[(r, c)] == if c == r + 3 { 1.0 } else { 0.0 }, 2);
            vp_check(o[6 + r + 6 * c] == if r < 3 { y[6 + r + 3 + 6 * c] } else { 0.0 }, 3);
        } }
    }
    /// a trajectory of an asset reproduces uniform motion between its states
    fn h_c14_interpolate() {
        let f = IAU_EARTH_FRAME;
        let g = any(10, E0, f);
        let at = |t: i64| { let mut x = g; x.epoch = ep(E0 + t); let s = ns(t).to_seconds(); x.latitude_deg += s * g.latitude_rate_deg_s; x.longitude_deg += s * g.longitude_rate_deg_s; x.height_km += s * g.height_rate_km_s; x };
        let m = 60_000_000_000;
        let st = [at(0), at(m), at(2 * m)];
        let k = [1_000_000_000, 45_000_000_000, 77_000_000_000, 119_000_000_000][vp_fix_i64(vp_i64(1, 0, 3)) as usize];
        let x = g.interpolate(ep(E0 + k), &st).unwrap();
        vp_check(x.epoch == ep(E0 + k), 1);
        for i in 0..6 { vp_check(near(six(&x)[i], six(&at(k))[i], 1e-5), 2); }
    }
    /// distance along the surface: of the same point none, symmetric, whatever the heights; along the equator and a meridian the angle times the radius
    fn h_c14_distance() {
        let a = al();
        let f = fr(&a);
        let (mut g, mut w) = (any(10, E0, f), any(20, E0, f));
        vp_check(near(g.great_circle_distance_km(&g).unwrap(), 0.0, 1e-6), 1);
        let k = vp_fix_i64(vp_i64(1, 0, 3)) as usize;
        let p = [[0.0, 10.0, 0.0, 55.0, 45.0], [0.0, 350.0, 0.0, 20.0, 30.0], [-30.0, 40.0, 50.0, 40.0, 80.0], [70.0, 10.0, 80.0, 190.0, 30.0]][k];
        g.latitude_deg = p[0]; g.longitude_deg = p[1];
        w.latitude_deg = p[2]; w.longitude_deg = p[3];
        let r = f.mean_equatorial_radius_km().unwrap() * p[4].to_radians();
        vp_check(near(g.great_circle_distance_km(&w).unwrap(), r, 1e-6), 2);
        vp_check(near(w.great_circle_distance_km(&g).unwrap(), r, 1e-6), 3);
    }
    /// range and range rate between asset and vehicle in sight, both moving, plus noise (5 places x 3 positions, any velocities)
    fn h_c14_measure() {
        let a = al();
        let g = asset(1, E0, fr(&a));
        let o = vehicle(&g, 10, &a);
        let s = [vp_f64(20, 0.0, 5.0), vp_f64(21, 0.0, 5.0)];
        let mut l = link(&[o], s);
        let noisy = vp_decide(vp_f64(22, 0.0, 1.0) > 0.5);
        let (mut r, mut r2) = (rng(), rng());
        let m = meas(&mut l, g, if noisy { Some(&mut r) } else { None }, &a);
        let k = vp_fix_i64(vp_i64(10, 0, 2));
        vp_check(m.is_some() == (k < 2), 1);
        if let Some(m) = m {
            let (_, _, rho, rr) = geom(&g, o, &a);
            let f = if noisy { 1.0 } else { 0.0 };
            vp_check(m.epoch == ep(E0) && m.data.len() == 2, 2);
            vp_check(near(m.data[&T::Doppler], rr + f * s[0] * z(&mut r2), 1e-6), 3);
            vp_check(near(m.data[&T::Range], rho + f * s[1] * z(&mut r2), 1e-6), 4);
        }
        vp_check(near(<InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measurement_covar(&l, T::Range, ep(E0)).unwrap(), s[1] * s[1], 1e-9), 5);
    }
    /// integrated measurement: the mean of both ends, noise over sqrt 2; needs both ends in sight and on the path
    fn h_c14_integrated() {
        let a = al();
        let m = 60_000_000_000;
        let g0 = asset(1, E0, fr(&a));
        let at = |t: i64| { let mut x = g0; x.epoch = ep(E0 + t); x };
        let mut tr = Traj::<GroundAsset>::new();
        for i in 0..2 { tr.states.push(at(i * m)); }
        let (o0, o1) = (vehicle(&at(0), 10, &a), vehicle(&at(m), 20, &a));
        let s = [vp_f64(30, 0.0, 5.0), vp_f64(31, 0.0, 5.0)];
        let mut l = link(&[o0, o1], s);
        l.integration_time = Some(ns(m));
        let (mut r, mut r2) = (rng(), rng());
        let none = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure(&mut l, ep(E0), &tr, None, &a).unwrap();
        vp_check(none.is_none(), 1);
        let x = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure(&mut l, ep(E0 + m), &tr, Some(&mut r), &a).unwrap();
        vp_check(x.is_some() == (vp_fix_i64(vp_i64(10, 0, 2)) < 2 && vp_fix_i64(vp_i64(20, 0, 2)) < 2), 2);
        if let Some(x) = x {
            let (p, q) = (geom(&at(0), o0, &a), geom(&at(m), o1, &a));
            vp_check(x.epoch == ep(E0 + m) && x.data.len() == 2, 3);
            vp_check(near(x.data[&T::Doppler], (p.3 + q.3) / 2.0 + 0.5f64.sqrt() * s[0] * z(&mut r2), 1e-6), 4);
            vp_check(near(x.data[&T::Range], (p.2 + q.2) / 2.0 + 0.5f64.sqrt() * s[1] * z(&mut r2), 1e-6), 5);
        }
    }
    /// sensitivities are the derivatives of the range and range rate with respect to the coordinates and rates of the asset
    fn h_c14_sens() {
        let a = al();
        let g = asset(1, E0, fr(&a));
        let o = vehicle(&g, 10, &a);
        let l = link(&[o], [1.0, 1.0]);
        let (_, _, rho, rr) = geom(&g, o, &a);
        let (hr, hd) = (vp_decide(vp_f64(20, 0.0, 1.0) > 0.5), vp_decide(vp_f64(21, 0.0, 1.0) > 0.5));
        let mut m = Measurement::new("s".to_string(), ep(E0));
        if hr { m.push(T::Range, rho); }
        if hd { m.push(T::Doppler, rr); }
        let h = TrackerSensitivity::<GroundAsset, GroundAsset>::h_tilde::<Const<2>>(&l, &m, &types(&[T::Range, T::Doppler]), &g, &a).unwrap();
        for c in 0..6 {
            let e = if c < 3 { 1e-3 } else { 1.0 };
            let (mut p, mut n) = (Vector6::zeros(), Vector6::zeros());
            p[c] = e; n[c] = -e;
            let (x, y) = (geom(&State::add(g, p), o, &a), geom(&State::add(g, n), o, &a));
            vp_check(near(h[(0, c)], if hr { (x.2 - y.2) / (2.0 * e) } else { 0.0 }, 1e-4), 1);
            vp_check(near(h[(1, c)], if hd { (x.3 - y.3) / (2.0 * e) } else { 0.0 }, 1e-4), 2);
        }
    }
}
