use anise::almanac::Almanac;
use anise::astro::{Aberration, AzElRange, TerrainMask};
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME};
use indexmap::IndexSet;
use nyx_space::Spacecraft;
use nyx_space::cosmic::Orbit;
use nyx_space::linalg::{Const, Vector3};
use nyx_space::md::Trajectory;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::{Measurement, MeasurementType};
use nyx_space::od::noise::link_specific::{CN0, CarrierFreq, ChipRate, SN0};
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, Stochastics, WhiteNoise};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::{GroundStation, ODError, TrackingDevice};
use rand::RngExt;
use rand_distr::Normal;
use rand_pcg::Pcg64Mcg;
use vpharness::sc::*;
use vpharness::*;

type T = MeasurementType;
const ALL: [T; 10] = [T::Range, T::Doppler, T::Azimuth, T::Elevation, T::ReceiveFrequency, T::TransmitFrequency, T::TransmitFrequencyRate, T::X, T::Y, T::Z];
fn aer(b: u32) -> AzElRange {
    AzElRange { epoch: ep(E0), azimuth_deg: vp_f64(b, 0.0, 359.999), elevation_deg: v(b + 1, 90.0), range_km: vp_f64(b + 2, 0.0, 1e6), range_rate_km_s: v(b + 3, 20.0), obstructed_by: None, mask_deg: None, light_time: ns(0) }
}
fn val(a: &AzElRange, t: T) -> f64 { match t { T::Range => a.range_km, T::Doppler => a.range_rate_km_s, T::Azimuth => a.azimuth_deg, _ => a.elevation_deg } }
fn wn(s: f64) -> StochasticNoise { StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: s }), bias: None } }
fn rng() -> Pcg64Mcg { Pcg64Mcg::new(77) }
fn z(r: &mut Pcg64Mcg) -> f64 { r.sample(Normal::new(0.0, 1.0).unwrap()) }
fn al() -> Almanac { vpharness::alm::almanac(&[vpharness::alm::body(399, 0, [0.0; 3], [0.0; 3]), vpharness::alm::body(301, 0, [4e5, 0.0, 0.0], [0.0; 3])], &[(399, 398600.4418, 6378.0), (301, 4902.0, 1737.0)]) }
fn site(k: i64) -> (f64, f64) { [(40.0, 100.0), (-35.0, 220.0), (5.0, 315.0)][k as usize] }
fn gs(k: i64) -> GroundStation { let (a, b) = site(k); GroundStation::from_point("s".to_string(), a, b, 0.5, IAU_EARTH_FRAME) }
/// a path of the receiver: E0-60 s to E0+60 s
fn traj(o: [Orbit; 3]) -> Trajectory { let mut t = Trajectory::new(); for x in o { t.states.push(sc(x)); } t }
fn sc(o: Orbit) -> Spacecraft { Spacecraft::new(o, 100.0, 10.0, 1.0, 1.0, 1.5, 2.2) }
/// inertial position and velocity of the station
fn at(g: &GroundStation, t: i64, a: &Almanac) -> Orbit { a.transform_to(g.to_orbit(ep(t), a).unwrap(), EARTH_J2000, None).unwrap() }
/// a receiver up to `b` km around 3000 km above the station (elevation `el`=0: zenith, 1: low, 2: below the horizon)
fn seen(g: &GroundStation, t: i64, b: f64, a: &Almanac) -> Orbit {
    let s = at(g, t, a);
    let u = s.radius_km / s.radius_km.norm();
    let n = Vector3::new(-u.y, u.x, 0.0);
    let n = n / n.norm();
    let c = match vp_fix_i64(vp_i64(90, 0, 2)) { 0 => s.radius_km + u * 3000.0, 1 => s.radius_km + u * 400.0 + n * 2500.0, _ => s.radius_km - u * 3000.0 + n * 1000.0 };
    let w = |i: u32| if b > 0.0 { v(i, b) } else { 0.0 };
    Orbit::new(c.x + w(91), c.y + w(92), c.z + w(93), v(94, 8.0), v(95, 8.0), v(96, 8.0), ep(t), earth())
}
fn types(t: &[T]) -> IndexSet<T> { t.iter().copied().collect() }

harnesses! {
    /// one-way values: the geometry plus the noise; types that cannot be simulated from geometry are refused
    fn h_c13_oneway() {
        let (a, n) = (aer(1), v(9, 10.0));
        for t in ALL {
            let r = t.compute_one_way(a, n);
            match t { T::Range | T::Doppler | T::Azimuth | T::Elevation => vp_check(r.unwrap() == val(&a, t) + n, 1), _ => vp_check(r.is_err(), 2) }
        }
    }
    /// two-way values: the mean of both ends plus noise / sqrt 2; azimuths average on the circle
    fn h_c13_twoway() {
        let (a, b, n) = (aer(1), aer(11), v(21, 10.0));
        for t in ALL {
            let r = t.compute_two_way(a, b, n);
            match t {
                T::Range | T::Doppler | T::Elevation => vp_check(near(r.unwrap(), (val(&a, t) + val(&b, t)) / 2.0 + n / 2.0f64.sqrt(), 1e-6), 1),
                T::Azimuth => {
                    let d = b.azimuth_deg - a.azimuth_deg;
                    vp_assume(!near(d, 180.0, 1e-6) && !near(d, -180.0, 1e-6));
                    let x = r.unwrap() - n / 2.0f64.sqrt();
                    let m = (a.azimuth_deg + b.azimuth_deg) / 2.0;
                    // the middle of the shorter arc
                    let w = if d > 180.0 || d < -180.0 { if m >= 180.0 { m - 180.0 } else { m + 180.0 } } else { m };
                    let e = x - w;
                    vp_check(near(e, 0.0, 1e-6) || near(e, 360.0, 1e-6) || near(e, -360.0, 1e-6), 2);
                }
                _ => vp_check(r.is_err(), 3),
            }
        }
    }
    /// white noise: configuration checks, deviation, scaling, draws
    fn h_c13_white() {
        let dt = if vp_decide(vp_f64(8, 0.0, 1.0) > 0.5) { [-3, -1_000_000_000, 0][vp_fix_i64(vp_i64(9, 0, 2)) as usize] } else { vp_i64(2, 1, 5_000_000_000) };
        let p = if vp_decide(vp_f64(10, 0.0, 1.0) > 0.5) { [-1e-9, -1.0][vp_fix_i64(vp_i64(11, 0, 1)) as usize] } else { vp_f64(1, 1e-9, 5.0) };
        match WhiteNoise::new(p, ns(dt)) {
            Ok(w) => { vp_check(p > 0.0 && dt > 0, 1); vp_check(w.mean == 0.0 && near(w.sigma * (dt as f64 * 1e-9), p, 1e-9), 2); }
            Err(_) => vp_check(p < 0.0 || dt <= 0, 3),
        }
        let (s, m, k) = (vp_f64(3, 0.0, 5.0), v(4, 3.0), vp_f64(5, 0.0, 10.0));
        vp_check(WhiteNoise::constant_white_noise(s).sigma == s, 4);
        let mut w = WhiteNoise { mean: m, sigma: s } * k;
        vp_check(near(w.sigma, s * k, 1e-9) && w.mean == m, 5);
        vp_check(near(w.covariance(ep(E0)), s * k * s * k, 1e-9), 6);
        let (mut r, mut r2) = (rng(), rng());
        vp_check(near(w.sample(ep(E0), &mut r), m + s * k * z(&mut r2), 1e-9), 7);
    }
    /// Gauss-Markov bias: positive time constant only, constant offset, no decay in no time, scaling
    fn h_c13_markov() {
        let tau = if vp_decide(vp_f64(8, 0.0, 1.0) > 0.5) { [-3, -1_000_000_000, 0][vp_fix_i64(vp_i64(9, 0, 2)) as usize] } else { vp_i64(1, 1, 5_000_000_000) };
        vp_check(GaussMarkov::new(ns(tau), 1.0).is_err() == (tau <= 0), 1);
        let (q, c, k) = (vp_f64(2, 0.0, 5.0), v(3, 10.0), vp_f64(4, 0.0, 3.0));
        let mut g = GaussMarkov::new(ns(60_000_000_000), q).unwrap();
        vp_check(near(g.covariance(ep(E0)), q * q, 1e-9), 2);
        let scaled = g * k;
        vp_check(near(scaled.process_noise, q * k, 1e-9) && scaled.tau == g.tau, 3);
        g.constant = Some(c);
        let (mut r, mut r2) = (rng(), rng());
        let first = g.sample(ep(E0), &mut r);
        let b0 = q * z(&mut r2);
        vp_check(near(first, b0 + c, 1e-9), 4);
        z(&mut r2);
        vp_check(near(g.sample(ep(E0), &mut r), b0 + c, 1e-9), 5);
        z(&mut r2);
        // after one second of a minute the bias has lost at most 2% of itself to decay, and drifted by at most the walk
        let later = g.sample(ep(E0 + 1_000_000_000), &mut r);
        let f = (-1.0f64 / 60.0).exp();
        vp_check(near(later, b0 * f + 30.0 * q * (1.0 - f) * z(&mut r2) + c, 1e-9), 6);
        // without process noise it is exactly the constant
        let mut n = GaussMarkov { constant: Some(c), ..GaussMarkov::ZERO };
        vp_check(near(n.sample(ep(E0), &mut r), c, 1e-12) && near(n.sample(ep(E0 + 5_000_000_000), &mut r), c, 1e-12) && n.covariance(ep(E0)) == 0.0, 7);
    }
    /// a noise is its white part plus its bias: draws, variances and scaling
    fn h_c13_stochastic() {
        let (s, q, c, k) = (vp_f64(1, 0.0, 5.0), vp_f64(2, 0.0, 5.0), v(3, 10.0), vp_f64(4, 0.0, 3.0));
        let w = vp_decide(vp_f64(5, 0.0, 1.0) > 0.5);
        let b = vp_decide(vp_f64(6, 0.0, 1.0) > 0.5);
        let mut n = StochasticNoise { white_noise: if w { Some(WhiteNoise { mean: 0.0, sigma: s }) } else { None }, bias: if b { Some(GaussMarkov { constant: Some(c), ..GaussMarkov::new(ns(1_000_000_000), q).unwrap() }) } else { None } };
        let (s2, q2) = (if w { s * s } else { 0.0 }, if b { q * q } else { 0.0 });
        vp_check(near(n.covariance(ep(E0)), s2 + q2, 1e-9), 1);
        vp_check(near((n * k).covariance(ep(E0)), k * k * (s2 + q2), 1e-6), 2);
        let (mut r, mut r2) = (rng(), rng());
        let x = n.sample(ep(E0), &mut r);
        let mut e = 0.0;
        if w { e += s * z(&mut r2); }
        if b { e += q * z(&mut r2) + c; }
        vp_check(near(x, e, 1e-9), 3);
    }
    /// noise from hardware: clock and thermal variances add up, with the documented presets
    fn h_c13_hardware() {
        let ad = vp_f64(1, 0.0, 1e-10);
        let c = 299792.458;
        for (p, db) in [(SN0::Strong(), 65.0), (SN0::Average(), 50.0), (SN0::Poor(), 40.0), (SN0::ManualDbHz(33.0), 33.0)] {
            for (q, hz) in [(ChipRate::Lowest(), 1e3), (ChipRate::Low(), 1e5), (ChipRate::StandardT4B(), 1e6), (ChipRate::High(), 1e7), (ChipRate::VeryHigh(), 2.5e7), (ChipRate::ManualHz(3e6), 3e6)] {
                let n = StochasticNoise::from_hardware_range_km(ad, ns(10_000_000_000), q, p);
                let th = c / (std::f64::consts::TAU * hz * (2.0 * 10f64.powf(db / 10.0)).sqrt());
                let s = n.white_noise.unwrap();
                vp_check(near(s.sigma * s.sigma / (th * th), 1.0 + (c * ad * 10.0) * (c * ad * 10.0) / (3.0 * th * th), 1e-6) && s.mean == 0.0 && n.bias.is_none(), 1);
            }
        }
        for (p, db) in [(CN0::Strong(), 70.0), (CN0::Average(), 55.0), (CN0::Poor(), 45.0), (CN0::ManualDbHz(33.0), 33.0)] {
            for (q, hz) in [(CarrierFreq::SBand(), 2.2e9), (CarrierFreq::XBand(), 8.4e9), (CarrierFreq::KaBand(), 32e9), (CarrierFreq::ManualHz(1e9), 1e9)] {
                let n = StochasticNoise::from_hardware_doppler_km_s(ad, ns(10_000_000_000), q, p);
                let th = c / (std::f64::consts::TAU * hz * (20.0 * 10f64.powf(db / 10.0)).sqrt());
                let s = n.white_noise.unwrap();
                vp_check(near(s.sigma * s.sigma / (th * th), 1.0 + (c * ad) * (c * ad) / (th * th), 1e-6) && s.mean == 0.0 && n.bias.is_none(), 2);
            }
        }
        let (s, b) = (vp_f64(2, 1.0, 1e6), vp_f64(3, 1.0, 1e6));
        let w = WhiteNoise::from_pr_n0(s, b);
        vp_check(near(w.sigma * w.sigma * 4.0 * b * b * s / (c * c), 1.0, 1e-6), 3);
    }
    /// configuring a station: each type has the noise it was given, or is gone
    fn h_c13_config() {
        let (s1, s2, s3, c) = (vp_f64(1, 0.0, 5.0), vp_f64(2, 0.0, 5.0), vp_f64(3, 0.0, 5.0), v(4, 100.0));
        let g = gs(0).with_msr_type(T::Range, wn(s1)).with_msr_type(T::Doppler, wn(s2)).with_msr_type(T::Azimuth, wn(0.5)).with_msr_type(T::Range, wn(s3));
        vp_check(g.measurement_types().len() == 3 && near(g.measurement_covar(T::Range, ep(E0)).unwrap(), s3 * s3, 1e-9) && near(g.measurement_covar(T::Doppler, ep(E0)).unwrap(), s2 * s2, 1e-9), 1);
        vp_check(g.measurement_covar(T::Elevation, ep(E0)).is_err() && g.measurement_bias(T::Elevation, ep(E0)).is_err(), 2);
        vp_check(g.measurement_bias(T::Range, ep(E0)).unwrap() == 0.0, 3);
        let m = g.measurement_covar_matrix::<Const<2>>(&types(&[T::Doppler, T::Range]), ep(E0)).unwrap();
        vp_check(near(m[(0, 0)], s2 * s2, 1e-9) && near(m[(1, 1)], s3 * s3, 1e-9) && m[(0, 1)] == 0.0 && m[(1, 0)] == 0.0, 4);
        let h = g.clone().without_msr_type(T::Range);
        vp_check(h.measurement_types().len() == 2 && !h.measurement_types().contains(&T::Range) && h.measurement_covar(T::Range, ep(E0)).is_err() && near(h.measurement_covar(T::Doppler, ep(E0)).unwrap(), s2 * s2, 1e-9), 5);
        let b = g.clone().with_msr_bias_constant(T::Doppler, c).unwrap();
        vp_check(b.measurement_bias(T::Doppler, ep(E0)).unwrap() == c && b.measurement_bias(T::Range, ep(E0)).unwrap() == 0.0, 6);
        vp_check(near(b.measurement_covar(T::Doppler, ep(E0)).unwrap(), s2 * s2, 1e-9), 7);
        let w = b.measurement_bias_vector::<Const<2>>(&types(&[T::Range, T::Doppler]), ep(E0)).unwrap();
        vp_check(w[0] == 0.0 && w[1] == c, 8);
        let i = g.with_integration_time(Some(ns(5)));
        vp_check(i.integration_time == Some(ns(5)), 9);
    }
    /// setting the bias of a type that is not configured is an error, not a crash
    fn h_c13_bias_err() {
        let g = gs(0).with_msr_type(T::Range, wn(1.0));
        vp_check(matches!(g.with_msr_bias_constant(T::Doppler, v(1, 5.0)), Err(ODError::NoiseNotConfigured { .. })), 1);
    }
    /// a station measures exactly what it sees above its horizon: 3 stations, receivers overhead, low and hidden
    fn h_c13_station() {
        let a = al();
        let k = vp_fix_i64(vp_i64(80, 0, 2));
        let (s1, s2, s3, s4) = (vp_f64(1, 0.0, 5.0), vp_f64(2, 0.0, 5.0), vp_f64(3, 0.0, 5.0), vp_f64(4, 0.0, 5.0));
        let mut g = gs(k).with_msr_type(T::Doppler, wn(s1)).with_msr_type(T::Range, wn(s2)).with_msr_type(T::Elevation, wn(s3)).with_msr_type(T::Azimuth, wn(s4));
        g.measurement_types = types(&[T::Doppler, T::Azimuth, T::Range, T::Elevation]);
        let o = seen(&g, E0, 100.0, &a);
        let e = a.azimuth_elevation_range_sez_from_location(o, g.location.clone(), None, Aberration::NONE).unwrap();
        let noisy = vp_decide(vp_f64(5, 0.0, 1.0) > 0.5);
        let (mut r, mut r2) = (rng(), rng());
        let m = g.measure_instantaneous(sc(o), if noisy { Some(&mut r) } else { None }, &a).unwrap();
        let st = at(&g, E0, &a);
        let d = o.radius_km - st.radius_km;
        match m {
            Some(m) => {
                vp_check(e.elevation_deg >= 0.0, 1);
                vp_check(m.tracker == "s" && m.epoch == ep(E0) && m.data.len() == 4 && !m.rejected, 2);
                let f = if noisy { 1.0 } else { 0.0 };
                for (t, s) in [(T::Doppler, s1), (T::Azimuth, s4), (T::Range, s2), (T::Elevation, s3)] { vp_check(near(m.data[&t], val(&e, t) + f * s * z(&mut r2), 1e-9), 3); }
                if !noisy {
                    let x = m.data[&T::Range];
                    vp_check(near(x * x, d.norm_squared(), 1e-3) && x > 0.0, 4);
                }
            }
            None => vp_check(e.elevation_deg < 0.0, 6),
        }
    }
    /// Doppler is the rate of the range, with respect to the moving station (inertial oracle), for any velocity
    fn h_c13_doppler() {
        let a = al();
        let k = vp_fix_i64(vp_i64(80, 0, 2));
        let mut g = gs(k).with_msr_type(T::Doppler, wn(1.0));
        let o = seen(&g, E0, 0.0, &a);
        let st = at(&g, E0, &a);
        let d = o.radius_km - st.radius_km;
        if let Some(m) = g.measure_instantaneous(sc(o), None, &a).unwrap() { vp_check(near(m.data[&T::Doppler] * d.norm(), d.dot(&(o.velocity_km_s - st.velocity_km_s)), 1e-5), 1); }
    }
    /// the terrain mask hides what is below it
    fn h_c13_mask() {
        let a = al();
        let mut g = gs(0).with_msr_type(T::Range, wn(1.0));
        let (lo, hi) = (vp_f64(1, 0.0, 90.0), vp_f64(2, 0.0, 90.0));
        g.location.terrain_mask = vec![TerrainMask { azimuth_deg: 0.0, elevation_mask_deg: lo }, TerrainMask { azimuth_deg: 180.0, elevation_mask_deg: hi }];
        g.location.terrain_mask_ignored = vp_decide(vp_f64(3, 0.0, 1.0) > 0.5);
        let st = at(&g, E0, &a);
        let u = st.radius_km / st.radius_km.norm();
        let n = Vector3::new(-u.y, u.x, 0.0).normalize() * (2.0 * vp_fix_i64(vp_i64(4, 0, 1)) as f64 - 1.0);
        let c = st.radius_km + u * (300.0 + 700.0 * vp_fix_i64(vp_i64(5, 0, 2)) as f64) + n * 1500.0;
        let o = Orbit::new(c.x, c.y, c.z, v(94, 8.0), v(95, 8.0), v(96, 8.0), ep(E0), earth());
        let e = a.azimuth_elevation_range_sez_from_location(o, g.location.clone(), None, Aberration::NONE).unwrap();
        let mask = if g.location.terrain_mask_ignored { 0.0 } else if e.azimuth_deg < 180.0 { lo } else { hi };
        let m = g.measure_instantaneous(sc(o), None, &a).unwrap();
        vp_check(m.is_some() == (e.elevation_deg >= mask), 1);
    }
    /// two-way: the average over the integration time, seen at both ends; outside the path no measurement
    fn h_c13_integrated() {
        let a = al();
        let (s1, s2) = (vp_f64(1, 0.0, 5.0), vp_f64(2, 0.0, 5.0));
        let mut g = gs(0);
        g.measurement_types = types(&[T::Doppler, T::Range]);
        g.stochastic_noises = Some([(T::Azimuth, wn(9.0)), (T::Range, wn(s2)), (T::Doppler, wn(s1))].into_iter().collect());
        let mut g = g.with_integration_time(Some(ns(60_000_000_000)));
        let st = at(&g, E0, &a);
        let u = st.radius_km.normalize();
        let n = Vector3::new(-u.y, u.x, 0.0).normalize();
        let place = |k: i64| match k { 0 => st.radius_km + u * 3000.0, 1 => st.radius_km + u * 900.0 + n * 2500.0, _ => st.radius_km - u * 3000.0 + n * 1000.0 };
        let mk = |b: u32, t: i64| { let c = place(vp_fix_i64(vp_i64(b, 0, 2))); Orbit::new(c.x, c.y, c.z, v(b + 3, 8.0), v(b + 4, 8.0), 1.0, ep(t), earth()) };
        let o = [mk(10, E0 - 60_000_000_000), mk(20, E0), mk(30, E0 + 60_000_000_000)];
        let tr = traj(o);
        let noisy = vp_decide(vp_f64(5, 0.0, 1.0) > 0.5);
        let i = vp_fix_i64(vp_i64(6, 0, 2)) as usize;
        let (mut r, mut r2) = (rng(), rng());
        let m = g.measure(o[i].epoch, &tr, if noisy { Some(&mut r) } else { None }, &a).unwrap();
        if i == 0 { vp_check(m.is_none(), 1); return; }
        let e0 = a.azimuth_elevation_range_sez_from_location(o[i - 1], g.location.clone(), None, Aberration::NONE).unwrap();
        let e1 = a.azimuth_elevation_range_sez_from_location(o[i], g.location.clone(), None, Aberration::NONE).unwrap();
        vp_check(m.is_some() == (e0.elevation_deg >= 0.0 && e1.elevation_deg >= 0.0), 2);
        if let Some(m) = m {
            vp_check(m.tracker == "s" && m.epoch == o[i].epoch && m.data.len() == 2, 3);
            let f = if noisy { 0.5f64.sqrt() } else { 0.0 };
            vp_check(near(m.data[&T::Doppler], (e0.range_rate_km_s + e1.range_rate_km_s) / 2.0 + f * s1 * z(&mut r2), 1e-6), 4);
            vp_check(near(m.data[&T::Range], (e0.range_km + e1.range_km) / 2.0 + f * s2 * z(&mut r2), 1e-6), 5);
        }
    }
    /// sensitivities of range and Doppler are their partials with respect to position and velocity (3 stations, 3 places, any velocity); absent types have no sensitivity
    fn h_c13_sens() {
        let a = al();
        let g = gs(vp_fix_i64(vp_i64(80, 0, 2))).with_msr_type(T::Range, wn(1.0)).with_msr_type(T::Doppler, wn(1.0));
        let o = seen(&g, E0, 0.0, &a);
        let st = at(&g, E0, &a);
        let (d, w) = (o.radius_km - st.radius_km, o.velocity_km_s - st.velocity_km_s);
        let (rho, rr) = (d.norm(), d.dot(&w) / d.norm());
        let have = (vp_decide(vp_f64(1, 0.0, 1.0) > 0.5), vp_decide(vp_f64(2, 0.0, 1.0) > 0.5));
        let mut m = Measurement::new("s".to_string(), ep(E0));
        if have.0 { m.push(T::Range, rho); }
        if have.1 { m.push(T::Doppler, rr); }
        let ord = vp_decide(vp_f64(3, 0.0, 1.0) > 0.5);
        let h = g.h_tilde::<Const<2>>(&m, &if ord { types(&[T::Range, T::Doppler]) } else { types(&[T::Doppler, T::Range]) }, &sc(o), &a).unwrap();
        let (ri, di) = if ord { (0, 1) } else { (1, 0) };
        for j in 0..9 {
            vp_check(near(h[(ri, j)], if have.0 && j < 3 { d[j] / rho } else { 0.0 }, 1e-8), 1);
            vp_check(near(h[(di, j)], if !have.1 || j > 5 { 0.0 } else if j > 2 { d[j - 3] / rho } else { w[j] / rho - rr * d[j] / (rho * rho) }, 1e-8), 2);
        }
    }
    /// sensitivities of azimuth and elevation: moving by a small step changes the measured angle accordingly
    fn h_c13_sens_angles() {
        let a = al();
        let mut g = gs(vp_fix_i64(vp_i64(80, 0, 2))).with_msr_type(T::Azimuth, wn(1.0)).with_msr_type(T::Elevation, wn(1.0));
        let st = at(&g, E0, &a);
        let u = st.radius_km.normalize();
        let n = Vector3::new(-u.y, u.x, 0.0).normalize();
        let q = u.cross(&n);
        let c = match vp_fix_i64(vp_i64(90, 0, 2)) { 0 => u * 3000.0 + n * 200.0, 1 => u * 900.0 - n * 2500.0 + q * 500.0, _ => u * 1000.0 + n * 100.0 - q * 1500.0 } + st.radius_km;
        let o = Orbit::new(c.x, c.y, c.z, v(4, 8.0), v(5, 8.0), v(6, 8.0), ep(E0), earth());
        let m = g.measure_instantaneous(sc(o), None, &a).unwrap().unwrap();
        let h = g.h_tilde::<Const<2>>(&m, &types(&[T::Azimuth, T::Elevation]), &sc(o), &a).unwrap();
        for j in 0..9 {
            let mut w = [0.0; 2];
            if j < 3 {
                let (mut p, mut q) = (o, o);
                p.radius_km[j] += 1e-2;
                q.radius_km[j] -= 1e-2;
                let mp = g.measure_instantaneous(sc(p), None, &a).unwrap().unwrap();
                let mq = g.measure_instantaneous(sc(q), None, &a).unwrap().unwrap();
                w = [(mp.data[&T::Azimuth] - mq.data[&T::Azimuth]) / 2e-2, (mp.data[&T::Elevation] - mq.data[&T::Elevation]) / 2e-2];
            }
            for i in 0..2 { vp_check(near(h[(i, j)], w[i], 1e-6), 1 + i as u32); }
        }
    }
    /// a crosslink measures distance and its rate between two spacecraft in sight of each other
    fn h_c13_interlink() {
        let a = al();
        let (s1, s2) = (vp_f64(1, 0.0, 5.0), vp_f64(2, 0.0, 5.0));
        let t = Orbit::new(7000.0, 100.0, -300.0, v(11, 8.0), v(12, 8.0), v(13, 8.0), ep(E0), earth());
        let mut tx = InterlinkTxSpacecraft { traj: traj([t, Orbit { epoch: ep(E0 + 60_000_000_000), ..t }, Orbit { epoch: ep(E0 + 120_000_000_000), ..t }]), measurement_types: types(&[T::Doppler, T::Range]), integration_time: None, timestamp_noise_s: None,
            stochastic_noises: Some([(T::Azimuth, wn(9.0)), (T::Range, wn(s2)), (T::Doppler, wn(s1))].into_iter().collect()), ab_corr: None };
        let k = vp_fix_i64(vp_i64(3, 0, 2));
        let c = [[7500.0, 4000.0, 1000.0], [8000.0, -300.0, 4500.0], [-7000.0, 100.0, 200.0]][k as usize];
        let o = Orbit::new(c[0], c[1], c[2], v(4, 8.0), v(5, 8.0), v(6, 8.0), ep(E0), earth());
        let noisy = vp_decide(vp_f64(7, 0.0, 1.0) > 0.5);
        let (mut r, mut r2) = (rng(), rng());
        let m = <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure_instantaneous(&mut tx, sc(o), if noisy { Some(&mut r) } else { None }, &a).unwrap();
        vp_check(m.is_some() == (k < 2), 1);
        if let Some(m) = m {
            let (d, w) = (o.radius_km - t.radius_km, o.velocity_km_s - t.velocity_km_s);
            let (rho, rr) = (d.norm(), d.dot(&w) / d.norm());
            let f = if noisy { 1.0 } else { 0.0 };
            vp_check(near(m.data[&T::Doppler], rr + f * s1 * z(&mut r2), 1e-8), 2);
            vp_check(near(m.data[&T::Range], rho + f * s2 * z(&mut r2), 1e-8), 3);
            vp_check(m.epoch == ep(E0) && m.data.len() == 2, 4);
            let mut n = Measurement::new("s".to_string(), ep(E0));
            let (hr, have) = (vp_decide(vp_f64(9, 0.0, 1.0) > 0.5), vp_decide(vp_f64(8, 0.0, 1.0) > 0.5));
            if hr { n.push(T::Range, rho); }
            if have { n.push(T::Doppler, rr); }
            let h = TrackerSensitivity::<Spacecraft, Spacecraft>::h_tilde::<Const<2>>(&tx, &n, &types(&[T::Range, T::Doppler]), &sc(o), &a).unwrap();
            for j in 0..9 {
                vp_check(near(h[(0, j)], if hr && j < 3 { d[j] / rho } else { 0.0 }, 1e-8), 5);
                vp_check(near(h[(1, j)], if !have || j > 5 { 0.0 } else if j > 2 { d[j - 3] / rho } else { w[j] / rho - rr * d[j] / (rho * rho) }, 1e-8), 6);
            }
            vp_check(near(<InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_covar(&tx, T::Doppler, ep(E0)).unwrap(), s1 * s1, 1e-9), 7);
        }
    }
    /// a position device reports the coordinates it is configured for, whichever and in any order, plus their own noise
    fn h_c13_position() {
        let a = al();
        let s = [vp_f64(1, 0.0, 5.0), vp_f64(2, 0.0, 5.0), vp_f64(3, 0.0, 5.0)];
        let c = v(4, 10.0);
        let p = [[T::X, T::Y, T::Z], [T::Y, T::Z, T::X], [T::Z, T::X, T::Y], [T::Y, T::X, T::Z]][vp_fix_i64(vp_i64(5, 0, 3)) as usize];
        let n = vp_fix_i64(vp_i64(6, 1, 3)) as usize;
        let ix = |t: T| match t { T::X => 0, T::Y => 1, _ => 2 };
        let mut d = PositionDevice::new("p".to_string());
        for t in &p[..n] { let mut w = wn(s[ix(*t)]); if *t == T::Y { w.bias = Some(GaussMarkov { constant: Some(c), ..GaussMarkov::ZERO }); } d = d.with_noise(*t, w); }
        let o = orbit(10, ep(E0));
        let noisy = vp_decide(vp_f64(7, 0.0, 1.0) > 0.5);
        let (mut r, mut r2) = (rng(), rng());
        let m = d.measure_instantaneous(sc(o), if noisy { Some(&mut r) } else { None }, &a).unwrap().unwrap();
        vp_check(m.data.len() == n && m.tracker == "p" && m.epoch == ep(E0), 1);
        for t in &p[..n] {
            let mut e = 0.0;
            if noisy { e = s[ix(*t)] * z(&mut r2); if *t == T::Y { z(&mut r2); z(&mut r2); e += c; } }
            vp_check(near(m.data[t], o.radius_km[ix(*t)] + e, 1e-9), 2);
            vp_check(near(d.measurement_covar(*t, ep(E0)).unwrap(), s[ix(*t)] * s[ix(*t)], 1e-9), 3);
            vp_check(d.measurement_bias(*t, ep(E0)).unwrap() == if *t == T::Y { c } else { 0.0 }, 4);
        }
        let h = d.h_tilde::<Const<3>>(&m, &types(&p), &sc(o), &a).unwrap();
        for (i, t) in p.iter().enumerate() { for j in 0..9 { vp_check(h[(i, j)] == if i < n && j == ix(*t) { 1.0 } else { 0.0 }, 5); } }
    }
    /// timestamp noise: a process that keeps its state from one measurement to the next, like any other noise
    fn h_c13_timestamp() {
        let a = al();
        let (c, sg) = (vp_f64(1, 0.0, 5.0), vp_f64(2, 0.0, 0.5));
        let nz = || StochasticNoise { white_noise: None, bias: Some(GaussMarkov { tau: ns(3600_000_000_000), process_noise: sg, constant: Some(c), ..GaussMarkov::ZERO }) };
        let k = vp_fix_i64(vp_i64(3, 0, 1));
        let t = Orbit::new(7000.0, 100.0, -300.0, 1.0, 2.0, 3.0, ep(E0), earth());
        let mut tx = InterlinkTxSpacecraft { traj: traj([t, Orbit { epoch: ep(E0 + 60_000_000_000), ..t }, Orbit { epoch: ep(E0 + 120_000_000_000), ..t }]), measurement_types: types(&[T::Range]), integration_time: None, timestamp_noise_s: Some(nz()),
            stochastic_noises: Some([(T::Range, wn(0.0))].into_iter().collect()), ab_corr: None };
        let mut g = gs(0).with_msr_type(T::Range, wn(0.0));
        g.timestamp_noise_s = Some(nz());
        let st = at(&g, E0, &a);
        let p = st.radius_km.normalize() * 9000.0;
        let o = Orbit::new(p.x, p.y, p.z, 1.0, 2.0, 3.0, ep(E0), earth());
        let x = Orbit::new(7500.0, 4000.0, 1000.0, 1.0, 2.0, 3.0, ep(E0), earth());
        let (mut r, mut r2) = (rng(), rng());
        let mut n = nz();
        for i in 1..4 {
            let e = n.sample(ep(E0), &mut r2);
            z(&mut r2);
            let m = if k == 0 { g.measure_instantaneous(sc(o), Some(&mut r), &a) } else { <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure_instantaneous(&mut tx, sc(x), Some(&mut r), &a) }.unwrap().unwrap();
            let got = (m.epoch - ep(E0)).to_seconds();
            vp_check(near(got, e, 1e-6), i);
        }
    }
}
