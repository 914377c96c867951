use anise::analysis::prelude::OrbitalElement;
use anise::prelude::Almanac;
use nyx_space::Spacecraft;
use nyx_space::cosmic::{GuidanceMode, Orbit};
use nyx_space::dynamics::guidance::{GuidanceLaw, Kluever, LocalFrame, Maneuver, MnvrRepr, Objective, Ruggiero, StateParameter, ThrustDirectionReplay};
use nyx_space::linalg::Vector3;
use nyx_space::md::Trajectory;
use nyx_space::polyfit::CommonPolynomial;
use vpharness::sc::*;
use vpharness::*;

type El = OrbitalElement;
fn par(e: El) -> StateParameter { StateParameter::Element(e) }
fn modes(id: u32) -> GuidanceMode {
    match vp_fix_i64(vp_i64(id, 0, 2)) { 0 => GuidanceMode::Coast, 1 => GuidanceMode::Thrust, _ => GuidanceMode::Inhibit }
}
fn sc(o: Orbit) -> Spacecraft { Spacecraft::new(o, 100.0, 10.0, 1.0, 1.0, 1.5, 2.2) }
/// one of 20 elliptic orbits: 5 shapes/orientations at 4 true anomalies
fn some_orbit(id: u32, n: i64) -> Orbit {
    let k = vp_fix_i64(vp_i64(id, 0, n - 1));
    let (a, e, i, raan, aop) = match k % 5 {
        0 => (7500.0, 0.05, 30.0, 40.0, 50.0),
        1 => (24000.0, 0.6, 7.0, 203.0, 124.0),
        2 => (12000.0, 0.3, 98.0, 311.0, 263.0),
        3 => (9000.0, 0.15, 140.0, 87.0, 331.0),
        _ => (42000.0, 0.2, 55.0, 158.0, 197.0),
    };
    Orbit::keplerian(a, e, i, raan, aop, [20.0, 115.0, 205.0, 290.0][(k / 5) as usize], ep(E0), earth())
}
/// gradient of an element with respect to velocity (central differences; concrete)
fn grad(o: &Orbit, e: El) -> Vector3<f64> {
    let mut g = Vector3::zeros();
    for k in 0..3 {
        let mut p = *o;
        let mut m = *o;
        p.velocity_km_s[k] += 1e-4;
        m.velocity_km_s[k] -= 1e-4;
        g[k] = (e.evaluate(p).unwrap() - e.evaluate(m).unwrap()) / 2e-4;
    }
    g
}
fn n2(x: &Vector3<f64>) -> f64 { x.x * x.x + x.y * x.y + x.z * x.z }
fn scale(e: El) -> (f64, f64) { match e { El::SemiMajorAxis => (7000.0, 42000.0), El::Inclination => (1.0, 179.0), El::RAAN | El::AoP => (1.0, 359.0), El::Eccentricity => (0.0, 0.99), _ => (-1.0, 1.0) } }
/// thrusting along the commanded direction moves the element toward its target
fn toward(law: &dyn GuidanceLaw, e: El, target: f64, tol: f64, o: &Orbit, coasting_ok: bool) {
    let mut s = sc(*o);
    s.mut_mode(GuidanceMode::Thrust);
    let d = law.direction(&s).unwrap();
    let thr = law.throttle(&s).unwrap();
    let now = e.evaluate(*o).unwrap();
    let g = grad(o, e);
    let gd = g.x * d.x + g.y * d.y + g.z * d.z;
    if target - now > tol { vp_check(gd > 0.0 || (coasting_ok && thr == 0.0), 1); }
    if now - target > tol { vp_check(gd < 0.0 || (coasting_ok && thr == 0.0), 2); }
    vp_check(thr == 1.0 || thr == 0.0, 3);
    if thr > 0.0 { vp_check(near(n2(&d), 1.0, 1e-9), 4); }
}
fn rugg(e: El) {
    let o = some_orbit(1, 20);
    let (lo, hi) = scale(e);
    let target = vp_f64(2, lo, hi);
    let tol = vp_f64(3, 1e-6, 0.1);
    let now = e.evaluate(o).unwrap();
    let init = vp_f64(4, 0.0, 1.0);
    // the initial state of the transfer: a different orbit
    let i0 = if init > 0.5 { o } else { some_orbit(5, 2) };
    vp_assume(!near(now, target, tol * 1.001) || near(now, target, tol * 0.999));
    let law = Ruggiero::simple(&[Objective::within_tolerance(par(e), target, tol)], sc(i0)).unwrap();
    toward(&*law, e, target, tol, &o, false);
    let mut s = sc(o);
    s.mut_mode(modes(6));
    let m = s.mode();
    let thr = law.throttle(&s).unwrap();
    if m != GuidanceMode::Thrust { vp_check(thr == 0.0 && n2(&law.direction(&s).unwrap()) == 0.0, 5); }
    law.next(&mut s, &Almanac::default());
    let done = near(now, target, tol);
    vp_check(law.achieved(&s).unwrap() == done, 6);
    vp_check(s.mode() == if m == GuidanceMode::Inhibit { m } else if done { GuidanceMode::Coast } else { GuidanceMode::Thrust }, 7);
}
fn kluev(e: El) {
    let o = some_orbit(1, 20);
    let (lo, hi) = scale(e);
    let target = vp_f64(2, lo, hi);
    let tol = vp_f64(3, 1e-6, 0.1);
    let now = e.evaluate(o).unwrap();
    vp_assume(!near(now, target, tol * 1.001) || near(now, target, tol * 0.999));
    let law = Kluever::new(&[Objective::within_tolerance(par(e), target, tol)], &[vp_f64(4, 0.01, 10.0)]);
    toward(&*law, e, target, tol, &o, false);
    let mut s = sc(o);
    s.mut_mode(modes(6));
    let m = s.mode();
    let thr = law.throttle(&s).unwrap();
    if m != GuidanceMode::Thrust { vp_check(thr == 0.0 && n2(&law.direction(&s).unwrap()) == 0.0, 5); }
    law.next(&mut s, &Almanac::default());
    let done = near(now, target, tol);
    vp_check(law.achieved(&s).unwrap() == done, 6);
    vp_check(s.mode() == if m == GuidanceMode::Inhibit { m } else if done { GuidanceMode::Coast } else { GuidanceMode::Thrust }, 7);
}
fn eclipse(law: &dyn GuidanceLaw, max: f64) {
    // Sun 1.5e8 km along -x; spacecraft in light, umbra, or at three places of the penumbra
    let k = vp_fix_i64(vp_i64(1, 0, 4));
    let y = [0.0, 6200.0, 6370.0, 6400.0, 60000.0][k as usize];
    let al = vpharness::alm::almanac(
        &[vpharness::alm::body(399, 0, [0.0; 3], [0.0; 3]), vpharness::alm::body(301, 0, [0.0, 4e5, 0.0], [0.0; 3]), vpharness::alm::body(10, 0, [-1.5e8, 0.0, 0.0], [0.0; 3])],
        &[(399, 398600.4418, 6378.0), (301, 4902.0, 1737.0), (10, 1.3e11, 696000.0)]);
    let o = Orbit::new(8000.0, y, 0.0, 0.0, 0.0, 6.0, ep(E0), earth());
    let mut pct: f64 = 0.0;
    for f in [anise::constants::frames::EARTH_J2000, anise::constants::frames::MOON_J2000] { pct = pct.max(al.solar_eclipsing(f, o, None).unwrap().percentage); }
    let mut s = sc(o);
    s.mut_mode(modes(2));
    let m = s.mode();
    law.next(&mut s, &al);
    let w = if m == GuidanceMode::Inhibit { m } else if pct > max { GuidanceMode::Coast } else { GuidanceMode::Thrust };
    vp_check(s.mode() == w, 1);
}

harnesses! {
    /// a finite burn fires exactly from its start to its end, at its throttle, along its vector (inertial)
    fn h_c12_burn() {
        let (a, b, t) = (vp_i64(1, E0, E0 + 2_000_000_000), vp_i64(2, E0, E0 + 2_000_000_000), vp_i64(3, E0 - 1_000_000_000, E0 + 3_000_000_000));
        let vec = Vector3::new(v(4, 1.0), v(5, 1.0), v(6, 1.0));
        let thr = vp_f64(7, 0.0, 1.0);
        let m = Maneuver::from_time_invariant(ep(a), ep(b), thr, vec, LocalFrame::Inertial);
        let mut s = sc(fixed_orbit(ep(t)));
        s.mut_mode(modes(8));
        m.next(&mut s, &Almanac::default());
        let on = t >= a && t <= b;
        vp_check((s.mode() == GuidanceMode::Thrust) == on, 1);
        vp_check(s.mode() == GuidanceMode::Thrust || s.mode() == GuidanceMode::Coast, 2);
        vp_check(m.throttle(&s).unwrap() == if on { thr } else { 0.0 }, 3);
        let d = GuidanceLaw::direction(&m, &s).unwrap();
        for i in 0..3 { vp_check(d[i] == if on { vec[i] } else { 0.0 }, 4); }
    }
    /// the same vector in each local frame of 5 orbits: components along the axes of the frame
    fn h_c12_frames() {
        let mut s = sc(some_orbit(1, 5));
        let (r, u) = (s.orbit.radius_km, s.orbit.velocity_km_s);
        let h = r.cross(&u);
        let vec = Vector3::new(v(4, 1.0), v(5, 1.0), v(6, 1.0));
        s.mut_mode(GuidanceMode::Thrust);
        let k = vp_fix_i64(vp_i64(7, 0, 2));
        let f = [LocalFrame::RIC, LocalFrame::RCN, LocalFrame::VNC][k as usize];
        let d = GuidanceLaw::direction(&Maneuver::from_time_invariant(ep(E0), ep(E0 + 1), 1.0, vec, f), &s).unwrap();
        let dot = |a: Vector3<f64>| a.x * d.x + a.y * d.y + a.z * d.z;
        let (r, u, h) = (r / r.norm(), u / u.norm(), h / h.norm());
        if k < 2 {
            vp_check(near(dot(r), vec.x, 1e-9), 1);
            vp_check(near(dot(h), vec.z, 1e-9), 2);
            vp_check(near(dot(h.cross(&r)), vec.y, 1e-9), 3);
        } else {
            vp_check(near(dot(u), vec.x, 1e-9), 4);
            vp_check(near(dot(h), vec.y, 1e-9), 5);
            vp_check(near(dot(u.cross(&h)), vec.z, 1e-9), 6);
        }
    }
    /// direction, rate and acceleration of five directions: what is set is read back, one at a time and together, and nothing else changes
    fn h_c12_steer() {
        let (a, b) = (vp_i64(1, E0, E0 + 2_000_000_000), vp_i64(2, E0, E0 + 2_000_000_000));
        let thr = vp_f64(3, 0.0, 1.0);
        let w = Vector3::new(vp_f64(4, 0.1, 9.0), 0.0, 0.0);
        let u = [Vector3::new(0.48, -0.64, 0.6), Vector3::new(-0.48, 0.64, -0.6), Vector3::new(0.0, 0.6, -0.8), Vector3::new(-0.64, -0.48, 0.6), Vector3::new(0.8, 0.0, 0.6)];
        let (i, k) = (vp_fix_i64(vp_i64(5, 0, 4)) as usize, vp_fix_i64(vp_i64(6, 0, 2)));
        let (d, r, c) = (u[i], u[(i + 1) % 5], u[(i + 2) % 5]);
        let z = Vector3::zeros();
        let m0 = Maneuver::from_time_invariant(ep(a), ep(b), thr, w, LocalFrame::VNC);
        vp_check(m0.rate() == z && m0.accel() == z && near(m0.direction().x, 1.0, 1e-9) && m0.duration() == ns(b - a), 1);
        vp_check(m0.antichronological() == (b - a < -1000), 2);
        let mut m = m0;
        let cl = |a: Vector3<f64>, b: Vector3<f64>| near(a.x, b.x, 1e-9) && near(a.y, b.y, 1e-9) && near(a.z, b.z, 1e-9);
        m.set_direction_and_rates(d, if k > 0 { r } else { z }, if k > 1 { c } else { z }).unwrap();
        let is = |m: &Maneuver, x, y, z, id| {
            vp_check(cl(m.direction(), x) && cl(m.rate(), y) && cl(m.accel(), z), id);
            vp_check(m.start == ep(a) && m.end == ep(b) && m.thrust_prct == thr && m.frame == LocalFrame::VNC, id + 1);
            vp_check(cl(m.vector(m.start), x), id + 2);
        };
        let (r1, c1) = (if k > 0 { r } else { z }, if k > 1 { c } else { z });
        is(&m, d, r1, c1, 3);
        let mut n = m;
        n.set_direction(c).unwrap();
        is(&n, c, r1, c1, 6);
        let mut n = m;
        n.set_rate(d).unwrap();
        is(&n, d, d, c1, 9);
        if k > 0 { let mut n = m; n.set_accel(d).unwrap(); is(&n, d, r, d, 12); }
        // vectors that are no directions are refused
        let mut n = m;
        vp_check(n.set_direction_and_rates(Vector3::new(0.0, 0.0, 2.0), r, z).is_err() && n.set_direction_and_rates(d, r, Vector3::new(0.0, 0.0, -2.0)).is_err() && n.set_direction_and_rates(d, Vector3::new(0.0, 1.0, 2.0), z).is_err(), 15);
        is(&n, d, r1, c1, 16);
        let q = Maneuver::from_impulsive(ep(a), w, LocalFrame::RIC);
        vp_check(q.start == ep(a) && q.duration() == ns(1_000_000) && q.thrust_prct == 1.0 && q.vector(ep(b)) == w && q.frame == LocalFrame::RIC, 19);
    }
    /// steering by angles: the polynomials are evaluated from the start of the burn
    fn h_c12_angles() {
        let a = vp_i64(1, E0, E0 + 2_000_000_000_000);
        let dt = vp_i64(2, 0, 3_600_000_000_000);
        let end = vp_i64(10, 0, 3_600_000_000_000);
        let (p, q) = ([v(3, 3.0), v(4, 1e-2), v(5, 1e-4)], [v(6, 1.5), v(7, 1e-2), v(8, 1e-4)]);
        let order = vp_fix_i64(vp_i64(9, 0, 2));
        let mk = |p: [f64; 3]| match order { 0 => CommonPolynomial::Constant { a: p[0] }, 1 => CommonPolynomial::Linear { a: p[1], b: p[0] }, _ => CommonPolynomial::Quadratic { a: p[2], b: p[1], c: p[0] } };
        let m = Maneuver { start: ep(a), end: ep(a + end), thrust_prct: 1.0, representation: MnvrRepr::Angles { azimuth: mk(p), elevation: mk(q) }, frame: LocalFrame::Inertial };
        let d = m.vector(ep(a + dt));
        let t = dt as f64 * 1e-9;
        let ev = |p: [f64; 3]| match order { 0 => p[0], 1 => p[0] + p[1] * t, _ => p[0] + p[1] * t + p[2] * t * t };
        vp_check(near(mk(p).eval(t), ev(p), 1e-6), 1);
        let (az, el) = (mk(p).eval(t), mk(q).eval(t));
        vp_check(near(d.z, el.sin(), 1e-9), 2);
        vp_check(near(d.x, el.cos() * az.cos(), 1e-9) && near(d.y, el.cos() * az.sin(), 1e-9), 3);
        vp_check(near(n2(&d), 1.0, 1e-9), 4);
        let d0 = m.direction();
        vp_check(near(d0.z, q[0].sin(), 1e-9) && near(d0.x, q[0].cos() * p[0].cos(), 1e-9) && near(d0.y, q[0].cos() * p[0].sin(), 1e-9), 5);
        vp_check(m.duration() == ns(end), 6);
    }
    /// an objective is met exactly when its scaled error is within tolerance
    fn h_c12_objective() {
        let mut o = Objective::within_tolerance(par(El::X), v(1, 1e5), vp_f64(2, 0.0, 100.0));
        let s = sc(orbit(100, ep(E0)));
        let (ok, err) = o.assess(&s).unwrap();
        let e = o.desired_value - s.orbit.radius_km.x;
        vp_check(err == e, 1);
        vp_check(ok == (e <= o.tolerance && e >= -o.tolerance), 2);
        o.multiplicative_factor = v(3, 10.0);
        o.additive_factor = v(4, 10.0);
        let (ok, err) = o.assess(&s).unwrap();
        let w = o.multiplicative_factor * e + o.additive_factor;
        vp_check(near(err, w, 1e-6), 3);
        vp_check(ok == (err <= o.tolerance && err >= -o.tolerance), 4);
    }
    /// Ruggiero, semi-major axis: 20 orbits, any target, tolerance, mode
    fn h_c12_rugg_sma() { rugg(El::SemiMajorAxis); }
    /// Ruggiero, eccentricity
    fn h_c12_rugg_ecc() { rugg(El::Eccentricity); }
    /// Ruggiero, inclination
    fn h_c12_rugg_inc() { rugg(El::Inclination); }
    /// Ruggiero, RAAN
    fn h_c12_rugg_raan() { rugg(El::RAAN); }
    /// Ruggiero, argument of periapsis
    fn h_c12_rugg_aop() { rugg(El::AoP); }
    /// Ruggiero: an objective is steered exactly when its share of the best rate of change over the orbit reaches the threshold (20 orbits, 3 elements, any threshold)
    fn h_c12_rugg_efficiency() {
        let o = some_orbit(1, 20);
        let el = [El::SemiMajorAxis, El::Inclination, El::RAAN][vp_fix_i64(vp_i64(2, 0, 2)) as usize];
        let th = vp_f64(3, 0.0, 1.0);
        let now = el.evaluate(o).unwrap();
        let law = Ruggiero::from_ηthresholds(&[Objective::within_tolerance(par(el), now + 5.0, 1e-3)], &[th], sc(o)).unwrap();
        let (e, w) = (o.ecc().unwrap(), o.aop_deg().unwrap().to_radians());
        // the rate of change as a function of the true anomaly, up to a constant of the orbit
        let rate = |t: f64| match el { El::SemiMajorAxis => (1.0 + e * e + 2.0 * e * t.cos()).sqrt(), El::Inclination => (t + w).cos().abs() / (1.0 + e * t.cos()), _ => (t + w).sin().abs() / (1.0 + e * t.cos()) };
        let mut best: f64 = 0.0;
        for k in 0..1440 { best = best.max(rate(k as f64 * std::f64::consts::PI / 720.0)); }
        let eta = rate(o.ta_deg().unwrap().to_radians()) / best;
        vp_assume(!near(eta, th, 1e-4));
        let mut s = sc(o);
        s.mut_mode(GuidanceMode::Thrust);
        vp_check(law.throttle(&s).unwrap() == if eta > th { 1.0 } else { 0.0 }, 1);
        vp_check((n2(&law.direction(&s).unwrap()) > 0.5) == (eta > th), 2);
    }
    /// Kluever, semi-major axis
    fn h_c12_kluev_sma() { kluev(El::SemiMajorAxis); }
    /// Kluever, eccentricity
    fn h_c12_kluev_ecc() { kluev(El::Eccentricity); }
    /// Kluever, inclination
    fn h_c12_kluev_inc() { kluev(El::Inclination); }
    /// Kluever, RAAN
    fn h_c12_kluev_raan() { kluev(El::RAAN); }
    /// Kluever, equinoctial h
    fn h_c12_kluev_h() { kluev(El::EquinoctialH); }
    /// Kluever, equinoctial k
    fn h_c12_kluev_k() { kluev(El::EquinoctialK); }
    /// Kluever, equinoctial p
    fn h_c12_kluev_p() { kluev(El::EquinoctialP); }
    /// Kluever, equinoctial q
    fn h_c12_kluev_q() { kluev(El::EquinoctialQ); }
    /// Ruggiero: two objectives, 2 x 4 targets, 5 orbits, any thresholds; combined steering is a unit vector, weighted sum of the single ones; efficiency thresholds switch objectives off
    fn h_c12_rugg_two() {
        let o = some_orbit(1, 5);
        let t1 = [8200.0, 31000.0][vp_fix_i64(vp_i64(2, 0, 1)) as usize];
        let t2 = [5.0, 28.5, 80.0, 170.0][vp_fix_i64(vp_i64(3, 0, 3)) as usize];
        let i0 = sc(Orbit::keplerian(11000.0, 0.1, 20.0, 40.0, 50.0, 60.0, ep(E0), earth()));
        vp_assume(!near(t1, 11000.0, 10.0) && !near(t2, 20.0, 1.0));
        let (a, i) = (o.sma_km().unwrap(), o.inc_deg().unwrap());
        vp_assume(!near(t1, a, 1.1) && !near(t2, i, 0.11));
        let th = [vp_f64(4, 0.0, 1.0), vp_f64(5, 0.0, 1.0)];
        let ob = [Objective::within_tolerance(par(El::SemiMajorAxis), t1, 1.0), Objective::within_tolerance(par(El::Inclination), t2, 0.1)];
        let e1 = Ruggiero::efficiency(&par(El::SemiMajorAxis), &o).unwrap();
        let e2 = Ruggiero::efficiency(&par(El::Inclination), &o).unwrap();
        let law = Ruggiero::from_ηthresholds(&ob, &th, i0).unwrap();
        let mut s = sc(o);
        s.mut_mode(GuidanceMode::Thrust);
        let d = law.direction(&s).unwrap();
        let thr = law.throttle(&s).unwrap();
        let (on1, on2) = (e1 >= th[0], e2 >= th[1]);
        vp_check((thr == 1.0) == (on1 || on2), 1);
        vp_check((thr == 0.0) == !(on1 || on2), 2);
        let (ga, gi) = (grad(&o, El::SemiMajorAxis), grad(&o, El::Inclination));
        let pa = (ga.x * d.x + ga.y * d.y + ga.z * d.z) / ga.norm();
        let pi = (gi.x * d.x + gi.y * d.y + gi.z * d.z) / gi.norm();
        // in-plane and out-of-plane shares are in the ratio of the remaining to the initial errors
        let w1 = (t1 - a) / if t1 > 11000.0 { t1 - 11000.0 } else { 11000.0 - t1 };
        let w2 = (t2 - i) / if t2 > 20.0 { t2 - 20.0 } else { 20.0 - t2 };
        vp_check(if on1 { pa * w1 > 0.0 } else { near(pa, 0.0, 1e-6) }, 3);
        vp_check(if on2 { pi * w2 > 0.0 } else { near(pi, 0.0, 1e-6) }, 4);
        if on1 && on2 { vp_check(near(pa * w2, pi * w1, 1e-4 * (w1 * w1 + w2 * w2 + 1.0)), 5); }
        if on1 || on2 { vp_check(near(n2(&d), 1.0, 1e-6), 6); }
    }
    /// Ruggiero configuration: one to five supported objectives with enough thresholds
    fn h_c12_rugg_config() {
        let n = vp_fix_i64(vp_i64(1, 0, 7)) as usize;
        let k = vp_fix_i64(vp_i64(2, 0, 7)) as usize;
        let bad = vp_fix_i64(vp_i64(3, 0, 8)) as usize;
        let all = [El::SemiMajorAxis, El::Eccentricity, El::Inclination, El::RAAN, El::AoP];
        let ob: Vec<Objective> = (0..n).map(|i| Objective::within_tolerance(par(if i == bad { El::TrueAnomaly } else { all[i % 5] }), 1.0, 0.1)).collect();
        let s = sc(fixed_orbit(ep(E0)));
        let ok = n >= 1 && n <= 5 && bad >= n;
        vp_check(Ruggiero::simple(&ob, s).is_ok() == ok, 1);
        vp_check(Ruggiero::from_max_eclipse(&ob, s, 0.2).is_ok() == ok, 2);
        let th = vec![0.25; k];
        match Ruggiero::from_ηthresholds(&ob, &th, s) {
            Ok(r) => { vp_check(ok && k >= n, 3); vp_check(r.objectives.len() == n && r.max_eclipse_prct.is_none(), 4); for o in &r.objectives { vp_check(o.efficiency == 0.25, 5); } }
            Err(_) => vp_check(!(ok && k >= n), 6),
        }
    }
    /// no thrust while the Sun is eclipsed by more than the limit: Ruggiero
    fn h_c12_eclipse_rugg() {
        let max = vp_f64(3, 0.0, 100.0);
        let i0 = sc(fixed_orbit(ep(E0)));
        eclipse(&*Ruggiero::from_max_eclipse(&[Objective::within_tolerance(par(El::SemiMajorAxis), 42000.0, 1.0)], i0, max).unwrap(), max);
    }
    /// the same, Kluever
    fn h_c12_eclipse_kluev() {
        let max = vp_f64(3, 0.0, 100.0);
        eclipse(&*Kluever::from_max_eclipse(&[Objective::within_tolerance(par(El::SemiMajorAxis), 42000.0, 1.0)], &[1.0], max), max);
    }
    /// replay holds the command of the latest sample at or before the epoch; nothing outside the profile
    fn h_c12_replay() {
        let (a, b, c) = (vp_i64(1, E0, E0 + 1000), vp_i64(2, E0, E0 + 1000), vp_i64(3, E0, E0 + 1000));
        vp_assume(a < b && b < c);
        let t = vp_i64(4, E0 - 100, E0 + 1100);
        let mut states = vec![];
        let mut cmd = vec![];
        for (i, e) in [a, b, c].iter().enumerate() {
            let mut s = sc(fixed_orbit(ep(*e)));
            let on = vp_fix_i64(vp_i64(10 + i as u32, 0, 1)) == 1;
            if on {
                s.mut_thrust_direction(Some(Vector3::new(v(20 + i as u32, 1.0), 0.5, 0.0)));
                s.mut_mode(GuidanceMode::Thrust);
            } else { s.mut_mode(GuidanceMode::Coast); }
            cmd.push(s.thrust_direction());
            states.push(s);
        }
        let mut tr = Trajectory::new();
        tr.states = states;
        let law = ThrustDirectionReplay::from_trajectory(tr);
        let mut s = sc(fixed_orbit(ep(t)));
        s.mut_mode(modes(5));
        let want = if t < a || t > c { None } else if t >= c { cmd[2] } else if t >= b { cmd[1] } else { cmd[0] };
        let d = law.direction(&s).unwrap();
        let thr = law.throttle(&s).unwrap();
        let ach = law.achieved(&s).unwrap();
        law.next(&mut s, &Almanac::default());
        match want {
            Some(w) => { vp_check(d == w && thr == 1.0, 1); vp_check(s.mode() == GuidanceMode::Thrust && s.thrust_direction() == Some(w), 2); }
            None => { vp_check(n2(&d) == 0.0 && thr == 0.0, 3); vp_check(s.mode() == GuidanceMode::Coast && s.thrust_direction().is_none(), 4); }
        }
        vp_check(ach == (t > c), 5);
    }
}
