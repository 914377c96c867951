use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, MOON_J2000, SUN_J2000};
use anise::prelude::{Almanac, Frame};
use nyx_space::Spacecraft;
use nyx_space::cosmic::Orbit;
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::dynamics::solid_tides::{SolidTides, TidalPerturber};
use nyx_space::dynamics::{AccelModel, AtmDensity, ConstantDrag, Drag, ForceModel, GravityField, PointMasses, SolarPressure};
use nyx_space::io::gravity::GravityFieldData;
use nyx_space::linalg::{DMatrix, Matrix3, Vector3};
use vpharness::alm::*;
use vpharness::sc::*;
use vpharness::*;

const MU: f64 = 398600.4418;
const R: f64 = 6378.0;
/// bodies: Earth, Moon, Sun
fn al(moon: [f64; 3], sun: [f64; 3]) -> Almanac { almanac(&[body(399, 0, [0.0; 3], [0.0; 3]), body(301, 0, moon, [0.0; 3]), body(10, 0, sun, [0.0; 3])], &[(399, MU, R), (301, 4902.8, 1737.4), (10, 1.327e11, 696000.0)]) }
fn usual() -> Almanac { al([2.5e5, 2.8e5, -5e4], [1.2e8, -8e7, -3e7]) }
fn info(a: &Almanac, f: Frame) -> Frame { a.frame_info(f).unwrap() }
/// concrete positions: generic ones, over a pole, on an axis, low and high
fn place(id: u32) -> [f64; 3] { [[5000.0, -4000.0, 3500.0], [-1200.0, 6900.0, -900.0], [0.0, 0.0, 7100.0], [8000.0, 0.0, 0.0], [-26000.0, -15000.0, 32000.0], [30.0, -20.0, -6800.0]][vp_fix_i64(vp_i64(id, 0, 5)) as usize] }
fn at(p: [f64; 3]) -> Orbit { Orbit::new(p[0], p[1], p[2], 1.0, 7.0, -0.5, ep(E0), earth()) }
fn craft_at(o: Orbit) -> Spacecraft { let mut s = Spacecraft::new(o, 100.0, 20.0, 1.0, 1.0, 1.0, 1.0); s.srp.area_m2 = vp_f64(1, 0.0, 100.0); s.srp.coeff_reflectivity = vp_f64(2, 0.0, 2.0); s.drag.area_m2 = vp_f64(3, 0.0, 100.0); s.drag.coeff_drag = vp_f64(4, 0.0, 4.0); s }

/// value, gradient and Hessian of a function of position
#[derive(Copy, Clone)]
struct J { v: f64, g: [f64; 3], h: [[f64; 3]; 3] }
impl J {
    fn c(v: f64) -> J { J { v, g: [0.0; 3], h: [[0.0; 3]; 3] } }
    fn x(i: usize, v: f64) -> J { let mut j = J::c(v); j.g[i] = 1.0; j }
    fn fun(self, f: f64, f1: f64, f2: f64) -> J { let mut o = J::c(f); for i in 0..3 { o.g[i] = f1 * self.g[i]; for k in 0..3 { o.h[i][k] = f1 * self.h[i][k] + f2 * self.g[i] * self.g[k]; } } o }
    /// to the power n / 2
    fn pow2(self, n: i32) -> J { let p = |k: i32| if k % 2 == 0 { self.v.powi(k / 2) } else { self.v.sqrt().powi(k) }; let e = n as f64 / 2.0; self.fun(p(n), e * p(n - 2), e * (e - 1.0) * p(n - 4)) }
    fn s(self, k: f64) -> J { self.fun(self.v * k, k, 0.0) }
}
impl std::ops::Add for J { type Output = J; fn add(self, b: J) -> J { let mut o = J::c(self.v + b.v); for i in 0..3 { o.g[i] = self.g[i] + b.g[i]; for k in 0..3 { o.h[i][k] = self.h[i][k] + b.h[i][k]; } } o } }
impl std::ops::Mul for J { type Output = J; fn mul(self, b: J) -> J { let mut o = J::c(self.v * b.v); for i in 0..3 { o.g[i] = self.g[i] * b.v + b.g[i] * self.v; for k in 0..3 { o.h[i][k] = self.h[i][k] * b.v + b.h[i][k] * self.v + self.g[i] * b.g[k] + b.g[i] * self.g[k]; } } o } }
fn pos(p: &Vector3<f64>) -> [J; 3] { [J::x(0, p[0]), J::x(1, p[1]), J::x(2, p[2])] }
fn dot(a: &[J; 3], b: &[J; 3]) -> J { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
/// the solid harmonics of degree n and order m of a body of radius R, not normalised (Cunningham), and their normalisation factor
fn solid(p: &Vector3<f64>, n: usize, m: usize) -> (J, J, f64) {
    let q = pos(p);
    let i2 = dot(&q, &q).pow2(-2);
    let (x, y, z, r) = (q[0] * i2.s(R), q[1] * i2.s(R), q[2] * i2.s(R), i2.s(R * R));
    let (mut a, mut b) = (dot(&q, &q).pow2(-1).s(R), J::c(0.0));
    for k in 1..=m { let w = 2.0 * k as f64 - 1.0; let c = (x * a + (y * b).s(-1.0)).s(w); b = (x * b + y * a).s(w); a = c; }
    let (mut a0, mut b0) = (J::c(0.0), J::c(0.0));
    for k in m + 1..=n {
        let (kf, mf) = (k as f64, m as f64);
        let f = |c: J, c0: J| (z * c).s((2.0 * kf - 1.0) / (kf - mf)) + (r * c0).s(-(kf + mf - 1.0) / (kf - mf));
        let (c, d) = (f(a, a0), f(b, b0));
        a0 = a; b0 = b; a = c; b = d;
    }
    let mut f = (2.0 * n as f64 + 1.0) * if m == 0 { 1.0 } else { 2.0 };
    for k in n - m + 1..=n + m { f /= k as f64; }
    (a, b, f.sqrt())
}
fn check(id: u32, got: &(Vector3<f64>, Matrix3<f64>), eom: &Vector3<f64>, a: [f64; 3], g: [[f64; 3]; 3], tol: f64) {
    for i in 0..3 {
        vp_check(near(eom[i], a[i], tol), id);
        vp_check(near(got.0[i], a[i], tol), id + 1);
        for j in 0..3 { vp_check(near(got.1[(i, j)], g[i][j], tol * 1e-3), id + 2); }
    }
}
/// from body-fixed axes: d rotates the integration frame to the body
fn unrotate(d: &Matrix3<f64>, a: [f64; 3], g: [[f64; 3]; 3]) -> ([f64; 3], [[f64; 3]; 3]) {
    let (mut x, mut y) = ([0.0; 3], [[0.0; 3]; 3]);
    for i in 0..3 { for k in 0..3 { x[i] += d[(k, i)] * a[k]; for j in 0..3 { for l in 0..3 { y[i][j] += d[(k, i)] * g[k][l] * d[(l, j)]; } } } }
    (x, y)
}
fn field(n: usize, m: usize) {
    let a = usual();
    let (mut c, mut s) = (DMatrix::from_element(n + 1, n + 1, 0.0), DMatrix::from_element(n + 1, n + 1, 0.0));
    for i in 1..=n { for j in 0..=i.min(m) { c[(i, j)] = v(100 + 10 * i as u32 + j as u32, 1.0); if j > 0 { s[(i, j)] = v(200 + 10 * i as u32 + j as u32, 1.0); } } }
    let fixed = info(&a, IAU_EARTH_FRAME);
    let o = at(place(5));
    let f = GravityField::new(GravityFieldData::from_coefficients(c.clone(), s.clone(), n, m, fixed));
    let d = a.rotate(o.frame, fixed, o.epoch).unwrap().rot_mat;
    let p = d * o.radius_km;
    let (mut x, mut y) = ([0.0; 3], [[0.0; 3]; 3]);
    for i in 1..=n { for j in 0..=i.min(m) {
        let (vv, ww, k) = solid(&p, i, j);
        for q in 0..3 { x[q] += k * MU / R * (c[(i, j)] * vv.g[q] + s[(i, j)] * ww.g[q]); for l in 0..3 { y[q][l] += k * MU / R * (c[(i, j)] * vv.h[q][l] + s[(i, j)] * ww.h[q][l]); } }
    } }
    let (x, y) = unrotate(&d, x, y);
    check(1, &f.gradient(&o, &a).unwrap(), &f.eom(&o, &a).unwrap(), x, y, 1e-9);
}
fn norm3(x: &[f64; 3]) -> f64 { (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt() }

harnesses! {
    /// Moon and Sun at arbitrary places, the spacecraft anywhere, the central body listed or not
    fn h_c17_third() {
        let p = [v(10, 1e5), v(11, 1e5), v(12, 1e5)];
        let b = [v(13, 5e5), v(14, 5e5), v(15, 5e5)];
        let a = al(b, [1.2e8, -8e7, -3e7]);
        let o = at(p);
        let list = [vec![301], vec![399, 301]][vp_fix_i64(vp_i64(1, 0, 1)) as usize].clone();
        let d = [p[0] - b[0], p[1] - b[1], p[2] - b[2]];
        vp_assume(norm3(&d) > 2e3 && norm3(&b) > 1e4);
        let m = PointMasses::new(list);
        let (e, g) = (m.eom(&o, &a).unwrap(), m.gradient(&o, &a).unwrap());
        let (d1, b1) = (norm3(&d), norm3(&b));
        let (d3, b3) = (d1 * d1 * d1, b1 * b1 * b1);
        for i in 0..3 {
            let w = -4902.8 * (d[i] / d3 + b[i] / b3);
            vp_check(near(e[i], w, 1e-12), 1);
            vp_check(near(g.0[i], w, 1e-12), 2);
            for j in 0..3 { let k = -4902.8 * ((if i == j { 1.0 } else { 0.0 }) / d3 - 3.0 * d[i] * d[j] / (d3 * d1 * d1)); vp_check(near(g.1[(i, j)], k, 1e-15), 3); }
        }
    }
    /// several bodies add up; the spacecraft around another body
    fn h_c17_thirds() {
        let a = usual();
        let p = place(5);
        let mut o = at(p);
        let c = vp_fix_i64(vp_i64(6, 0, 1));
        if c == 1 { o.frame = info(&a, MOON_J2000); }
        let me = if c == 1 { a.transform(MOON_J2000, EARTH_J2000, ep(E0), None).unwrap().radius_km } else { Vector3::zeros() };
        let m = PointMasses::new(vec![10, 301, 399]);
        let (e, g) = (m.eom(&o, &a).unwrap(), m.gradient(&o, &a).unwrap());
        let (mut x, mut y) = ([0.0; 3], [[0.0; 3]; 3]);
        for (k, mu, q) in [(2, 1.327e11, Vector3::new(1.2e8, -8e7, -3e7)), (1, 4902.8, Vector3::new(2.5e5, 2.8e5, -5e4)), (0, MU, Vector3::zeros())] {
            if k == c { continue; }
            let b = q - me;
            let mut d = pos(&o.radius_km);
            for i in 0..3 { d[i] = d[i] + J::c(-b[i]); }
            let u = dot(&d, &d).pow2(-1).s(mu);
            for i in 0..3 { x[i] += u.g[i] - mu * b[i] / b.norm().powi(3); for j in 0..3 { y[i][j] += u.h[i][j]; } }
        }
        check(1, &g, &e, x, y, 1e-12);
    }
    /// degree and order 4, arbitrary coefficients
    fn h_c17_field44() { field(4, 4); }
    fn h_c17_field20() { field(2, 0); }
    fn h_c17_field52() { field(5, 2); }
    fn h_c17_field33() { field(3, 3); }
    fn h_c17_field61() { field(6, 1); }
    /// degree and order 8
    fn h_c17_field88() { field(8, 8); }
    /// degree 14, order 12
    //@ tier=thorough time=300
    fn h_c17_field1412() { field(14, 12); }
    /// what the constructors promise
    fn h_c17_builders() {
        let a = usual();
        let phi = vp_f64(1, 0.0, 2000.0);
        let same = |s: &SolarPressure, phi: f64, est: bool| {
            vp_check(s.phi == phi && s.estimate == est && s.estimation_index() == if est { Some(6) } else { None }, 1);
            vp_check(s.shadow_model.light_source == info(&a, SUN_J2000) && s.shadow_model.shadow_bodies == vec![info(&a, EARTH_J2000), info(&a, MOON_J2000)], 2);
        };
        let b = || vec![EARTH_J2000, MOON_J2000];
        same(&SolarPressure::new(b(), &a).unwrap(), 1367.0, true);
        same(&SolarPressure::default_no_estimation(b(), &a).unwrap(), 1367.0, false);
        same(&SolarPressure::with_flux(phi, b(), &a).unwrap(), phi, true);
        vp_check(SolarPressure::default_flux(MOON_J2000, &a).unwrap().shadow_model.shadow_bodies == vec![info(&a, MOON_J2000)], 3);
        let c = ShadowModel::cislunar(&a);
        vp_check(c.light_source == info(&a, SUN_J2000) && c.shadow_bodies == vec![info(&a, EARTH_J2000), info(&a, MOON_J2000)], 4);
        let e = Drag::earth_exp(&a).unwrap();
        vp_check(e.frame == info(&a, IAU_EARTH_FRAME) && matches!(e.density, AtmDensity::Exponential { .. }) && e.estimation_index().is_none(), 5);
        vp_check(Drag { estimate: true, ..*e }.estimation_index() == Some(7), 6);
        let e = Drag::std_atm1976(&a).unwrap();
        vp_check(e.frame == info(&a, IAU_EARTH_FRAME) && matches!(e.density, AtmDensity::StdAtm { max_alt_m } if max_alt_m == 1e6), 7);
        let t = SolidTides::earth_moon_system(IAU_EARTH_FRAME, MOON_J2000, &a).unwrap();
        vp_check(t.frame == info(&a, IAU_EARTH_FRAME) && t.k2 == 0.3019 && t.k3 == 0.093 && t.perturbers.len() == 2, 8);
        vp_check(t.perturbers[0] == TidalPerturber { frame: info(&a, MOON_J2000), compute_degree_3: true } && t.perturbers[1] == TidalPerturber { frame: info(&a, SUN_J2000), compute_degree_3: false }, 9);
        // a J2 field has only that term
        let j = v(2, 1.0);
        let g = GravityFieldData::from_j2(j, info(&a, IAU_EARTH_FRAME));
        vp_check(g.max_degree_n() == 2 && g.max_order_m() == 0 && g.cs_nm(2, 0) == (j, 0.0) && g.cs_nm(0, 0) == (0.0, 0.0) && g.cs_nm(1, 0) == (0.0, 0.0), 10);
        // gradients of drag are not available, and say so
        vp_check(e.gradient(&craft_at(at([7000.0, 0.0, 0.0])), &a).is_err(), 11);
    }
    /// arbitrary Love numbers, two perturbing bodies, with and without degree 3
    fn h_c17_tides() {
        // the Moon anywhere or over a pole
        let a = match vp_fix_i64(vp_i64(13, 0, 2)) { 0 => usual(), 1 => al([0.0, 0.0, 3.9e5], [1.2e8, -8e7, -3e7]), _ => al([1e5, 0.0, -3.7e5], [1.2e8, -8e7, -3e7]) };
        let (k2, k3) = (v(10, 1.0), v(11, 1.0));
        let fixed = info(&a, IAU_EARTH_FRAME);
        let w = vp_fix_i64(vp_i64(12, 0, 2));
        let mut pert = vec![];
        if w != 1 { pert.push((301, 4902.8, w == 2)); }
        if w != 0 { pert.push((10, 1.327e11, true)); }
        let t = SolidTides { frame: fixed, k2, k3, perturbers: pert.iter().map(|(i, _, d)| TidalPerturber { frame: info(&a, Frame::from_ephem_j2000(*i)), compute_degree_3: *d }).collect() };
        let o = at(place(5));
        let (mut x, mut y) = ([0.0; 3], [[0.0; 3]; 3]);
        for (i, mu, d3) in pert {
            let b = a.transform(Frame::from_ephem_j2000(i), EARTH_J2000, ep(E0), None).unwrap().radius_km;
            let rb = b.norm();
            let q = pos(&o.radius_km);
            let n2 = dot(&q, &q);
            let c = dot(&q, &[J::c(b[0] / rb), J::c(b[1] / rb), J::c(b[2] / rb)]);
            // k_n mu_b R^(2n+1) / (r_b^(n+1) r^(n+1)) P_n(cos)
            let u2 = ((c * c * n2.pow2(-5)).s(1.5) + n2.pow2(-3).s(-0.5)).s(mu * R.powi(5) / rb.powi(3));
            let u3 = ((c * c * c * n2.pow2(-7)).s(2.5) + (c * n2.pow2(-5)).s(-1.5)).s(mu * R.powi(7) / rb.powi(4));
            for i in 0..3 { x[i] += k2 * u2.g[i] + if d3 { k3 * u3.g[i] } else { 0.0 }; for j in 0..3 { y[i][j] += k2 * u2.h[i][j] + if d3 { k3 * u3.h[i][j] } else { 0.0 }; } }
        }
        check(1, &t.gradient(&o, &a).unwrap(), &t.eom(&o, &a).unwrap(), x, y, 1e-15);
    }
    /// full Sun anywhere on three planes
    fn h_c17_srp() {
        let mut s = [v(13, 3e8), v(14, 3e8), v(15, 3e8)];
        s[vp_fix_i64(vp_i64(16, 0, 2)) as usize] = -1.2e8;
        vp_assume(norm3(&s) > 1e6);
        let a = al([3e5, 0.0, 0.0], s);
        let c = craft_at(at([5000.0, -4000.0, 3500.0]));
        let phi = vp_f64(5, 0.0, 2000.0);
        let m = SolarPressure { phi, shadow_model: ShadowModel { light_source: info(&a, SUN_J2000), shadow_bodies: vec![] }, estimate: true };
        let (f, g) = m.gradient(&c, &a).unwrap();
        let e = m.eom(&c, &a).unwrap();
        let d = [c.orbit.radius_km.x - s[0], c.orbit.radius_km.y - s[1], c.orbit.radius_km.z - s[2]];
        let d1 = norm3(&d);
        let au = 149_597_870.7;
        // per coefficient of reflectivity
        let k = 1e-3 * c.srp.area_m2 * phi / 299_792_458.0 * au * au;
        let d3 = d1 * d1 * d1;
        for i in 0..3 {
            vp_check(near(e[i], c.srp.coeff_reflectivity * k * d[i] / d3, 1e-12), 1);
            vp_check(near(f[i], c.srp.coeff_reflectivity * k * d[i] / d3, 1e-12), 2);
            vp_check(near(g[(3, i)], k * d[i] / d3, 1e-12), 3);
            for j in 0..3 { vp_check(near(g[(i, j)], c.srp.coeff_reflectivity * k * ((if i == j { 1.0 } else { 0.0 }) / d3 - 3.0 * d[i] * d[j] / (d3 * d1 * d1)), 1e-17), 4); }
        }
        vp_check(m.estimation_index() == Some(6) && SolarPressure { estimate: false, ..m }.estimation_index().is_none(), 5);
    }
    /// shadow of the Earth and the Moon: dark in the umbra, in part in the penumbra, and the darkest of both
    fn h_c17_shadow() {
        // the Sun far along -x; the Moon aside or between
        let k = vp_fix_i64(vp_i64(6, 0, 7));
        let moon = if k >= 6 { [-50000.0, 6500.0, 0.0] } else if k >= 4 { [-3.8e5, 0.0, 0.0] } else { [0.0, 3.8e5, 0.0] };
        let a = al(moon, [-1.5e8, 0.0, 0.0]);
        let p = [[7000.0, 10.0, 20.0], [-7000.0, 10.0, 20.0], [7000.0, 6365.0, 0.0], [20000.0, 6378.0, 0.0], [-7000.0, 0.0, 0.0], [-7000.0, 900.0, 0.0], [10000.0, 6360.0, 0.0], [10000.0, 6375.0, 1750.0]][k as usize];
        let c = craft_at(at(p));
        let phi = vp_f64(5, 0.0, 2000.0);
        let (e, m) = (info(&a, EARTH_J2000), info(&a, MOON_J2000));
        let bodies = match vp_fix_i64(vp_i64(7, 0, 2)) { 0 => vec![e], 1 => vec![e, m], _ => vec![m, e] };
        let oe = a.solar_eclipsing(e, c.orbit, None).unwrap().percentage;
        let om = a.solar_eclipsing(m, c.orbit, None).unwrap().percentage;
        let w = if bodies.len() == 2 && om > oe { om } else { oe };
        if k == 0 { vp_check(w > 99.99, 1); }
        if k == 1 { vp_check(w < 0.01, 2); }
        // both bodies in front of the Sun
        if k == 6 { vp_check(oe > 1.0 && om > oe + 1.0, 7); }
        let s = SolarPressure { phi, shadow_model: ShadowModel { light_source: info(&a, SUN_J2000), shadow_bodies: bodies }, estimate: true };
        vp_check(near(s.shadow_model.compute(c.orbit, &a).unwrap().percentage, w, 1e-9), 3);
        let d = c.orbit.radius_km - Vector3::new(-1.5e8, 0.0, 0.0);
        let au = 149_597_870.7;
        let q = 1e-3 * c.srp.area_m2 * phi / 299_792_458.0 * (au / d.norm()) * (au / d.norm()) * (1.0 - w / 100.0);
        let f = s.eom(&c, &a).unwrap();
        let (h, g) = s.gradient(&c, &a).unwrap();
        for i in 0..3 {
            vp_check(near(f[i], c.srp.coeff_reflectivity * q * d[i] / d.norm(), 1e-12), 4);
            vp_check(near(h[i], c.srp.coeff_reflectivity * q * d[i] / d.norm(), 1e-12), 5);
            vp_check(near(g[(3, i)], q * d[i] / d.norm(), 1e-12), 6);
        }
    }
    /// drag against the motion relative to the rotating atmosphere, in the axes of the orbit, for each density model
    fn h_c17_drag() {
        let a = usual();
        let k = vp_fix_i64(vp_i64(6, 0, 3)) as usize;
        let (p, w) = [([6700.0, 300.0, -500.0], [0.5, 7.6, 1.2]), ([-900.0, 6400.0, 2600.0], [-7.0, -1.0, 3.0]), ([100.0, -200.0, 7400.0], [7.2, 0.5, 0.0]), ([-9000.0, 0.0, 0.0], [0.0, 0.1, 6.5])][k];
        let c = craft_at(Orbit::new(p[0], p[1], p[2], w[0], w[1], w[2], ep(E0), earth()));
        let fixed = info(&a, IAU_EARTH_FRAME);
        let rho0 = vp_f64(7, 0.0, 1e-9);
        let alt = c.orbit.radius_km.norm() - R;
        let om = 360.9856f64.to_radians() / 86400.0;
        let r = Vector3::new(w[0] + om * p[1], w[1] - om * p[0], w[2]);
        let d = vp_fix_i64(vp_i64(8, 0, 3));
        let (f, rho) = match d {
            0 => (ConstantDrag { rho: rho0, frame: fixed, estimate: false }.eom(&c, &a).unwrap(), rho0),
            1 => (Drag { density: AtmDensity::Constant(rho0), frame: fixed, estimate: false }.eom(&c, &a).unwrap(), rho0),
            2 => (Drag { density: AtmDensity::Exponential { rho0, r0: 400e3, ref_alt_m: 60e3 }, frame: fixed, estimate: false }.eom(&c, &a).unwrap(), rho0 * (-(alt - 400.0) / 60.0).exp()),
            _ => {
                let x = (alt - 526.8) / 292.8563;
                let l = if alt > 1000.0 { -7e-5 * alt - 14.464 } else { 0.34047 * x.powi(6) - 0.5889 * x.powi(5) - 0.5269 * x.powi(4) + 1.0036 * x.powi(3) + 0.60713 * x * x - 2.3024 * x - 12.575 };
                (Drag { density: AtmDensity::StdAtm { max_alt_m: 1e6 }, frame: fixed, estimate: false }.eom(&c, &a).unwrap(), 10f64.powf(l))
            }
        };
        // the density when rho0 is 1
        let unit = match d { 2 => (-(alt - 400.0) / 60.0).exp(), 3 => rho, _ => 1.0 };
        let q = c.drag.coeff_drag * c.drag.area_m2;
        for i in 0..3 { vp_check(near(f[i] / unit, -0.5 * 1e3 * rho / unit * q * r.norm() * r[i], if d == 3 { 10.0 } else { 1e-8 }), 1); }
    }
    /// with any velocity, in the axes of the orbit itself
    fn h_c17_drag_velocity() {
        let a = usual();
        let w = [v(10, 20.0), v(11, 20.0), v(12, 20.0)];
        let c = craft_at(Orbit::new(6700.0, 300.0, -500.0, w[0], w[1], w[2], ep(E0), earth()));
        let rho = vp_f64(7, 0.0, 1e-9);
        let f = match vp_fix_i64(vp_i64(8, 0, 1)) {
            0 => ConstantDrag { rho, frame: info(&a, EARTH_J2000), estimate: true }.eom(&c, &a).unwrap(),
            _ => Drag { density: AtmDensity::Constant(rho), frame: info(&a, EARTH_J2000), estimate: true }.eom(&c, &a).unwrap(),
        };
        for i in 0..3 { vp_check(near(f[i], -0.5 * 1e3 * rho * c.drag.coeff_drag * c.drag.area_m2 * norm3(&w) * w[i], 1e-12), 1); }
    }
}
