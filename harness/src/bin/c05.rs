use anise::prelude::Almanac;
use nyx_space::State;
use nyx_space::cosmic::{GuidanceMode, Orbit};
use nyx_space::dynamics::guidance::{GuidanceError, GuidanceLaw, Thruster};
use nyx_space::dynamics::{AccelModel, Dynamics, DynamicsError, ForceModel, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::linalg::{Const, Matrix3, Matrix4x3, OVector, Vector3};
use nyx_space::Spacecraft;
use std::fmt;
use std::sync::Arc;
use vpharness::sc::*;
use vpharness::*;

type V90 = OVector<f64, Const<90>>;
const MU: f64 = 398600.4418;

/// arbitrary force with an arbitrary gradient (reported values are free)
struct F { f: [f64; 3], g: [f64; 12], idx: Option<usize>, at: i64 }
impl fmt::Display for F { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl ForceModel for F {
    fn estimation_index(&self) -> Option<usize> { self.idx }
    fn eom(&self, ctx: &Spacecraft, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> { vp_check(ctx.epoch() == ep(self.at), 90); Ok(Vector3::new(self.f[0], self.f[1], self.f[2])) }
    fn gradient(&self, ctx: &Spacecraft, _: &Almanac) -> Result<(Vector3<f64>, Matrix4x3<f64>), DynamicsError> {
        vp_check(ctx.epoch() == ep(self.at), 91);
        Ok((Vector3::new(self.f[0], self.f[1], self.f[2]), Matrix4x3::from_row_slice(&self.g)))
    }
}
fn force(base: u32, idx: Option<usize>, at: i64) -> F {
    let mut f = F { f: [0.0; 3], g: [0.0; 12], idx, at };
    for i in 0..3 { f.f[i] = v(base + i as u32, 10.0); }
    for i in 0..12 { f.g[i] = v(base + 10 + i as u32, 10.0); }
    f
}
struct A { a: [f64; 3], g: [f64; 9], at: i64 }
impl fmt::Display for A { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl AccelModel for A {
    fn eom(&self, o: &Orbit, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> { vp_check(o.epoch == ep(self.at), 92); Ok(Vector3::new(self.a[0], self.a[1], self.a[2])) }
    fn gradient(&self, o: &Orbit, _: &Almanac) -> Result<(Vector3<f64>, Matrix3<f64>), DynamicsError> {
        vp_check(o.epoch == ep(self.at), 93);
        Ok((Vector3::new(self.a[0], self.a[1], self.a[2]), Matrix3::from_row_slice(&self.g)))
    }
}
fn accel(base: u32, at: i64) -> A {
    let mut f = A { a: [0.0; 3], g: [0.0; 9], at };
    for i in 0..3 { f.a[i] = v(base + i as u32, 10.0); }
    for i in 0..9 { f.g[i] = v(base + 10 + i as u32, 10.0); }
    f
}
/// arbitrary guidance law
struct G { thr: f64, dir: Vector3<f64>, dir_ok: bool, thr_ok: bool }
impl fmt::Display for G { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl GuidanceLaw for G {
    fn direction(&self, _: &Spacecraft) -> Result<Vector3<f64>, GuidanceError> { if self.dir_ok { Ok(self.dir) } else { Err(GuidanceError::NoGuidanceObjectiveDefined) } }
    fn throttle(&self, _: &Spacecraft) -> Result<f64, GuidanceError> { if self.thr_ok { Ok(self.thr) } else { Err(GuidanceError::NoGuidanceObjectiveDefined) } }
    fn next(&self, next_state: &mut Spacecraft, _: &Almanac) { next_state.mut_mode(GuidanceMode::Inhibit); }
}

/// symbolic position bounded away from the origin
fn away(s: &Spacecraft) { let r = s.orbit.radius_km; vp_assume(r.x * r.x + r.y * r.y + r.z * r.z >= 100.0); }

harnesses! {
    /// two-body motion at any position (r >= 10 km) and velocity, any Cr/Cd/masses
    fn h_c05_twobody() {
        let s = craft(100, ep(E0));
        away(&s);
        let d = SpacecraftDynamics::new(OrbitalDynamics::new(vec![]));
        let x = d.eom(0.0, &s.to_vector(), &s, &Almanac::default()).unwrap();
        let r = s.orbit.radius_km;
        let rm = s.orbit.rmag_km();
        for i in 0..3 { vp_check(x[i] == s.orbit.velocity_km_s[i], 1); vp_check(near(x[i + 3] * rm * rm * rm / MU, -r[i], 1e-6), 2); }
        for i in 6..90 { vp_check(x[i] == 0.0, 3); }
        vp_check(near(rm * rm, r.x * r.x + r.y * r.y + r.z * r.z, 1e-6), 4);
    }
    /// state transition matrix: derivative is A(x) times the current matrix (arbitrary), A the two-body Jacobian
    fn h_c05_stm() {
        let mut s = craft(100, ep(E0));
        away(&s);
        s.enable_stm();
        let mut y = s.to_vector();
        for i in 9..90 { y[i] = v(200 + i as u32, 10.0); }
        let d = SpacecraftDynamics::new(OrbitalDynamics::new(vec![]));
        let x = d.eom(0.0, &y, &s, &Almanac::default()).unwrap();
        let r = s.orbit.radius_km;
        let rm = s.orbit.rmag_km();
        for i in 0..3 { vp_check(x[i] == s.orbit.velocity_km_s[i], 1); vp_check(near(x[i + 3] * rm * rm * rm / MU, -r[i], 1e-6), 2); }
        let r5 = rm * rm * rm * rm * rm / MU;
        for j in 0..9 {
            let col = |i: usize| y[9 + j * 9 + i];
            for i in 0..9 {
                let got = x[9 + j * 9 + i];
                if i < 3 { vp_check(near(got, col(i + 3), 1e-9), 3); }
                else if i < 6 {
                    let k = i - 3;
                    let dot = r[0] * col(0) + r[1] * col(1) + r[2] * col(2);
                    vp_check(near(got * r5, 3.0 * r[k] * dot - rm * rm * col(k), 1e-3), 4);
                } else { vp_check(got == 0.0, 5); }
            }
        }
    }
    /// force models add force/mass, acceleration models add as is; evaluated at the integration epoch
    fn h_c05_forces() {
        let s = craft(100, ep(E0));
        away(&s);
        let dt = vp_fix_i64(vp_i64(1, 0, 2)) * 250;
        let at = E0 + dt * 1_000_000_000;
        let (f1, f2, a1, a2) = (force(200, None, at), force(230, Some(6), at), accel(260, at), accel(290, at));
        let w: Vec<f64> = (0..3).map(|i| f1.f[i] + f2.f[i]).collect();
        let ac: Vec<f64> = (0..3).map(|i| a1.a[i] + a2.a[i]).collect();
        let d0 = SpacecraftDynamics::new(OrbitalDynamics::new(vec![]));
        let d = SpacecraftDynamics::from_models(OrbitalDynamics::new(vec![Arc::new(a1), Arc::new(a2)]), vec![Arc::new(f1), Arc::new(f2)]);
        let al = Almanac::default();
        let x0 = d0.eom(dt as f64, &s.to_vector(), &s, &al).unwrap();
        let x = d.eom(dt as f64, &s.to_vector(), &s, &al).unwrap();
        let m = s.mass_kg();
        for i in 0..90 {
            if (3..6).contains(&i) { vp_check(near(x[i] - x0[i], w[i - 3] / m + ac[i - 3], 1e-9), 1); } else { vp_check(x[i] == x0[i], 2); }
        }
    }
    /// the same state derivative with the STM on; force gradients enter the velocity rows divided by mass
    fn h_c05_grad() {
        let mut s = craft(100, ep(E0));
        away(&s);
        let (f1, f2, a1) = (force(200, Some(6), E0), force(230, Some(7), E0), accel(260, E0));
        let (g1, g2, ga) = (f1.g, f2.g, a1.g);
        let d = SpacecraftDynamics::from_models(OrbitalDynamics::new(vec![Arc::new(a1)]), vec![Arc::new(f1), Arc::new(f2)]);
        let d0 = SpacecraftDynamics::new(OrbitalDynamics::new(vec![]));
        let al = Almanac::default();
        let x = d.eom(0.0, &s.to_vector(), &s, &al).unwrap();
        s.enable_stm();
        let z = d.eom(0.0, &s.to_vector(), &s, &al).unwrap();
        let z0 = d0.eom(0.0, &s.to_vector(), &s, &al).unwrap();
        for i in 0..9 { vp_check(near(x[i], z[i], 1e-9), 1); }
        let m = s.mass_kg();
        for j in 0..9 { for i in 0..9 {
            let k = 9 + j * 9 + i;
            if (3..6).contains(&i) {
                let r = i - 3;
                let w = if j < 3 { (g1[r * 3 + j] + g2[r * 3 + j]) / m + ga[r * 3 + j] } else if j == 6 { g1[9 + r] / m } else if j == 7 { g2[9 + r] / m } else { 0.0 };
                vp_check(near(z[k] - z0[k], w, 1e-9), 2);
            } else { vp_check(z[k] == z0[k], 3); }
        } }
    }
    /// thrust: any throttle, any unit direction, any thruster and mass
    fn h_c05_thrust() {
        let mut s = craft(100, ep(E0));
        away(&s);
        let th = Thruster { thrust_N: vp_f64(120, 1e-3, 100.0), isp_s: vp_f64(121, 10.0, 5000.0) };
        s.thruster = Some(th);
        let thr = vp_f64(122, -2.0, 2.0);
        let dec = vp_i64(123, 0, 1) == 1;
        let axis = vp_fix_i64(vp_i64(124, 0, 2)) as usize;
        let mut dir = Vector3::zeros();
        dir[axis] = if vp_i64(125, 0, 1) == 1 { 1.0 } else { -1.0 };
        let mut d = SpacecraftDynamics::from_guidance_law(OrbitalDynamics::new(vec![]), Arc::new(G { thr, dir, dir_ok: true, thr_ok: true }));
        d.decrement_mass = dec;
        let d0 = SpacecraftDynamics::new(OrbitalDynamics::new(vec![]));
        let al = Almanac::default();
        let r = d.eom(0.0, &s.to_vector(), &s, &al);
        vp_check(r.is_ok() == (0.0 <= thr && thr <= 1.0), 1);
        if let Ok(x) = r {
            let x0 = d0.eom(0.0, &s.to_vector(), &s, &al).unwrap();
            let m = s.mass_kg();
            for i in 0..90 {
                let w = if (3..6).contains(&i) { thr * th.thrust_N * 1e-3 / m * dir[i - 3] } else if i == 8 && dec { -thr * th.thrust_N / (th.isp_s * 9.80665) } else { 0.0 };
                vp_check(near(x[i] - x0[i], w, 1e-9), 2);
            }
        }
        s.enable_stm();
        vp_check(d.eom(0.0, &s.to_vector(), &s, &al).is_err(), 3);
        s.unset_stm();
        s.thruster = None;
        vp_check(d.eom(0.0, &s.to_vector(), &s, &al).is_err(), 4);
    }
    /// a direction of any length: only unit vectors are accepted
    fn h_c05_dir() {
        let mut s = craft(100, ep(E0));
        away(&s);
        s.thruster = Some(Thruster { thrust_N: 1.0, isp_s: 300.0 });
        let dir = Vector3::new(v(1, 3.0), v(2, 3.0), v(3, 3.0));
        let n2 = dir.x * dir.x + dir.y * dir.y + dir.z * dir.z;
        let d = SpacecraftDynamics::from_guidance_law(OrbitalDynamics::new(vec![]), Arc::new(G { thr: 0.5, dir, dir_ok: true, thr_ok: true }));
        let r = d.eom(0.0, &s.to_vector(), &s, &Almanac::default());
        if n2 > 1.001 || n2 < 0.999 { vp_check(r.is_err(), 1); }
        if n2 < 1.00000000001 && n2 > 0.99999999999 { vp_check(r.is_ok(), 2); }
    }
    /// end of step: exhausted propellant is an error, mode and thrust direction follow the law
    fn h_c05_finally() {
        let mut s = craft(100, ep(E0));
        let p = v(1, 10.0);
        s.mass.prop_mass_kg = p;
        let thr = vp_f64(2, 0.0, 1.0);
        let (dok, tok) = (vp_i64(3, 0, 1) == 1, vp_i64(4, 0, 1) == 1);
        let dir = Vector3::new(0.0, -1.0, 0.0);
        let d = SpacecraftDynamics::from_guidance_law(OrbitalDynamics::new(vec![]), Arc::new(G { thr, dir, dir_ok: dok, thr_ok: tok }));
        let d0 = SpacecraftDynamics::new(OrbitalDynamics::new(vec![]));
        let al = Almanac::default();
        let (r, r0) = (d.finally(s, &al), d0.finally(s, &al));
        vp_check(r.is_err() == (p < 0.0), 1);
        vp_check(r0.is_err() == (p < 0.0), 2);
        if let Ok(n) = r {
            vp_check(n.mode() == GuidanceMode::Inhibit, 3);
            match n.thrust_direction() {
                Some(u) => { vp_check(tok && dok && thr > 0.0, 4); vp_check(u == dir, 5); }
                None => vp_check(!(tok && dok && thr > 0.0), 6),
            }
            let (a, b) = (scal(&s), scal(&n));
            for i in 0..13 { vp_check(a[i] == b[i], 7); }
        }
        if let Ok(n) = r0 { vp_check(n.thrust_direction().is_none(), 8); }
    }
    /// force models need a massive spacecraft
    fn h_c05_massless() {
        let mut s = craft(100, ep(E0));
        away(&s);
        s.mass.dry_mass_kg = v(1, 10.0);
        s.mass.prop_mass_kg = v(2, 10.0);
        s.mass.extra_mass_kg = v(3, 10.0);
        let m = s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg;
        let d = SpacecraftDynamics::from_models(OrbitalDynamics::new(vec![]), vec![Arc::new(force(200, None, E0))]);
        let r = d.eom(0.0, &s.to_vector(), &s, &Almanac::default());
        vp_check(r.is_ok() == (m > 0.0), 1);
    }
}
