use nyx_space::{Spacecraft, State};
use nyx_space::cosmic::GuidanceMode;
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::linalg::{Const, OVector};
use nyx_space::md::StateParameter;
use nyx_space::md::prelude::OrbitalElement;
use vpharness::sc::*;
use vpharness::*;

const POS: [usize; 9] = [0, 1, 2, 3, 4, 5, 10, 11, 7]; // state-vector order in scal()

harnesses! {
    /// any spacecraft, any STM: export to a vector and import into a different spacecraft
    fn h_c04_roundtrip() {
        let mut s = craft(100, ep(E0));
        s.enable_stm();
        let mut m = M9::zeros();
        for i in 0..9 { for j in 0..9 { m[(i, j)] = v(200 + (i * 9 + j) as u32, 1e6); } }
        s.stm = Some(m);
        let mut d = craft(300, ep(E0 - 7));
        d.enable_stm();
        let before = scal(&d);
        let x = s.to_vector();
        d.set(ep(E0 + 5), &x);
        let (a, b) = (scal(&s), scal(&d));
        for (k, &i) in POS.iter().enumerate() { vp_check(x[k] == a[i], 1); vp_check(b[i] == a[i], 2); }
        for i in 0..13 { if !POS.contains(&i) { vp_check(b[i] == before[i], 3); } }
        let n = d.stm().unwrap();
        for i in 0..9 { for j in 0..9 { vp_check(n[(i, j)] == m[(i, j)], 4); } }
        vp_check(d.epoch() == ep(E0 + 5), 5);
    }
    /// any vector (90 components): import then export gives it back (Cr limited to its physical range)
    fn h_c04_vector() {
        let mut d = craft(300, ep(E0));
        let stm = vp_i64(1, 0, 1) == 1;
        if stm { d.enable_stm(); }
        let mut x = OVector::<f64, Const<90>>::zeros();
        for i in 0..90 { x[i] = v(400 + i as u32, 1e5); }
        d.set(ep(E0), &x);
        let y = d.to_vector();
        for i in 0..9 { if i != 6 { vp_check(x[i] == y[i], 1); } }
        vp_check(y[6] == if x[6] < 0.0 { 0.0 } else if x[6] > 2.0 { 2.0 } else { x[6] }, 2);
        for i in 9..90 { if stm { vp_check(x[i] == y[i], 3); } else { vp_check(y[i] == 0.0, 4); } }
        vp_check(d.stm().is_ok() == stm, 5);
        d.reset_stm();
        let m = d.stm().unwrap();
        for i in 0..9 { for j in 0..9 { vp_check(m[(i, j)] == if i == j { 1.0 } else { 0.0 }, 6); } }
        d.unset_stm();
        vp_check(d.stm().is_err(), 7);
    }
    /// adding a deviation
    fn h_c04_add() {
        let s = craft(100, ep(E0));
        let mut dx = V9::zeros();
        for i in 0..9 { dx[i] = v(200 + i as u32, 100.0); }
        let a = scal(&s);
        let t = s + dx;
        let u = State::add(s, dx);
        let b = scal(&t);
        for (k, &i) in POS.iter().enumerate() {
            let w = a[i] + dx[k];
            let w = if k == 6 { if w < 0.0 { 0.0 } else if w > 2.0 { 2.0 } else { w } } else { w };
            vp_check(b[i] == w, 1);
            vp_check(scal(&u)[i] == w, 2);
        }
        for i in 0..13 { if !POS.contains(&i) { vp_check(b[i] == a[i], 3); } }
        let d6 = OVector::<f64, Const<6>>::from_column_slice(&dx.as_slice()[..6]);
        let c = scal(&(s + d6));
        for i in 0..13 { vp_check(c[i] == if i < 6 { a[i] + dx[i] } else { a[i] }, 4); }
        vp_check(t.epoch() == s.epoch(), 5);
        vp_check(near(s.mass_kg(), a[6] + a[7] + a[12], 1e-9), 6);
    }
    /// set_value/value of every settable scalar parameter, nothing else moves
    fn h_c04_params() {
        let mut s = craft(100, ep(E0));
        s.thruster = Some(Thruster { thrust_N: vp_f64(120, 0.0, 10.0), isp_s: vp_f64(121, 1.0, 5000.0) });
        let t0 = s.thruster.unwrap();
        let a = scal(&s);
        let ps: [(StateParameter, i32); 12] = [
            (StateParameter::Element(OrbitalElement::X), 0), (StateParameter::Element(OrbitalElement::Y), 1), (StateParameter::Element(OrbitalElement::Z), 2),
            (StateParameter::Element(OrbitalElement::VX), 3), (StateParameter::Element(OrbitalElement::VY), 4), (StateParameter::Element(OrbitalElement::VZ), 5),
            (StateParameter::DryMass(), 6), (StateParameter::PropMass(), 7), (StateParameter::Cr(), 10), (StateParameter::Cd(), 11),
            (StateParameter::Thrust(), -1), (StateParameter::Isp(), -2)];
        let x = vp_f64(1, 0.0, 2.0);
        for (p, i) in ps {
            let mut t = s;
            t.set_value(p, x).unwrap();
            vp_check(t.value(p).unwrap() == x, 1);
            let b = scal(&t);
            for k in 0..13 { vp_check(b[k] == if k as i32 == i { x } else { a[k] }, 2); }
            let th = t.thruster.unwrap();
            vp_check(th.thrust_N == if i == -1 { x } else { t0.thrust_N }, 3);
            vp_check(th.isp_s == if i == -2 { x } else { t0.isp_s }, 4);
        }
        vp_check(near(s.value(StateParameter::TotalMass()).unwrap(), a[6] + a[7] + a[12], 1e-9), 5);
        s.thruster = None;
        vp_check(s.value(StateParameter::Isp()).is_err() && s.value(StateParameter::Thrust()).is_err(), 6);
        vp_check(s.set_value(StateParameter::Isp(), x).is_err() && s.set_value(StateParameter::Thrust(), x).is_err(), 7);
    }
    /// guidance mode codes, with_* builders, equality and RSS
    fn h_c04_misc() {
        let s = craft(100, ep(E0));
        let a = scal(&s);
        for m in [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit] {
            let f: f64 = m.into();
            vp_check(GuidanceMode::from(f) == m, 1);
            vp_check(s.with_guidance_mode(m).value(StateParameter::GuidanceMode()).unwrap() == f, 2);
        }
        let (x, y) = (vp_f64(1, 0.0, 2.0), vp_f64(2, 0.0, 2.0));
        let all = [(s.with_dry_mass(x), 6, 99), (s.with_prop_mass(x), 7, 99), (s.with_srp(x, y), 8, 10), (s.with_srp_area(x), 8, 99), (s.with_cr(y), 99, 10), (s.with_drag(x, y), 9, 11), (s.with_drag_area(x), 9, 99), (s.with_cd(y), 99, 11)];
        for (t, i, j) in all {
            let b = scal(&t);
            for k in 0..13 { vp_check(b[k] == if k == i { x } else if k == j { y } else { a[k] }, 3); }
        }
        let o = craft(300, ep(E0));
        let (p, q, r) = s.rss(&o).unwrap();
        let c = scal(&o);
        let sq = |i: usize| (a[i] - c[i]) * (a[i] - c[i]);
        vp_check(p >= 0.0 && q >= 0.0 && r >= 0.0, 4);
        vp_check(near(p * p, sq(0) + sq(1) + sq(2), 1e-6), 5);
        vp_check(near(q * q, sq(3) + sq(4) + sq(5), 1e-6), 6);
        vp_check(near(r * r, sq(7), 1e-6), 7);
        vp_check(s == s, 8);
    }
    /// constructors, a changed orbit, an impulse: what is given is set, everything else keeps its documented default
    fn h_c04_build() {
        let o = orbit(0, ep(E0));
        let (a, b, c) = (vp_f64(10, 1.0, 1e3), vp_f64(11, 0.0, 1e3), vp_f64(12, 0.0, 50.0));
        let th = Thruster { thrust_N: v(13, 10.0), isp_s: v(14, 1e3) };
        let z = Spacecraft::default();
        let only = |s: &Spacecraft, dry: f64, prop: f64, srp: Option<f64>, drag: Option<f64>| {
            let (p, q) = (scal(s), scal(&z));
            let r = o.to_cartesian_pos_vel();
            for i in 0..6 { vp_check(p[i] == r[i], 1); }
            vp_check(s.orbit.epoch == o.epoch && s.orbit.frame == o.frame, 2);
            vp_check(p[6] == dry && p[7] == prop && p[12] == 0.0, 3);
            vp_check(p[8] == srp.unwrap_or(q[8]) && p[9] == drag.unwrap_or(q[9]) && p[10] == q[10] && p[11] == q[11], 4);
            vp_check(s.stm.is_none() && s.thrust_direction.is_none(), 5);
            vp_check(near(s.mass_kg(), dry + prop, 1e-9), 6);
        };
        for m in [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit] {
            let s = Spacecraft::from_thruster(o, a, b, th, m);
            only(&s, a, b, None, None);
            vp_check(s.mode == m && s.thruster.unwrap().thrust_N == th.thrust_N && s.thruster.unwrap().isp_s == th.isp_s, 7);
        }
        let s = Spacecraft::from_srp_defaults(o, a, c);
        only(&s, a, 0.0, Some(c), None);
        vp_check(s.thruster.is_none() && s.mode == GuidanceMode::Coast, 8);
        let s = Spacecraft::from_drag_defaults(o, a, c);
        only(&s, a, 0.0, None, Some(c));
        vp_check(s.thruster.is_none() && s.mode == GuidanceMode::Coast, 9);
        let s = craft(100, ep(E0 + 5));
        let p = scal(&s);
        let q = scal(&s.with_orbit(o));
        for i in 6..13 { vp_check(p[i] == q[i], 10); }
        vp_check(s.with_orbit(o).orbit == o, 11);
        let dv = nyx_space::linalg::Vector3::new(v(20, 5.0), v(21, 5.0), v(22, 5.0));
        let q = scal(&s.with_dv_km_s(dv));
        for i in 0..13 { vp_check(near(q[i], if (3..6).contains(&i) { p[i] + dv[i - 3] } else { p[i] }, 1e-12), 12); }
        vp_check(s.with_dv_km_s(dv).orbit.epoch == s.orbit.epoch, 13);
    }
}
