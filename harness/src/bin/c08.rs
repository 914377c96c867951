use anise::analysis::prelude::OrbitalElement;
use nyx_space::Spacecraft;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::linalg::{SMatrix, SVector};
use nyx_space::mc::{DispersedState, MonteCarlo, MvnSpacecraft, StateDispersion};
use nyx_space::md::StateParameter;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::prelude::SpacecraftUncertainty;
use nyx_space::State;
use rand_distr::{Distribution, Normal};
use rand_pcg::Pcg64Mcg;
use vpharness::sc::*;
use vpharness::*;

fn base() -> Spacecraft { Spacecraft::new(fixed_orbit(ep(E0)), 100.0, 50.0, 1.0, 2.0, 1.5, 2.2) }
fn sig9(id: u32) -> [f64; 9] { let mut s = [0.0; 9]; for i in 0..9 { s[i] = vp_f64(id + i as u32, 0.0, 10.0); } s }
fn unc(s: &[f64; 9], frame: Option<LocalFrame>) -> SpacecraftUncertainty {
    SpacecraftUncertainty { nominal: base(), frame, x_km: s[0], y_km: s[1], z_km: s[2], vx_km_s: s[3], vy_km_s: s[4], vz_km_s: s[5], coeff_reflectivity: s[6], coeff_drag: s[7], mass_kg: s[8] }
}
const PARAMS: [StateParameter; 9] = [
    StateParameter::Element(OrbitalElement::X), StateParameter::Element(OrbitalElement::Y), StateParameter::Element(OrbitalElement::Z),
    StateParameter::Element(OrbitalElement::VX), StateParameter::Element(OrbitalElement::VY), StateParameter::Element(OrbitalElement::VZ),
    StateParameter::Cr(), StateParameter::Cd(), StateParameter::PropMass(),
];
fn comp(s: &Spacecraft, i: usize) -> f64 { let v = s.to_vector(); v[i] }

/// stand-in state generator: the k-th state drawn is the k-th value of the generator
struct Draw;
impl Distribution<DispersedState<Spacecraft>> for Draw {
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> DispersedState<Spacecraft> {
        let mut s = base();
        s.orbit.radius_km.x = (rng.next_u64() >> 20) as f64;
        DispersedState { state: s, actual_dispersions: vec![] }
    }
}

harnesses! {
    /// the state of an estimate is nominal plus deviation; scaling an estimate scales its sigmas; within_sigma is the box test on every component
    fn h_c08_estimate() {
        let nom = base();
        let mut diag = V9::zeros();
        let mut dev = V9::zeros();
        for i in 0..9 { diag[i] = vp_f64(10 + i as u32, 0.01, 10.0); dev[i] = v(20 + i as u32, 0.4); }
        let mut e = KfEstimate::from_diag(nom, diag);
        for i in 0..9 { for j in 0..9 { vp_check(e.covar[(i, j)] == if i == j { diag[i] } else { 0.0 } && e.covar_bar[(i, j)] == e.covar[(i, j)], 1); } vp_check(e.state_deviation[i] == 0.0, 2); }
        e.state_deviation = dev;
        let st = e.state();
        for i in 0..9 { vp_check(near(comp(&st, i), comp(&nom, i) + dev[i], 1e-9), 3); }
        vp_check(e.epoch() == nom.epoch(), 4);
        let k = vp_f64(40, 0.1, 10.0);
        let e2 = e * k;
        for i in 0..9 { vp_check(near(e2.covar[(i, i)], k * k * diag[i], 1e-6) && e2.state_deviation[i] == dev[i], 5); }
    }
    //@ time=120
    /// the covariance of the orbital elements is that of the position and velocity mapped by the derivatives of the elements (here, central differences); variances symbolic, with correlations
    fn h_c08_elements() {
        let mut nom = base();
        nom.orbit = anise::prelude::Orbit::new(7000.0, 1500.0, -2300.0, 0.6, 6.9, 3.1, ep(E0), earth());
        let all = [OrbitalElement::SemiMajorAxis, OrbitalElement::Eccentricity, OrbitalElement::Inclination, OrbitalElement::RAAN, OrbitalElement::AoP, OrbitalElement::TrueAnomaly];
        let el = |o: &anise::prelude::Orbit, k: usize| match k { 0 => o.sma_km().unwrap(), 1 => o.ecc().unwrap(), 2 => o.inc_deg().unwrap(), 3 => o.raan_deg().unwrap(), 4 => o.aop_deg().unwrap(), _ => o.ta_deg().unwrap() };
        let j = SMatrix::<f64, 6, 6>::from_fn(|k, c| { let f = |h: f64| { let mut o = nom.orbit; if c < 3 { o.radius_km[c] += h } else { o.velocity_km_s[c - 3] += h }; el(&o, k) }; let h = if c < 3 { 0.1 } else { 1e-4 }; (f(h) - f(-h)) / (2.0 * h) });
        let size = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3];
        let w = [0.3, -0.2, 0.5, 0.4, -0.6, 0.1];
        let p = SMatrix::<f64, 6, 6>::from_fn(|a, b| (w[a] * w[b] + if a == b { vp_f64(10 + a as u32, 0.0, 1.0) } else { 0.0 }) * size[a] * size[b]);
        let mut c = SMatrix::<f64, 9, 9>::zeros();
        c.fixed_view_mut::<6, 6>(0, 0).copy_from(&p);
        // what the solar radiation pressure coefficient does is of no consequence
        c[(6, 6)] = vp_f64(20, 0.0, 1.0);
        c[(0, 6)] = 0.1; c[(6, 0)] = 0.1;
        let e = KfEstimate::from_covar(nom, c);
        let want = j * p * j.transpose();
        let got = e.keplerian_covar();
        let s = [3.0, 3e-4, 0.02, 0.02, 0.2, 0.2];
        for a in 0..6 { for b in 0..6 { vp_check(near(got[(a, b)], want[(a, b)], 1e-4 * s[a] * s[b]), 1); } }
        for a in 0..6 { let g = e.sigma_for(all[a]).unwrap(); vp_check(g >= 0.0 && near(g * g, want[(a, a)], 1e-4 * s[a] * s[a]), 2); }
        let g = e.sigma_for(OrbitalElement::VY).unwrap();
        vp_check(near(g * g, p[(4, 4)], 1e-12), 3);
    }
    fn h_c08_within() {
        let nom = vpharness::toy::Lin2 { epoch: ep(E0), x: [0.0; 2], stm: None };
        let p = [vp_f64(1, 0.01, 10.0), vp_f64(2, 0.01, 10.0)];
        let d = [v(3, 50.0), v(4, 50.0)];
        let n = vp_f64(5, 0.1, 10.0);
        let mut e = KfEstimate::from_covar(nom, SMatrix::<f64, 2, 2>::new(p[0], 0.0, 0.0, p[1]));
        e.state_deviation = SVector::<f64, 2>::new(d[0], d[1]);
        let inside = d[0] * d[0] <= n * n * p[0] && d[1] * d[1] <= n * n * p[1];
        let edge = near(d[0] * d[0], n * n * p[0], 1e-6) || near(d[1] * d[1], n * n * p[1], 1e-6);
        vp_check(edge || e.within_sigma(n) == inside, 1);
        let edge3 = near(d[0] * d[0], 9.0 * p[0], 1e-6) || near(d[1] * d[1], 9.0 * p[1], 1e-6);
        vp_check(edge3 || e.within_3sigma() == (d[0] * d[0] <= 9.0 * p[0] && d[1] * d[1] <= 9.0 * p[1]), 2);
    }
    /// the box test on each of the nine components of a spacecraft estimate
    fn h_c08_within9() {
        let i = vp_fix_i64(vp_i64(20, 0, 8)) as usize;
        let mut c = SVector::<f64, 9>::zeros();
        for j in 0..9 { c[j] = vp_f64(1 + j as u32, 0.01, 10.0); }
        let mut e = KfEstimate::from_diag(base(), c);
        let d = v(30, 50.0);
        let n = vp_f64(31, 0.1, 10.0);
        e.state_deviation[i] = d;
        vp_check(near(d * d, n * n * c[i], 1e-6) || e.within_sigma(n) == (d * d <= n * n * c[i]), 1);
    }
    /// inertial uncertainty: the covariance is the diagonal of the squared sigmas
    fn h_c08_unc_inertial() {
        let s = sig9(1);
        let inert = vp_fix_i64(vp_i64(20, 0, 1)) == 0;
        let e = unc(&s, if inert { Some(LocalFrame::Inertial) } else { None }).to_estimate().unwrap();
        for i in 0..9 { for j in 0..9 { vp_check(near(e.covar[(i, j)], if i == j { s[i] * s[i] } else { 0.0 }, 1e-9), 1); } vp_check(e.state_deviation[i] == 0.0, 2); vp_check(comp(&e.nominal_state, i) == comp(&base(), i), 3); }
    }
    /// any single negative sigma is rejected
    fn h_c08_unc_neg() {
        let mut s = [0.5; 9];
        let i = vp_fix_i64(vp_i64(20, 0, 8)) as usize;
        s[i] = vp_f64(1, -10.0, 10.0);
        vp_check(unc(&s, None).to_estimate().is_err() == (s[i] < 0.0), 1);
    }
    /// uncertainty given in a local frame: the covariance is the rotation of the diagonal into the inertial frame
    fn h_c08_unc_local() {
        let s = sig9(1);
        let frame = match vp_fix_i64(vp_i64(20, 0, 2)) { 0 => LocalFrame::RIC, 1 => LocalFrame::VNC, _ => LocalFrame::RCN };
        let e = unc(&s, Some(frame)).to_estimate().unwrap();
        let r = base().orbit.dcm_to_inertial(frame).unwrap().rot_mat;
        for i in 0..3 { for j in 0..3 {
            let w = r[(i, 0)] * r[(j, 0)] * s[0] * s[0] + r[(i, 1)] * r[(j, 1)] * s[1] * s[1] + r[(i, 2)] * r[(j, 2)] * s[2] * s[2];
            vp_check(near(e.covar[(i, j)], w, 1e-2), 1);
        } }
    }
    /// a local-frame uncertainty leaves Cr, Cd and mass uncorrelated and keeps the total velocity variance
    fn h_c08_unc_local_trace() {
        let s = sig9(1);
        let frame = match vp_fix_i64(vp_i64(20, 0, 2)) { 0 => LocalFrame::RIC, 1 => LocalFrame::VNC, _ => LocalFrame::RCN };
        let e = unc(&s, Some(frame)).to_estimate().unwrap();
        for i in 6..9 { for j in 0..9 { vp_check(near(e.covar[(i, j)], if i == j { s[i] * s[i] } else { 0.0 }, 1e-9) && near(e.covar[(j, i)], e.covar[(i, j)], 1e-9), 1); } }
        for i in 0..6 { for j in 0..i { vp_check(near(e.covar[(i, j)], e.covar[(j, i)], 1e-6), 2); } }
    }
    /// drawing from a distribution: template + mean + L z, reported dispersions are what was applied
    fn h_c08_sample() {
        let mut l = SMatrix::<f64, 9, 9>::zeros();
        let mut mean = V9::zeros();
        for i in 0..9 { l[(i, i)] = vp_f64(10 + i as u32, 0.0, 1.0); mean[i] = v(30 + i as u32, 1.0); if i > 0 { l[(i, i - 1)] = v(50 + i as u32, 1.0); l[(i - 1, i)] = v(70 + i as u32, 1.0); } }
        let t = base();
        let disp: Vec<StateDispersion> = PARAMS.iter().map(|p| StateDispersion { param: *p, mean: None, std_dev: None }).collect();
        let mvn = MvnSpacecraft { template: t, dispersions: disp, mean, sqrt_s_v: l, std_norm_distr: Normal::new(0.0, 1.0).unwrap() };
        let mut rng = Pcg64Mcg::new(7);
        let mut rng2 = rng.clone();
        let d = mvn.sample(&mut rng);
        let n = Normal::new(0.0, 1.0).unwrap();
        let mut z = [0.0; 9];
        for i in 0..9 { z[i] = n.sample(&mut rng2); }
        for i in 0..9 {
            let mut w = mean[i] + l[(i, i)] * z[i];
            if i > 0 { w += l[(i, i - 1)] * z[i - 1]; }
            if i < 8 { w += l[(i, i + 1)] * z[i + 1]; }
            vp_check(near(comp(&d.state, i), comp(&t, i) + w, 1e-6), 1);
            vp_check(near(d.actual_dispersions[i].1, w, 1e-6) && d.actual_dispersions[i].0 == PARAMS[i], 2);
        }
        vp_check(d.state.epoch() == t.epoch() && d.state.mass.dry_mass_kg == t.mass.dry_mass_kg, 3);
    }
    /// distribution of Cr, Cd and propellant mass: factor and mean carry exactly the requested moments
    fn h_c08_mvn_params() {
        let s = [vp_f64(1, 0.01, 10.0), vp_f64(2, 0.01, 10.0), vp_f64(3, 0.01, 10.0)];
        let m = [v(4, 1.0), v(5, 1.0), v(6, 1.0)];
        let disp: Vec<StateDispersion> = (0..3).map(|i| StateDispersion { param: PARAMS[6 + i], mean: Some(m[i]), std_dev: Some(s[i]) }).collect();
        let mvn = MvnSpacecraft::new(base(), disp).unwrap();
        let c = mvn.sqrt_s_v * mvn.sqrt_s_v.transpose();
        for i in 0..9 {
            for j in 0..9 { vp_check(near(c[(i, j)], if i == j && i >= 6 { s[i - 6] * s[i - 6] } else { 0.0 }, 1e-6), 1); }
            vp_check(near(mvn.mean[i], if i >= 6 { m[i - 6] } else { 0.0 }, 1e-9), 2);
        }
    }
    /// distribution of Cartesian components
    fn h_c08_mvn_cart() {
        let s = [vp_f64(1, 0.01, 10.0), vp_f64(2, 0.01, 10.0)];
        let m = [v(4, 1.0), v(5, 1.0)];
        let a = vp_fix_i64(vp_i64(10, 0, 5)) as usize;
        let b = (a + 1) % 6;
        let disp = vec![StateDispersion { param: PARAMS[a], mean: Some(m[0]), std_dev: Some(s[0]) }, StateDispersion { param: PARAMS[b], mean: Some(m[1]), std_dev: Some(s[1]) }];
        let mvn = MvnSpacecraft::new(base(), disp).unwrap();
        let c = mvn.sqrt_s_v * mvn.sqrt_s_v.transpose();
        for i in 0..9 {
            for j in 0..9 { vp_check(near(c[(i, j)], if i == j && i == a { s[0] * s[0] } else if i == j && i == b { s[1] * s[1] } else { 0.0 }, 1e-6), 1); }
            vp_check(near(mvn.mean[i], if i == a { m[0] } else if i == b { m[1] } else { 0.0 }, 1e-9), 2);
        }
    }
    /// resuming a Monte Carlo run: state k after skipping n is state n + k of the full run, for the same seed
    fn h_c08_resume() {
        let mc = MonteCarlo { seed: Some(3), random_state: Draw, scenario: String::new(), nominal_state: base() };
        let seed = 0x1234_5678_9abc_u128;
        let full = mc.generate_states(0, 4, Some(seed));
        vp_check(full.len() == 4, 1);
        let skip = vp_fix_i64(vp_i64(2, 0, 3)) as usize;
        let n = vp_fix_i64(vp_i64(3, 0, 4)) as usize;
        vp_assume(skip + n <= 4);
        let part = mc.generate_states(skip, n, Some(seed));
        vp_check(part.len() == n, 2);
        for k in 0..n { vp_check(part[k].1.state.orbit.radius_km.x == full[skip + k].1.state.orbit.radius_km.x, 3); vp_check(full[k].0 == k, 4); }
    }
    /// an estimate built from dispersions: its state is the dispersed one, its nominal state is untouched
    fn h_c08_from_disp() {
        let s = [vp_f64(1, 0.01, 10.0), vp_f64(2, 0.01, 0.1)];
        let m = [v(4, 1.0), v(5, 0.1)];
        let a = vp_fix_i64(vp_i64(10, 0, 1)) as usize;
        let par = [PARAMS[a], PARAMS[7 + a]];
        let disp: Vec<StateDispersion> = (0..2).map(|i| StateDispersion { param: par[i], mean: Some(m[i]), std_dev: Some(s[i]) }).collect();
        let want = MvnSpacecraft::new(base(), disp.clone()).unwrap().sample(&mut Pcg64Mcg::new(5)).state;
        let e = KfEstimate::from_dispersions(base(), disp, Some(5)).unwrap();
        let st = e.state();
        for i in 0..9 {
            vp_check(near(comp(&st, i), comp(&want, i), 1e-6), 1);
            vp_check(comp(&e.nominal_state, i) == comp(&base(), i), 2);
            let d = comp(&want, i) - comp(&base(), i);
            vp_check(near(e.covar[(i, i)], 9.0 * d * d, 1e-3), 3);
        }
    }
    /// a distribution from a (diagonal) spacecraft covariance reproduces it, reports its sigmas, and keeps the mean
    fn h_c08_from_cov() {
        let mut c = M9::zeros();
        let mut mean = V9::zeros();
        for i in 0..9 { c[(i, i)] = vp_f64(10 + i as u32, 0.01, 10.0); mean[i] = v(30 + i as u32, 1.0); }
        let mvn = MvnSpacecraft::from_spacecraft_cov(base(), c, mean).unwrap();
        let l = mvn.sqrt_s_v * mvn.sqrt_s_v.transpose();
        for i in 0..9 {
            for j in 0..9 { vp_check(near(l[(i, j)], c[(i, j)], 1e-6), 1); }
            vp_check(mvn.mean[i] == mean[i], 2);
            vp_check(mvn.dispersions[i].param == PARAMS[i] && near(mvn.dispersions[i].std_dev.unwrap() * mvn.dispersions[i].std_dev.unwrap(), c[(i, i)], 1e-6), 3);
        }
    }
    /// the other ways to a distribution: zero mean, from an estimate, a randomised estimate (seeded)
    fn h_c08_ways() {
        let sd = vp_f64(1, 0.01, 10.0);
        let i = vp_fix_i64(vp_i64(2, 0, 8)) as usize;
        let d = StateDispersion::zero_mean(PARAMS[i], sd);
        vp_check(d.param == PARAMS[i] && d.mean == Some(0.0) && d.std_dev == Some(sd), 1);
        let m = MvnSpacecraft::zero_mean(base(), vec![StateDispersion { param: PARAMS[i], mean: Some(v(3, 1.0)), std_dev: Some(sd) }]).unwrap();
        let c = m.sqrt_s_v * m.sqrt_s_v.transpose();
        for j in 0..9 { vp_check(near(m.mean[j], 0.0, 1e-12), 2); for k in 0..9 { vp_check(near(c[(j, k)], if j == k && j == i { sd * sd } else { 0.0 }, 1e-6), 3); } }
        let mut dev = V9::zeros();
        let mut p = M9::zeros();
        for j in 0..9 { dev[j] = v(20 + j as u32, 1.0); p[(j, j)] = vp_f64(40 + j as u32, 0.01, 10.0); }
        let mut e = KfEstimate::from_covar(base(), p);
        e.state_deviation = dev;
        let m = e.to_random_variable().unwrap();
        let c = m.sqrt_s_v * m.sqrt_s_v.transpose();
        for j in 0..9 { vp_check(near(m.mean[j], dev[j], 1e-12) && comp(&m.template, j) == comp(&base(), j), 4); for k in 0..9 { vp_check(near(c[(j, k)], p[(j, k)], 1e-6), 5); } }
    }
    /// a randomised estimate has the covariance asked for, no deviation, and the nominal state displaced by a draw from it; every single sigma
    fn h_c08_randomized() {
        let i = vp_fix_i64(vp_i64(2, 0, 8)) as usize;
        let mut s = [0.0; 9];
        s[i] = vp_f64(1, 0.01, 0.1);
        let e = unc(&s, None).to_estimate_randomized(Some(7)).unwrap();
        let n = Normal::new(0.0, 1.0).unwrap();
        let mut r = Pcg64Mcg::new(7);
        let z: [f64; 9] = std::array::from_fn(|_| n.sample(&mut r));
        for j in 0..9 {
            for k in 0..9 { vp_check(near(e.covar[(j, k)], if j == k { s[j] * s[j] } else { 0.0 }, 1e-9), 1); }
            vp_check(e.state_deviation[j] == 0.0, 2);
            let d = comp(&e.nominal_state, j) - comp(&base(), j);
            // which of the nine draws displaces a component, and with which sign, is the business of the matrix square root
            vp_check(if j == i { z.iter().any(|z| near(d, z * s[i], 1e-6) || near(d, -z * s[i], 1e-6)) } else { near(d, 0.0, 1e-6) }, 3);
        }
        vp_check(e.nominal_state.epoch() == base().epoch(), 4);
    }
    //@ time=120
    /// dispersions of orbital elements and B-plane coordinates (an ellipse, a hyperbola): requested moments to first order, with arbitrary means
    fn h_c08_mvn_elements() {
        use OrbitalElement::*;
        use StateParameter::{BdotR, BdotT, Element};
        let k = vp_fix_i64(vp_i64(1, 0, 6)) as usize;
        let mut t = base();
        if k >= 5 { t.orbit.velocity_km_s *= 1.7; }
        let ps: Vec<StateParameter> = match k {
            0 => vec![Element(SemiMajorAxis), Element(Inclination), Element(Eccentricity)],
            1 => vec![Element(RAAN), Element(AoP), Element(TrueAnomaly), Element(Inclination), Element(SemiMajorAxis), Element(Eccentricity)],
            2 => vec![Element(Rmag), Element(Vmag)],
            3 => vec![Element(RAAN)],
            4 => vec![Element(Z), StateParameter::Cd(), Element(Vmag)],
            5 => vec![BdotR(), BdotT()],
            _ => vec![BdotT(), Element(Inclination), StateParameter::PropMass()],
        };
        let m: Vec<f64> = (0..ps.len()).map(|i| v(10 + i as u32, 1.0)).collect();
        let sd = |i: usize| 1e-3 * (1.0 + i as f64);
        let mvn = MvnSpacecraft::new(t, (0..ps.len()).map(|i| StateDispersion { param: ps[i], mean: Some(m[i]), std_dev: Some(sd(i)) }).collect()).unwrap();
        let c = mvn.sqrt_s_v * mvn.sqrt_s_v.transpose();
        // derivatives of the parameters by central differences on the template
        let rows: Vec<V9> = ps.iter().map(|p| V9::from_fn(|j, _| {
            let h = if j < 3 { 1e-2 } else { 1e-5 };
            let f = |d: f64| { let mut s = t; match j { 0..3 => s.orbit.radius_km[j] += d, 3..6 => s.orbit.velocity_km_s[j - 3] += d, 6 => s.srp.coeff_reflectivity += d, 7 => s.drag.coeff_drag += d, _ => s.mass.prop_mass_kg += d }; s.value(*p).unwrap() };
            (f(h) - f(-h)) / (2.0 * h)
        })).collect();
        for i in 0..ps.len() {
            for j in 0..ps.len() { vp_check(near((rows[i].transpose() * c * rows[j])[(0, 0)], if i == j { sd(i) * sd(i) } else { 0.0 }, 1e-3 * sd(i) * sd(j)), 1); }
            let mut w = 0.0;
            for q in 0..9 { w += rows[i][q] * mvn.mean[q]; }
            vp_check(near(w, m[i], 1e-3), 2);
        }
    }
    /// a dispersion of the dry mass or of the propellant mass moves that mass only
    fn h_c08_mvn_mass() {
        let k = vp_fix_i64(vp_i64(1, 0, 1));
        let (a, b) = (StateParameter::DryMass(), StateParameter::PropMass());
        let p = if k == 0 { a } else { b };
        let (mean, sd) = (v(2, 5.0), vp_f64(3, 0.01, 3.0));
        let d = |p, m, s| StateDispersion { param: p, mean: Some(m), std_dev: Some(s) };
        let mvn = MvnSpacecraft::new(base(), vec![d(p, mean, sd)]).unwrap();
        let mut rng = Pcg64Mcg::new(7);
        let x = mvn.sample(&mut rng);
        let mut rng = Pcg64Mcg::new(7);
        let mut z = [0.0; 9];
        for i in 0..9 { z[i] = mvn.std_norm_distr.sample(&mut rng); }
        let w = x.actual_dispersions[0].1;
        vp_check(near(w, mean + sd * z[8], 1e-6) || near(w, mean - sd * z[8], 1e-6), 1);
        let (dd, dp) = (x.state.mass.dry_mass_kg - 100.0, x.state.mass.prop_mass_kg - 50.0);
        vp_check(near(dd, if k == 0 { w } else { 0.0 }, 1e-6) && near(dp, if k == 0 { 0.0 } else { w }, 1e-6), 2);
        for i in 0..8 { vp_check(near(comp(&x.state, i), comp(&base(), i), 1e-9), 3); }
    }
}
