use indexmap::IndexSet;
use nyx_space::Spacecraft;
use nyx_space::linalg::{Const, SMatrix, SVector, U1};
use nyx_space::md::trajectory::Traj;
use nyx_space::od::GroundStation;
use nyx_space::od::estimate::{KfEstimate, Residual};
use nyx_space::od::process::{ODSolution, NormalizedConsistency};
use std::collections::BTreeMap;
use vpharness::od::*;
use vpharness::sc::*;
use vpharness::*;

const S: i64 = 1_000_000_000;
type Sol<const M: usize> = ODSolution<Od2, KfEstimate<Od2>, Const<M>, Gauge>;
fn pick(id: u32, n: i64) -> i64 { vp_fix_i64(vp_i64(id, 0, n - 1)) }
fn entry<const M: usize>(k: i64, w: Option<(SVector<f64, M>, bool)>) -> (KfEstimate<Od2>, Option<Residual<Const<M>>>) {
    let t = ep(E0 + k * S);
    let e = KfEstimate::from_covar(Od2 { epoch: t, x: [0.0; 2], stm: None }, SMatrix::<f64, 2, 2>::identity());
    (e, w.map(|(w, rej)| {
        let z = SVector::<f64, M>::zeros();
        // the ratio and the residuals themselves say something else
        if rej { Residual::rejected(t, w * 3.0, w, 50.0, z, z, z) } else { Residual::accepted(t, w * 3.0, w, w * 0.5, 50.0, z, z, z) }
    }))
}
fn build<const M: usize>(l: Vec<(KfEstimate<Od2>, Option<Residual<Const<M>>>)>) -> Sol<M> {
    let mut s: Sol<M> = ODSolution::new(BTreeMap::new(), IndexSet::new());
    for (e, r) in l { s.estimates.push(e); s.residuals.push(r); s.gains.push(None); s.filter_smoother_ratios.push(None); }
    s
}
const ALPHA: [Option<f64>; 4] = [None, Some(0.05), Some(0.01), Some(0.2)];
/// exact chi-squared quantiles at alpha/2 and 1 - alpha/2, for these degrees of freedom
fn chi2(k: usize, a: usize) -> (f64, f64) {
    let a = a.max(1) - 1;
    match k {
        1 => [(0.000982069, 5.023886), (0.0000392704, 7.879439), (0.015790774, 2.705543)][a],
        2 => [(0.050635616, 7.377759), (0.010025084, 10.596635), (0.210721031, 4.605170)][a],
        3 => [(0.215795283, 9.348404), (0.071721775, 12.838156), (0.584374374, 6.251389)][a],
        4 => [(0.484418557, 11.143287), (0.206989093, 14.860259), (1.063623217, 7.779440)][a],
        6 => [(1.237344246, 14.449375), (0.675726777, 18.547584), (2.204130656, 10.644641)][a],
        12 => [(4.403788507, 23.336664), (3.073823642, 28.299519), (6.303796059, 18.549348)][a],
        14 => [(5.628726103, 26.118948), (4.074674957, 31.319350), (7.789533610, 21.064144)][a],
        16 => [(6.907664354, 28.845351), (5.142205443, 34.267187), (9.312236354, 23.541829)][a],
        18 => [(8.230746198, 31.526378), (6.264804685, 37.156451), (10.864936117, 25.989423)][a],
        _ => panic!("no such row"),
    }
}
/// the bounds bracket the chi-squared quantiles, as well as a normal approximation does
fn bounds(c: &NormalizedConsistency, k: usize, a: usize, id: u32) {
    let (l, u) = chi2(k, a);
    vp_check(c.k == k as f64, id);
    vp_check((c.lower_bound - l).abs() < 0.1 + 0.01 * l && (c.upper_bound - u).abs() < 0.15 + 0.01 * u, id + 1);
}
fn nis<const M: usize>() {
    let n = pick(0, 4);
    let gap = pick(1, 2);
    let mut l = vec![];
    let (mut sum, mut acc) = (0.0, 0);
    for k in 0..n {
        let rej = pick(10 + k as u32, 2) == 1;
        let w = SVector::<f64, M>::from_fn(|i, _| v(20 + 2 * k as u32 + i as u32, 10.0));
        l.push(entry::<M>(2 * k, Some((w, rej))));
        if gap == 1 { l.push(entry::<M>(2 * k + 1, None)); }
        if !rej { acc += 1; for i in 0..M { sum += w[i] * w[i]; } }
    }
    let s = build(l);
    let a = pick(2, 4) as usize;
    match s.nis_consistency(ALPHA[a]) {
        Err(_) => vp_check(acc == 0, 1),
        Ok(c) => {
            vp_check(acc > 0, 1);
            vp_check(near(c.normalized_sum, sum, 1e-9), 2);
            bounds(&c, acc * M, a, 3);
            vp_check(!c.is_nees && c.name() == "NIS", 5);
            #[allow(deprecated)]
            let ok = s.is_nis_consistent(ALPHA[a]).unwrap();
            vp_check(ok == c.is_consistent(), 6);
            vp_check(ok == (sum > c.lower_bound && sum < c.upper_bound), 7);
        }
    }
}
/// rows of a lower triangular factor of the covariance
const L9: [[f64; 9]; 9] = [
    [2.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], [0.3, 1.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], [-0.2, 0.4, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.1, 0.0, 0.2, 0.8, 0.0, 0.0, 0.0, 0.0, 0.0], [0.0, -0.1, 0.3, 0.0, 0.9, 0.0, 0.0, 0.0, 0.0], [0.2, 0.0, 0.0, 0.1, -0.2, 0.7, 0.0, 0.0, 0.0],
    [0.0, 0.1, 0.0, 0.2, 0.0, 0.1, 0.6, 0.0, 0.0], [0.1, 0.0, -0.1, 0.0, 0.0, 0.2, 0.1, 0.5, 0.0], [0.0, 0.2, 0.0, 0.0, 0.1, 0.0, 0.2, 0.1, 1.1]];
fn covar(n: usize) -> M9 {
    let mut m = M9::zeros();
    for i in 0..n { for j in 0..n { for k in 0..n { m[(i, j)] += L9[i][k] * L9[j][k]; } } }
    m
}
/// |L^-1 e|^2
fn mahalanobis(e: &[f64], n: usize) -> f64 {
    let mut y = vec![0.0; n];
    let mut s = 0.0;
    for i in 0..n { let mut r = e[i]; for k in 0..i { r -= L9[i][k] * y[k]; } y[i] = r / L9[i][i]; s += y[i] * y[i]; }
    s
}
fn truth() -> Traj<Spacecraft> {
    let mut t = Traj::new();
    for k in 0..6 { t.states.push(flat(k)); }
    t
}
fn flat(k: i64) -> Spacecraft { let mut o = fixed_orbit(ep(E0 + 10 * k * S)); o.radius_km.x += k as f64; Spacecraft::new(o, 100.0, 50.0, 1.0, 1.0, 1.2, 2.2) }
/// estimate of the k-th true state, off by this much, split between nominal state and deviation
fn est(k: i64, e: &[f64; 9], cov: M9) -> KfEstimate<Spacecraft> {
    let mut s = flat(k);
    s.orbit.radius_km.x += e[0];
    s.orbit.velocity_km_s.y += e[4];
    let mut d = V9::zeros();
    for i in [1, 2, 3, 5, 6, 7, 8] { d[i] = e[i]; }
    let mut r = KfEstimate::from_covar(s, cov);
    r.state_deviation = d;
    r
}
type ScSol = ODSolution<Spacecraft, KfEstimate<Spacecraft>, U1, GroundStation>;
fn sc_sol(l: Vec<KfEstimate<Spacecraft>>) -> ScSol {
    let mut s: ScSol = ODSolution::new(BTreeMap::new(), IndexSet::new());
    for e in l { s.estimates.push(e); s.residuals.push(None); s.gains.push(None); s.filter_smoother_ratios.push(None); }
    s
}

harnesses! {
/// scalar residuals: none to three, each accepted or rejected, with or without predictions between; four levels of significance
fn h_c28_nis_scalar() { nis::<1>() }
/// residuals of two components
fn h_c28_nis_two() { nis::<2>() }
/// any sum, any bounds
fn h_c28_verdict() {
    let (a, b, x) = (v(0, 100.0), v(1, 100.0), v(2, 100.0));
    vp_assume(a < b);
    let c = NormalizedConsistency { normalized_sum: x, k: vp_f64(3, 1.0, 100.0), lower_bound: a, upper_bound: b, is_nees: pick(4, 2) == 1 };
    vp_check(c.is_consistent() == (a < x && x < b), 1);
    vp_check(c.is_overconfident() == (x > b), 2);
    vp_check(c.is_underconfident() == (x < a), 3);
    vp_check(c.has_statistical_power() == (c.k > 35.0), 4);
    vp_check((c.name() == "NEES") == c.is_nees, 5);
}
/// two estimates after the first, which is skipped; errors arbitrary, covariance of the six to nine components estimated
fn h_c28_nees() {
    let n = 6 + pick(0, 4) as usize;
    let a = pick(1, 4) as usize;
    let mk = |b: u32| { let mut e = [0.0; 9]; for i in 0..n { e[i] = v(b + i as u32, 0.5); } e };
    let (e0, e1, e2) = (mk(10), mk(20), mk(30));
    // what filters leave asymmetric does not matter
    let mut p = covar(n);
    p[(0, 1)] += 0.05;
    p[(1, 0)] -= 0.05;
    let s = sc_sol(vec![est(0, &e0, covar(n)), est(1, &e1, p), est(3, &e2, covar(n))]);
    let c = s.nees_consistency(&truth(), ALPHA[a]).unwrap();
    vp_check(near(c.normalized_sum, mahalanobis(&e1, n) + mahalanobis(&e2, n), 1e-5), 1);
    bounds(&c, 2 * n, a, 2);
    vp_check(c.is_nees && c.name() == "NEES", 4);
    #[allow(deprecated)]
    let ok = s.is_nees_consistent(&truth(), ALPHA[a]).unwrap();
    vp_check(ok == c.is_consistent(), 5);
    vp_check(sc_sol(vec![est(0, &e0, covar(n))]).nees_consistency(&truth(), None).is_err(), 6);
    vp_check(sc_sol(vec![]).nees_consistency(&truth(), None).is_err(), 7);
    // an estimate outside of the true trajectory
    vp_check(sc_sol(vec![est(0, &e0, covar(n)), est(7, &e1, covar(n))]).nees_consistency(&truth(), None).is_err(), 8);
}
/// a direction known exactly does not count
fn h_c28_nees_singular() {
    let mut p = M9::zeros();
    for i in 0..6 { p[(i, i)] = 1.0; }
    p[(0, 1)] = 1.0;
    p[(1, 0)] = 1.0;
    let mut e = [0.0; 9];
    for i in 0..6 { e[i] = v(10 + i as u32, 0.5); }
    let c = sc_sol(vec![est(0, &e, p), est(2, &e, p)]).nees_consistency(&truth(), None).unwrap();
    let mut x = (e[0] + e[1]) * (e[0] + e[1]) / 4.0;
    for i in 2..6 { x += e[i] * e[i]; }
    vp_check(near(c.normalized_sum, x, 1e-5), 1);
}
/// only accepted residuals count, in any order; anything may have been rejected
fn h_c28_normality() {
    let w = [1.2, 0.3, -0.1, -0.5, -0.9];
    let r = v(0, 100.0);
    let at = pick(1, 6) as usize;
    let turn = pick(2, 5) as usize;
    let mut l = vec![];
    for k in 0..5 { if k == at { l.push(entry::<1>(9, Some((SVector::<f64, 1>::new(r), true)))); l.push(entry::<1>(9, None)); } l.push(entry::<1>(k as i64, Some((SVector::<f64, 1>::new(w[(k + turn) % 5]), false)))); }
    if at == 5 { l.push(entry::<1>(9, Some((SVector::<f64, 1>::new(r), true)))); }
    let s = build(l);
    vp_check(near(s.ks_test_normality().unwrap(), 0.155963, 1e-5), 1);
    vp_check(s.is_normal(None).unwrap(), 2);
    vp_check(build::<1>(vec![entry(0, Some((SVector::<f64, 1>::new(r), true)))]).is_normal(None).is_err(), 3);
}
/// twenty residuals at plus or minus one and a rejected one: not normal at 5%, not to be told at 0.1%
fn h_c28_bimodal() {
    let mut l: Vec<_> = (0..20).map(|k| entry::<1>(k, Some((SVector::<f64, 1>::new(if k % 2 == 0 { 1.0 } else { -1.0 }), false)))).collect();
    l.push(entry::<1>(30, Some((SVector::<f64, 1>::new(v(0, 100.0)), true))));
    let s = build(l);
    vp_check(near(s.ks_test_normality().unwrap(), 0.341345, 1e-5), 1);
    vp_check(!s.is_normal(None).unwrap() && !s.is_normal(Some(0.05)).unwrap() && s.is_normal(Some(0.001)).unwrap(), 2);
}
/// one residual, or several equal ones: an answer or an error
fn h_c28_no_spread() {
    let x = v(0, 100.0);
    let n = 1 + pick(1, 3);
    let s = build((0..n).map(|k| entry::<1>(k, Some((SVector::<f64, 1>::new(x), false)))).collect());
    match s.is_normal(None) { Ok(_) => vp_check(n > 0, 1), Err(_) => vp_check(s.ks_test_normality().is_err(), 1) }
}
}
