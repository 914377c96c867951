use nyx_space::linalg::{Matrix2x3, Matrix3, Matrix3x2, Vector2, Vector3, Vector6};
use nyx_space::md::TargetingError;
use nyx_space::polyfit::{CommonPolynomial, Polynomial};
use nyx_space::pseudo_inverse;
use nyx_space::utils::*;
use vpharness::sc::*;
use vpharness::*;

fn v3(b: u32, r: f64) -> Vector3<f64> { Vector3::new(v(b, r), v(b + 1, r), v(b + 2, r)) }
fn close(a: &Vector3<f64>, b: &Vector3<f64>, tol: f64) -> bool { (0..3).all(|i| near(a[i], b[i], tol)) }
fn poly<const N: usize>(b: u32) -> Polynomial<N> { Polynomial { coefficients: std::array::from_fn(|i| v(b + i as u32, 3.0)) } }
/// value and derivative, by powers
fn by_powers(c: &[f64], x: f64) -> (f64, f64) { let (mut p, mut e, mut d) = (1.0, 0.0, 0.0); for (i, k) in c.iter().enumerate() { e += k * p; if i + 1 < c.len() { d += (i + 1) as f64 * c[i + 1] * p; } p *= x; } (e, d) }
fn check<const N: usize>() {
    let x = v(0, 2.0);
    let p = poly::<N>(10);
    let (e, d) = by_powers(&p.coefficients, x);
    vp_check(near(p.eval(x), e, 1e-7), 1);
    vp_check(near(p.deriv(x), d, 1e-7), 2);
    vp_check(p.eval_n_deriv(x) == (p.eval(x), p.deriv(x)) && p.order() == N - 1, 3);
    let mut r = p.coefficients;
    r.reverse();
    vp_check(Polynomial::from_most_significant(r) == p, 4);
    let k = v(1, 4.0);
    vp_check((p * k).coefficients == (k * p).coefficients && (&p * k) == p * k, 5);
    for i in 0..N { vp_check(near((p * k).coefficients[i], p.coefficients[i] * k, 1e-9), 6); }
    let mut q = p;
    q += k;
    for i in 0..N { vp_check(q.coefficients[i] == if i == 0 { p.coefficients[0] + k } else { p.coefficients[i] }, 7); }
    vp_check(Polynomial::<N>::zeros().coefficients == [0.0; N] && !p.is_nan(), 8);
}

harnesses! {
    //@ time=60
    /// polynomials of order 0: value, derivative, scaling, order of the coefficients; all symbolic
    fn h_poly0() { check::<1>() }
    //@ time=60
    /// of order 1
    fn h_poly1() { check::<2>() }
    //@ time=60
    /// of order 2
    fn h_poly2() { check::<3>() }
    //@ time=60
    /// of order 5
    fn h_poly5() { check::<6>() }
    //@ time=60
    /// sums and differences of polynomials of different order
    fn h_poly_sum() {
        let (p, q, x) = (poly::<3>(10), poly::<5>(20), v(0, 2.0));
        let (s, d) = (p + q, q - p);
        vp_check(near(s.eval(x), p.eval(x) + q.eval(x), 1e-6), 1);
        vp_check(near(d.eval(x), q.eval(x) - p.eval(x), 1e-6), 2);
        let e = poly::<3>(30);
        vp_check(near((p + e).eval(x), p.eval(x) + e.eval(x), 1e-6) && near((p - e).eval(x), p.eval(x) - e.eval(x), 1e-6), 3);
    }
    //@ time=60
    /// coefficients set to zero by power or by tolerance, and no others
    fn h_poly_zero() {
        let p = poly::<4>(10);
        let k = vp_fix_i64(vp_i64(1, 0, 5)) as usize;
        let mut q = p;
        q.zero_power(k);
        for i in 0..4 { vp_check(q.coefficients[i] == if i == k { 0.0 } else { p.coefficients[i] }, 1); }
        let tol = vp_f64(2, 0.0, 2.0);
        let mut q = p;
        q.zero_below_tolerance(tol);
        for i in 0..4 { vp_check(q.coefficients[i] == if p.coefficients[i].abs() < tol { 0.0 } else { p.coefficients[i] }, 2); }
    }
    //@ time=60
    /// common polynomials: f(x) = a x^2 + b x + c and so on, derivative, and coefficients by power
    fn h_common() {
        let (a, b, c, x) = (v(1, 3.0), v(2, 3.0), v(3, 3.0), v(0, 2.0));
        let k = vp_fix_i64(vp_i64(4, 0, 2)) as usize;
        let p = [CommonPolynomial::Constant { a }, CommonPolynomial::Linear { a, b }, CommonPolynomial::Quadratic { a, b, c }][k];
        let cs = [vec![a], vec![b, a], vec![c, b, a]][k].clone();
        let (e, d) = by_powers(&cs, x);
        vp_check(near(p.eval(x), e, 1e-8) && near(p.deriv(x), d, 1e-8), 1);
        for i in 0..5 { match p.coeff_in_order(i) { Ok(y) => vp_check(i <= k && y == cs[i], 2), Err(_) => vp_check(i > k, 3) } }
        // replacing or adding to a coefficient beyond the order is refused
        for i in 0..5 { vp_check(p.with_val_in_order(1.0, i).is_ok() == (i <= k) && p.add_val_in_order(1.0, i).is_ok() == (i <= k), 4); }
    }
    //@ time=60
    /// the wrapped angle differs from the angle by whole turns and lies within the bounds
    fn h_angles() {
        let a = v(0, 1500.0);
        let w = between_0_360(a);
        vp_check(w >= 0.0 && w <= 360.0, 1);
        let turns = |d: f64, full: f64| (-9..=9).any(|k| near(d, k as f64 * full, 1e-9));
        vp_check(turns(w - a, 360.0), 2);
        let w = between_pm_180(a);
        vp_check(w >= -180.0 && w <= 180.0, 3);
        vp_check(turns(w - a, 360.0), 4);
        let x = vp_fix_i64(vp_i64(1, 1, 4)) as f64 * 100.0;
        let w = between_pm_x(a, x);
        vp_check(w >= -x && w <= x && turns(w - a, 2.0 * x), 5);
    }
    //@ time=60
    /// rotation matrices: elementary rotations of the axes by any angle, orthogonal
    fn h_rotations() {
        let t = v(0, 10.0);
        let (s, c) = (t.sin(), t.cos());
        let axis = vp_fix_i64(vp_i64(1, 0, 2)) as usize;
        let m = [r1(t), r2(t), r3(t)][axis];
        let (j, k) = ((axis + 1) % 3, (axis + 2) % 3);
        for i in 0..3 { let want = if i == axis { 1.0 } else { 0.0 }; vp_check(near(m[(axis, i)], want, 1e-12) && near(m[(i, axis)], want, 1e-12), 1); }
        vp_check(near(m[(j, j)], c, 1e-12) && near(m[(k, k)], c, 1e-12) && near(m[(j, k)], s, 1e-12) && near(m[(k, j)], -s, 1e-12), 2);
        let o = m * m.transpose();
        for i in 0..3 { for l in 0..3 { vp_check(near(o[(i, l)], if i == l { 1.0 } else { 0.0 }, 1e-9), 3); } }
    }
    //@ time=120
    /// rotating a vector about an axis (any length): Rodrigues; the axis is concrete in direction
    fn h_rotv() {
        let (x, t, l) = (v3(1, 3.0), v(0, 6.0), vp_f64(5, 0.5, 4.0));
        let k = vp_fix_i64(vp_i64(6, 0, 2)) as usize;
        let u = [Vector3::new(0.6, 0.0, 0.8), Vector3::new(0.0, 1.0, 0.0), Vector3::new(2.0 / 3.0, -1.0 / 3.0, 2.0 / 3.0)][k];
        let y = rotv(&x, &(u * l), t);
        let want = u * u.dot(&x) + (x - u * u.dot(&x)) * t.cos() + u.cross(&x) * t.sin();
        vp_check(close(&y, &want, 1e-6), 1);
    }
    //@ time=60
    /// cross product matrix, diagonal matrices, errors between states
    fn h_matrices() {
        let (a, b) = (v3(0, 5.0), v3(3, 5.0));
        vp_check(close(&(tilde_matrix(&a) * b), &a.cross(&b), 1e-9), 1);
        let m = Matrix3::from_fn(|i, j| v(10 + 3 * i as u32 + j as u32, 1.0));
        let off = (0..9).any(|k| k % 4 != 0 && m[(k / 3, k % 3)].abs() > f64::EPSILON);
        vp_check(is_diagonal(&m) != off, 2);
        let (x, y) = (Vector6::new(a.x, a.y, a.z, b.x, b.y, b.z), Vector6::from_fn(|i, _| v(20 + i as u32, 5.0)));
        let (r, w) = rss_orbit_vec_errors(&x, &y);
        let s = |k: usize| (0..3).map(|i| (x[i + k] - y[i + k]) * (x[i + k] - y[i + k])).sum::<f64>();
        vp_check(r >= 0.0 && w >= 0.0 && near(r * r, s(0), 1e-6) && near(w * w, s(3), 1e-6), 3);
        let e = rss_errors(&x, &y);
        vp_check(e >= 0.0 && near(e * e, s(0) + s(3), 1e-6), 4);
        let (lo, w, z) = (v(30, 10.0), vp_f64(31, 0.1, 10.0), v(32, 20.0));
        let n = normalize(z, lo, lo + w);
        vp_check(near(n * w, 2.0 * (z - lo) - w, 1e-6), 5);
        vp_check(near(denormalize(n, lo, lo + w), z, 1e-6), 6);
        vp_check(kronecker(a.x, a.x) == 1.0 && (kronecker(a.x, a.y) == 1.0) == ((a.x - a.y).abs() <= f64::EPSILON), 7);
    }
    //@ time=120
    /// projection onto and rejection from a vector (its direction concrete): parallel plus perpendicular part
    fn h_project() {
        let a = v3(1, 3.0);
        let l = vp_f64(5, 0.5, 4.0);
        let k = vp_fix_i64(vp_i64(6, 0, 3)) as usize;
        let u = [Vector3::new(0.6, 0.0, 0.8), Vector3::new(0.0, -1.0, 0.0), Vector3::new(2.0, -1.0, 2.0), Vector3::zeros()][k];
        let b = u * l;
        let p = projv(&a, &b);
        let q = perpv(&a, &b);
        let want = if k == 3 { Vector3::zeros() } else { u * (a.dot(&u) / u.norm_squared()) };
        vp_check(close(&p, &want, 1e-6), 1);
        vp_check(close(&q, &(a - want), 1e-6), 2);
    }
    //@ time=60
    /// unit vectors
    fn h_unit() {
        let a = v3(1, 3.0);
        let u = unitize(a);
        let n = a.norm();
        vp_check(if n < f64::EPSILON { u == a } else { close(&(u * n), &a, 1e-9) && near(u.norm_squared(), 1.0, 1e-9) }, 1);
        let e = spherical_to_cartesian(v(5, 1.0) - 1.0, v(6, 3.0), v(7, 3.0));
        vp_check(e == Vector3::zeros(), 2);
        let (r, t, f) = (vp_f64(8, 0.1, 9.0), v(9, 3.0), v(10, 3.0));
        let w = spherical_to_cartesian(r, t, f);
        vp_check(close(&w, &(Vector3::new(f.sin() * t.cos(), f.sin() * t.sin(), f.cos()) * r), 1e-9), 3);
        // there and back
        let x = vp_f64(11, 0.1, 9.0);
        let d = [Vector3::new(0.48, -0.64, 0.6), Vector3::new(-0.48, 0.64, -0.6), Vector3::new(0.0, 0.6, -0.8), Vector3::new(-0.64, -0.48, 0.6), Vector3::new(0.0, 0.0, -1.0)][vp_fix_i64(vp_i64(12, 0, 4)) as usize] * x;
        let (r, t, f) = cartesian_to_spherical(&d);
        vp_check(near(r, x, 1e-6) && t.abs() <= 3.1416 && f >= 0.0 && f <= 3.1416, 4);
        vp_check(close(&spherical_to_cartesian(r, t, f), &d, 1e-6), 5);
    }
    //@ time=120
    /// pseudo-inverse: the inverse of a square matrix, least squares when tall, smallest solution when wide
    fn h_pseudo() {
        let (a, b) = (Vector2::new(v(0, 3.0), v(1, 3.0)), v3(2, 3.0));
        let m = Matrix2x3::new(2.0, 1.0, -1.0, 0.5, 3.0, 1.0);
        let w: Result<Matrix3x2<f64>, TargetingError> = pseudo_inverse!(&m);
        let x = w.unwrap() * a;
        vp_check(near((m * x)[0], a[0], 1e-9) && near((m * x)[1], a[1], 1e-9), 1);
        let null = m.row(0).transpose().cross(&m.row(1).transpose());
        vp_check(near(x.dot(&null), 0.0, 1e-9), 2);
        let t = m.transpose();
        let w: Result<Matrix2x3<f64>, TargetingError> = pseudo_inverse!(&t);
        let y = w.unwrap() * b;
        let r = t.transpose() * (t * y - b);
        vp_check(near(r[0], 0.0, 1e-8) && near(r[1], 0.0, 1e-8), 3);
        let q = Matrix3::new(2.0, 1.0, -1.0, 0.5, 3.0, 1.0, 0.0, 1.0, 2.0);
        let w: Result<Matrix3<f64>, TargetingError> = pseudo_inverse!(&q);
        vp_check(close(&(q * (w.unwrap() * b)), &b, 1e-8), 4);
        let z = Matrix2x3::new(1.0, 2.0, 3.0, 2.0, 4.0, 6.0);
        let w: Result<Matrix3x2<f64>, TargetingError> = pseudo_inverse!(&z);
        vp_check(w.is_err(), 5);
    }
}
