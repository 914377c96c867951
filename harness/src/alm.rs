//! In-memory almanac: a synthetic SPK (degree-1 Chebyshev segments, so each body moves on a straight line)
//! and planetary constants, both through anise's own parser/containers. Body positions may be symbolic.
use anise::naif::SPK;
use anise::prelude::Almanac;
use anise::structure::planetocentric::PlanetaryData;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use anise::structure::planetocentric::phaseangle::PhaseAngle;
use anise::structure::PlanetaryDataSet;

/// ET of the middle of the segment (about 2000 s past J1900) and its half-length
pub const MID: f64 = -3155671000.0;
pub const RAD: f64 = 1e6;
pub struct Body { pub id: i32, pub center: i32, pub pos: [f64; 3], pub vel: [f64; 3] }
pub fn body(id: i32, center: i32, pos: [f64; 3], vel: [f64; 3]) -> Body { Body { id, center, pos, vel } }

fn put(b: &mut [u8], at: usize, x: f64) { b[at..at + 8].copy_from_slice(&x.to_ne_bytes()); }
pub fn spk(bodies: &[Body]) -> SPK {
    let mut b = vec![0u8; 3072 + bodies.len() * 96];
    b[..8].copy_from_slice(b"DAF/SPK ");
    b[8..12].copy_from_slice(&2u32.to_le_bytes());
    b[12..16].copy_from_slice(&6u32.to_le_bytes());
    b[76..80].copy_from_slice(&2u32.to_le_bytes());
    b[80..84].copy_from_slice(&2u32.to_le_bytes());
    b[88..96].copy_from_slice(b"LTL-IEEE");
    put(&mut b, 1024 + 16, bodies.len() as f64);
    for (i, y) in bodies.iter().enumerate() {
        let s = 1048 + 40 * i;
        put(&mut b, s, MID - RAD);
        put(&mut b, s + 8, MID + RAD);
        let d0 = 385 + 12 * i as i32;
        for (k, x) in [y.id, y.center, 1, 2, d0, d0 + 11].iter().enumerate() { b[s + 16 + 4 * k..s + 20 + 4 * k].copy_from_slice(&x.to_le_bytes()); }
        let d = 3072 + 96 * i;
        put(&mut b, d, MID);
        put(&mut b, d + 8, RAD);
        for a in 0..3 { put(&mut b, d + 16 + 16 * a, y.pos[a]); put(&mut b, d + 24 + 16 * a, y.vel[a] * RAD); }
        put(&mut b, d + 64, MID - RAD);
        put(&mut b, d + 72, 2.0 * RAD);
        put(&mut b, d + 80, 8.0);
        put(&mut b, d + 88, 1.0);
    }
    SPK::parse(b).unwrap()
}
/// planetary constants: (id, mu, radius), all rotating as Earth does
pub fn planets(p: &[(i32, f64, f64)]) -> PlanetaryDataSet { planets_rot(p, 190.0, 360.9856) }
/// with a given prime meridian and rate (deg, deg/day)
pub fn planets_rot(p: &[(i32, f64, f64)], w0: f64, w1: f64) -> PlanetaryDataSet {
    let mut set = PlanetaryDataSet::default();
    for &(id, mu, r) in p {
        let mut d = PlanetaryData { object_id: id, parent_id: 1, mu_km3_s2: mu, ..Default::default() };
        d.shape = Some(Ellipsoid::from_sphere(r));
        let ph = |o: f64, r: f64| PhaseAngle { offset_deg: o, rate_deg: r, accel_deg: 0.0, coeffs_count: 0, coeffs: [0.0; 32] };
        d.pole_right_ascension = Some(ph(0.0, 0.0));
        d.pole_declination = Some(ph(90.0, 0.0));
        d.prime_meridian = Some(ph(w0, w1));
        set.push(d, Some(id), None).unwrap();
    }
    set
}
pub fn almanac(bodies: &[Body], p: &[(i32, f64, f64)]) -> Almanac {
    let mut a = Almanac::default();
    if !bodies.is_empty() { a.spk_data.insert("v".to_string(), spk(bodies)); }
    if !p.is_empty() { a.planetary_data.insert("v".to_string(), planets(p)); }
    a
}
/// the same with flattened bodies: polar radius is `f` times the equatorial one
pub fn almanac_ell(bodies: &[Body], p: &[(i32, f64, f64)], f: f64) -> Almanac {
    let mut a = almanac(bodies, &[]);
    let mut set = PlanetaryDataSet::default();
    for &(id, mu, r) in p {
        let mut d = PlanetaryData { object_id: id, parent_id: 1, mu_km3_s2: mu, ..Default::default() };
        d.shape = Some(Ellipsoid::from_spheroid(r, r * f));
        let ph = |o: f64, r: f64| PhaseAngle { offset_deg: o, rate_deg: r, accel_deg: 0.0, coeffs_count: 0, coeffs: [0.0; 32] };
        d.pole_right_ascension = Some(ph(0.0, 0.0));
        d.pole_declination = Some(ph(90.0, 0.0));
        d.prime_meridian = Some(ph(190.0, 360.9856));
        set.push(d, Some(id), None).unwrap();
    }
    a.planetary_data.insert("v".to_string(), set);
    a
}
