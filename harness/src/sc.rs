//! Symbolic spacecraft / orbit builders.
use crate::*;
use anise::constants::frames::EARTH_J2000;
use anise::prelude::Frame;
use hifitime::{Duration, Epoch};
use nyx_space::Spacecraft;
use nyx_space::cosmic::{Mass, Orbit};
use nyx_space::linalg::{Const, OMatrix, OVector};

pub type V9 = OVector<f64, Const<9>>;
pub type M9 = OMatrix<f64, Const<9>, Const<9>>;

pub fn ns(x: i64) -> Duration { Duration::from_truncated_nanoseconds(x) }
/// TAI epoch, ns past J1900
pub fn ep(x: i64) -> Epoch { Epoch::from_tai_duration(ns(x)) }
pub const E0: i64 = 2_000_000_000_000;
/// Earth J2000 with a gravitational parameter
pub fn earth() -> Frame { EARTH_J2000.with_mu_km3_s2(398600.4418) }
pub fn v(id: u32, b: f64) -> f64 { vp_f64(id, -b, b) }
/// fully symbolic Cartesian orbit: ids base .. base+5
pub fn orbit(base: u32, epoch: Epoch) -> Orbit {
    Orbit::new(v(base, 1e5), v(base + 1, 1e5), v(base + 2, 1e5), v(base + 3, 20.0), v(base + 4, 20.0), v(base + 5, 20.0), epoch, earth())
}
pub fn fixed_orbit(epoch: Epoch) -> Orbit { Orbit::new(7000.0, 100.0, -300.0, 0.1, 7.5, 0.4, epoch, earth()) }
/// all scalars symbolic: ids base .. base+13
pub fn craft(base: u32, epoch: Epoch) -> Spacecraft {
    let mut s = Spacecraft::new(orbit(base, epoch), vp_f64(base + 6, 1.0, 1e4), vp_f64(base + 7, 0.0, 1e4), vp_f64(base + 8, 0.0, 100.0), vp_f64(base + 9, 0.0, 100.0), vp_f64(base + 10, 0.0, 2.0), vp_f64(base + 11, 0.0, 4.0));
    s.mass = Mass { extra_mass_kg: vp_f64(base + 12, 0.0, 1e3), ..s.mass };
    s
}
/// scalar view of everything a spacecraft carries, in a fixed order
pub fn scal(s: &Spacecraft) -> [f64; 13] {
    [s.orbit.radius_km.x, s.orbit.radius_km.y, s.orbit.radius_km.z, s.orbit.velocity_km_s.x, s.orbit.velocity_km_s.y, s.orbit.velocity_km_s.z,
     s.mass.dry_mass_kg, s.mass.prop_mass_kg, s.srp.area_m2, s.drag.area_m2, s.srp.coeff_reflectivity, s.drag.coeff_drag, s.mass.extra_mass_kg]
}
