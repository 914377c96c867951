//! Hash-consed symbolic expressions over mathematical Int / Real / Bool, with interval bounds and a
//! handful of concrete sample evaluations per node (used to avoid needless feasibility queries and to
//! propose concrete counterexamples; never to conclude that a property holds).
use rustc_hash::FxHashMap as HashMap;
use std::fmt::Write;

pub type Id = u32;
pub const K: usize = 16;
pub type Mask = u32;
pub const FULL: Mask = ((1u64 << K) - 1) as Mask;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sort { B, I, R }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Var(u32),
    IC(i128),
    RC(u64),
    BC(bool),
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    IDiv(Id, Id), // SMT div (floor for positive divisor)
    IMod(Id, Id),
    RDiv(Id, Id),
    Neg(Id),
    ToR(Id),
    Floor(Id), // Real -> Int
    Ite(Id, Id, Id),
    Lt(Id, Id),
    Le(Id, Id),
    Eq(Id, Id),
    And(Id, Id),
    Or(Id, Id),
    Not(Id),
    Abs(Id),
    Sqrt(Id),
    Uf(MFn, Id, Id), // second arg = u32::MAX when unary
    Byte(Id, u8),   // i-th byte of the bit pattern of a Real / Int
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum MFn { Sin, Cos, Tan, Asin, Acos, Atan, Atan2, Exp, Ln, Log10, Log2, Pow, Sinh, Cosh, Tanh, Asinh, Acosh, Atanh, Cbrt, Exp2, Expm1, Log1p, Hypot }

impl MFn {
    pub fn name(self) -> &'static str {
        use MFn::*;
        match self { Sin => "sin_", Cos => "cos_", Tan => "tan_", Asin => "asin_", Acos => "acos_", Atan => "atan_", Atan2 => "atan2_", Exp => "exp_", Ln => "ln_", Log10 => "log10_", Log2 => "log2_", Pow => "pow_", Sinh => "sinh_", Cosh => "cosh_", Tanh => "tanh_", Asinh => "asinh_", Acosh => "acosh_", Atanh => "atanh_", Cbrt => "cbrt_", Exp2 => "exp2_", Expm1 => "expm1_", Log1p => "log1p_", Hypot => "hypot_" }
    }
    pub fn eval(self, a: f64, b: f64) -> f64 {
        use MFn::*;
        match self { Sin => a.sin(), Cos => a.cos(), Tan => a.tan(), Asin => a.asin(), Acos => a.acos(), Atan => a.atan(), Atan2 => a.atan2(b), Exp => a.exp(), Ln => a.ln(), Log10 => a.log10(), Log2 => a.log2(), Pow => a.powf(b), Sinh => a.sinh(), Cosh => a.cosh(), Tanh => a.tanh(), Asinh => a.asinh(), Acosh => a.acosh(), Atanh => a.atanh(), Cbrt => a.cbrt(), Exp2 => a.exp2(), Expm1 => a.exp_m1(), Log1p => a.ln_1p(), Hypot => a.hypot(b) }
    }
    pub fn range(self) -> (f64, f64) {
        use MFn::*;
        let pi = std::f64::consts::PI;
        match self { Sin | Cos | Tanh => (-1.0, 1.0), Asin | Atan => (-pi / 2.0, pi / 2.0), Acos => (0.0, pi), Atan2 => (-pi, pi), Exp | Exp2 | Hypot | Pow => (0.0, f64::INFINITY), Cosh => (1.0, f64::INFINITY), Acosh => (0.0, f64::INFINITY), _ => (f64::NEG_INFINITY, f64::INFINITY) }
    }
    pub fn binary(self) -> bool { matches!(self, MFn::Atan2 | MFn::Pow | MFn::Hypot) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Iv {
    B,
    I(i128, i128), // i128::MIN / MAX mean unbounded
    R(f64, f64),
}

#[derive(Clone)]
pub enum Samp {
    B(Mask),
    I(Box<[i128; K]>),
    R(Box<[f64; K]>),
}

pub struct Var {
    pub id: u32, // harness id
    pub sort: Sort,
    pub lo: String,
    pub hi: String,
    pub node: Id,
}

#[derive(Clone, Copy, Debug)]
pub enum Val { B(bool), I(i128), R(f64) }
impl Val {
    fn b(self) -> bool { matches!(self, Val::B(true)) }
    fn r(self) -> f64 { match self { Val::R(x) => x, Val::I(x) => x as f64, Val::B(b) => b as i32 as f64 } }
    fn i(self) -> i128 { match self { Val::I(x) => x, Val::R(x) => x as i128, Val::B(b) => b as i128 } }
}
/// a concrete assignment of the variables with memoised evaluation
pub struct Wit { pub vals: Vec<Val>, cache: std::cell::RefCell<HashMap<Id, Val>> }
impl Wit { pub fn new(vals: Vec<Val>) -> Wit { Wit { vals, cache: Default::default() } } }

pub struct Store {
    pub nodes: Vec<N>,
    pub sorts: Vec<Sort>,
    pub iv: Vec<Iv>,
    pub samp: Vec<Samp>,
    map: HashMap<N, Id>,
    pub vars: Vec<Var>,
    varset: HashMap<Id, std::rc::Rc<Vec<u64>>>,
    pub rng: u64,
}

pub fn imin() -> i128 { i128::MIN }
pub fn imax() -> i128 { i128::MAX }
fn sat_add(a: i128, b: i128) -> i128 {
    if a == imin() || b == imin() { return imin(); }
    if a == imax() || b == imax() { return imax(); }
    a.saturating_add(b)
}
fn sat_mul(a: i128, b: i128) -> i128 {
    if a == 0 || b == 0 { return 0; }
    a.saturating_mul(b)
}
fn neg_sat(a: i128) -> i128 {
    if a == imin() { imax() } else if a == imax() { imin() } else { -a }
}
fn floor_div(a: i128, b: i128) -> i128 {
    // SMT-LIB div: floor when b > 0
    if b == 0 { return 0; }
    a.div_euclid(b)
}

impl Store {
    pub fn new(seed: u64) -> Store {
        Store { nodes: vec![], sorts: vec![], iv: vec![], samp: vec![], map: Default::default(), vars: vec![], varset: Default::default(), rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1 }
    }
    fn rand(&mut self) -> u64 {
        let mut x = self.rng;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn sort(&self, e: Id) -> Sort { self.sorts[e as usize] }
    pub fn node(&self, e: Id) -> &N { &self.nodes[e as usize] }
    pub fn riv(&self, e: Id) -> (f64, f64) { match self.iv[e as usize] { Iv::R(a, b) => (a, b), _ => panic!("riv of {:?}", self.nodes[e as usize]) } }
    pub fn iiv(&self, e: Id) -> (i128, i128) { match self.iv[e as usize] { Iv::I(a, b) => (a, b), _ => panic!("iiv") } }
    pub fn bmask(&self, e: Id) -> Mask { match &self.samp[e as usize] { Samp::B(m) => *m, _ => panic!("bmask") } }
    fn sr(&self, e: Id) -> &[f64; K] { match &self.samp[e as usize] { Samp::R(b) => b, _ => panic!("sr {:?}", self.nodes[e as usize]) } }
    fn si(&self, e: Id) -> &[i128; K] { match &self.samp[e as usize] { Samp::I(b) => b, _ => panic!("si {:?}", self.nodes[e as usize]) } }
    pub fn sample_r(&self, e: Id, k: usize) -> f64 { self.sr(e)[k] }
    pub fn sample_i(&self, e: Id, k: usize) -> i128 { self.si(e)[k] }

    fn intern(&mut self, n: N, sort: Sort, iv: Iv, f: impl FnOnce(&Store) -> Samp) -> Id {
        if let Some(&i) = self.map.get(&n) { return i; }
        let s = f(self);
        let i = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.sorts.push(sort);
        self.iv.push(iv);
        self.samp.push(s);
        self.map.insert(n, i);
        i
    }

    pub fn bc(&mut self, b: bool) -> Id { self.intern(N::BC(b), Sort::B, Iv::B, |_| Samp::B(if b { FULL } else { 0 })) }
    pub fn ic(&mut self, v: i128) -> Id { self.intern(N::IC(v), Sort::I, Iv::I(v, v), |_| Samp::I(Box::new([v; K]))) }
    pub fn rc(&mut self, v: f64) -> Id {
        assert!(v.is_finite(), "non-finite real constant");
        let v = if v == 0.0 { 0.0 } else { v };
        self.intern(N::RC(v.to_bits()), Sort::R, Iv::R(v, v), |_| Samp::R(Box::new([v; K])))
    }
    pub fn var_r(&mut self, hid: u32, lo: f64, hi: f64) -> Id {
        if let Some(v) = self.vars.iter().find(|v| v.id == hid) { return v.node; }
        let mut s = [0.0; K];
        for k in 0..K {
            let u = (self.rand() >> 11) as f64 / (1u64 << 53) as f64;
            let x = match k {
                0 => lo + 0.5 * (hi - lo) + 0.013 * (hi - lo) * (u - 0.5),
                // log-ish spread near the low end of wide ranges
                1..=4 if lo > 0.0 && hi / lo > 1e3 => (lo.ln() + u * (hi.ln() - lo.ln())).exp(),
                _ => lo + u * (hi - lo),
            };
            s[k] = x.clamp(lo, hi);
        }
        let idx = self.vars.len() as u32;
        let e = self.intern(N::Var(idx), Sort::R, Iv::R(lo, hi), |_| Samp::R(Box::new(s)));
        self.vars.push(Var { id: hid, sort: Sort::R, lo: rat(lo), hi: rat(hi), node: e });
        e
    }
    pub fn var_i(&mut self, hid: u32, lo: i128, hi: i128) -> Id {
        if let Some(v) = self.vars.iter().find(|v| v.id == hid) { return v.node; }
        let mut s = [0i128; K];
        let span = hi.wrapping_sub(lo) as u128;
        for k in 0..K {
            let r = ((self.rand() as u128) << 64) | self.rand() as u128;
            s[k] = if span == u128::MAX { r as i128 } else { lo.wrapping_add((r % (span + 1)) as i128) };
        }
        let idx = self.vars.len() as u32;
        let e = self.intern(N::Var(idx), Sort::I, Iv::I(lo, hi), |_| Samp::I(Box::new(s)));
        self.vars.push(Var { id: hid, sort: Sort::I, lo: int(lo), hi: int(hi), node: e });
        e
    }
    pub fn as_ic(&self, e: Id) -> Option<i128> { if let N::IC(v) = self.nodes[e as usize] { Some(v) } else { None } }
    pub fn as_rc(&self, e: Id) -> Option<f64> { if let N::RC(v) = self.nodes[e as usize] { Some(f64::from_bits(v)) } else { None } }
    pub fn as_bc(&self, e: Id) -> Option<bool> { if let N::BC(v) = self.nodes[e as usize] { Some(v) } else { None } }

    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        match self.sort(a) {
            Sort::R => {
                if let (Some(x), Some(y)) = (self.as_rc(a), self.as_rc(b)) { if (x + y).is_finite() { return self.rc(x + y); } }
                if self.as_rc(a) == Some(0.0) { return b; }
                if self.as_rc(b) == Some(0.0) { return a; }
                if let N::Neg(x) = *self.node(a) { return self.sub(b, x); }
                if let N::Neg(x) = *self.node(b) { return self.sub(a, x); }
                if let Some(r) = self.lin_combine(a, b, 1) { return r; }
                let ((al, ah), (bl, bh)) = (self.riv(a), self.riv(b));
                self.intern(N::Add(a, b), Sort::R, Iv::R(wl(al + bl), wh(ah + bh)), |s| s.map2r(a, b, |x, y| x + y))
            }
            Sort::I => {
                match (self.as_ic(a), self.as_ic(b)) {
                    (Some(x), Some(y)) => { if let Some(z) = x.checked_add(y) { return self.ic(z); } }
                    (Some(0), _) => return b,
                    (_, Some(0)) => return a,
                    _ => {}
                }
                // (x + c1) + c2
                for (p, q) in [(a, b), (b, a)] {
                    if let Some(c2) = self.as_ic(q) {
                        if let N::Add(x, y) = *self.node(p) {
                            for (u, v) in [(x, y), (y, x)] {
                                if let Some(c1) = self.as_ic(v) {
                                    if let Some(c) = c1.checked_add(c2) {
                                        let cc = self.ic(c);
                                        return self.add(u, cc);
                                    }
                                }
                            }
                        }
                    }
                }
                if let Some(r) = self.lin_combine(a, b, 1) { return r; }
                let ((al, ah), (bl, bh)) = (self.iiv(a), self.iiv(b));
                self.intern(N::Add(a, b), Sort::I, Iv::I(sat_add(al, bl), sat_add(ah, bh)), |s| s.map2i(a, b, |x, y| x.wrapping_add(y)))
            }
            _ => panic!("add bool"),
        }
    }
    /// linear form over integer atoms, rational coefficients
    fn lin(&mut self, e: Id, k: (i128, i128), out: &mut Lin, depth: u32) -> Option<()> {
        if depth > 14 || out.t.len() > 8 { return None; }
        match *self.node(e) {
            N::IC(v) => { out.c = radd(out.c, rmul(k, (v, 1))?)?; }
            N::RC(v) => { let d = dec(f64::from_bits(v)); if d.1 == 0 { return None; } out.c = radd(out.c, rmul(k, d)?)?; }
            N::Add(a, b) => { self.lin(a, k, out, depth + 1)?; self.lin(b, k, out, depth + 1)?; }
            N::Sub(a, b) => { self.lin(a, k, out, depth + 1)?; self.lin(b, (-k.0, k.1), out, depth + 1)?; }
            N::Neg(a) => self.lin(a, (-k.0, k.1), out, depth + 1)?,
            N::ToR(a) => self.lin(a, k, out, depth + 1)?,
            N::Mul(a, b) => {
                let (c, x) = match (self.node(a).clone(), self.node(b).clone()) {
                    (N::IC(v), _) => ((v, 1), b), (_, N::IC(v)) => ((v, 1), a),
                    (N::RC(v), _) => (dec(f64::from_bits(v)), b), (_, N::RC(v)) => (dec(f64::from_bits(v)), a),
                    _ => { if self.sort(e) == Sort::I { return out.add(e, k); } return None; }
                };
                if c.1 == 0 { return None; }
                self.lin(x, rmul(k, c)?, out, depth + 1)?;
            }
            N::IMod(a, b) => {
                if let Some(c) = self.as_ic(b) {
                    if c > 0 {
                        let q = self.idiv(a, b);
                        out.mods += 1;
                        self.lin(a, k, out, depth + 1)?;
                        return self.lin(q, rmul(k, (-c, 1))?, out, depth + 1);
                    }
                }
                return out.add(e, k);
            }
            _ => { if self.sort(e) != Sort::I { return None; } return out.add(e, k); }
        }
        Some(())
    }
    fn lin_combine(&mut self, a: Id, b: Id, sgn: i128) -> Option<Id> {
        let real = self.sort(a) == Sort::R;
        let (mut x, mut y) = (Lin::default(), Lin::default());
        self.lin(a, (1, 1), &mut x, 0)?;
        self.lin(b, (sgn, 1), &mut y, 0)?;
        let (nx, ny) = (x.t.len(), y.t.len());
        if nx + ny == 0 { return None; }
        let mut z = x;
        let (cx, cy) = (z.c, y.c);
        z.c = radd(z.c, y.c)?;
        for (e, k) in y.t { z.add(e, k)?; }
        z.t.retain(|_, k| k.0 != 0);
        let merged = z.t.len() < nx + ny || (cx.0 != 0 && cy.0 != 0);
        if !merged { return None; }
        // a remainder that did not cancel against its quotient stays as it was
        let mods = z.mods + y.mods;
        let divs = z.t.keys().filter(|e| matches!(self.node(**e), N::IDiv(..))).count() as u32;
        if mods > 0 && divs > 0 && z.t.len() as u32 > 3 { return None; }
        if mods > 0 && divs >= mods { return None; }
        let mut d = z.c.1;
        for k in z.t.values() { d = d / gcd(d, k.1) * k.1; if d > 1 << 100 { return None; } }
        if !real && d != 1 { return None; }
        let mut acc = self.ic(z.c.0.checked_mul(d / z.c.1)?);
        // order: terms first so that constants end up last
        let mut r: Option<Id> = None;
        for (e, k) in &z.t {
            let n = k.0.checked_mul(d / k.1)?;
            let t = if n == 1 { *e } else { let c = self.ic(n); self.mul_plain(*e, c) };
            r = Some(match r { None => t, Some(p) => if n == -1 { self.raw_i(N::Sub(p, *e)) } else { self.raw_i(N::Add(p, t)) } });
        }
        let i = match r { None => acc, Some(p) => { if self.as_ic(acc) != Some(0) { acc = self.raw_i(N::Add(p, acc)); acc } else { p } } };
        if !real { return Some(i); }
        let tr = self.to_r(i);
        if d == 1 { return Some(tr); }
        let inv = 1.0 / d as f64;
        let (n, dd) = dec(inv);
        if n != 1 || dd != d { let g = gcd(n, dd); if n / g != 1 || dd / g != d { return None; } }
        let c = self.rc(inv);
        Some(self.mul(c, tr))
    }
    fn mul_plain(&mut self, a: Id, b: Id) -> Id { self.raw_i(N::Mul(a.min(b), a.max(b))) }
    fn raw_i(&mut self, n: N) -> Id {
        let (a, b) = match n { N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) => (a, b), _ => panic!("raw_i") };
        let ((al, ah), (bl, bh)) = (self.iiv(a), self.iiv(b));
        match n {
            N::Add(..) => self.intern(n, Sort::I, Iv::I(sat_add(al, bl), sat_add(ah, bh)), |s| s.map2i(a, b, |x, y| x.wrapping_add(y))),
            N::Sub(..) => self.intern(n, Sort::I, Iv::I(sat_add(al, neg_sat(bh)), sat_add(ah, neg_sat(bl))), |s| s.map2i(a, b, |x, y| x.wrapping_sub(y))),
            _ => {
                let c = [sat_mul(al, bl), sat_mul(al, bh), sat_mul(ah, bl), sat_mul(ah, bh)];
                let iv = Iv::I(*c.iter().min().unwrap(), *c.iter().max().unwrap());
                self.intern(n, Sort::I, iv, |s| s.map2i(a, b, |x, y| x.wrapping_mul(y)))
            }
        }
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        match self.sort(a) {
            Sort::R => {
                if a == b { return self.rc(0.0); }
                if let (Some(x), Some(y)) = (self.as_rc(a), self.as_rc(b)) { if (x - y).is_finite() { return self.rc(x - y); } }
                if self.as_rc(b) == Some(0.0) { return a; }
                if self.as_rc(a) == Some(0.0) { return self.neg(b); }
                if let N::Neg(x) = *self.node(b) { return self.add(a, x); }
                if let N::Add(x, y) = *self.node(a) {
                    if x == b { return y; }
                    if y == b { return x; }
                }
                if let Some(r) = self.lin_combine(a, b, -1) { return r; }
                let ((al, ah), (bl, bh)) = (self.riv(a), self.riv(b));
                self.intern(N::Sub(a, b), Sort::R, Iv::R(wl(al - bh), wh(ah - bl)), |s| s.map2r(a, b, |x, y| x - y))
            }
            Sort::I => {
                if a == b { return self.ic(0); }
                if let Some(c) = self.as_ic(b) { if c != imin() { let m = self.ic(-c); return self.add(a, m); } }
                if let N::Add(x, y) = *self.node(a) {
                    if x == b { return y; }
                    if y == b { return x; }
                    if self.as_ic(y).is_some() { if let N::Add(..) = *self.node(b) {} else { let s = self.sub(x, b); return self.add(s, y); } }
                }
                if let N::Sub(x, y) = *self.node(b) { if x == a { return y; } }
                if let Some(r) = self.lin_combine(a, b, -1) { return r; }
                let ((al, ah), (bl, bh)) = (self.iiv(a), self.iiv(b));
                self.intern(N::Sub(a, b), Sort::I, Iv::I(sat_add(al, neg_sat(bh)), sat_add(ah, neg_sat(bl))), |s| s.map2i(a, b, |x, y| x.wrapping_sub(y)))
            }
            _ => panic!("sub bool"),
        }
    }
    pub fn neg(&mut self, a: Id) -> Id {
        match self.sort(a) {
            Sort::R => {
                if let Some(x) = self.as_rc(a) { return self.rc(-x); }
                match *self.node(a) {
                    N::Neg(x) => return x,
                    N::Sub(x, y) => return self.sub(y, x),
                    _ => {}
                }
                let (l, h) = self.riv(a);
                self.intern(N::Neg(a), Sort::R, Iv::R(-h, -l), |s| s.map1r(a, |x| -x))
            }
            _ => { let z = self.ic(0); self.sub(z, a) }
        }
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        match self.sort(a) {
            Sort::R => {
                if let (Some(x), Some(y)) = (self.as_rc(a), self.as_rc(b)) { if (x * y).is_finite() { return self.rc(x * y); } }
                for (p, q) in [(a, b), (b, a)] {
                    if let Some(c) = self.as_rc(p) {
                        if c == 0.0 { return p; }
                        if c == 1.0 { return q; }
                        if c == -1.0 { return self.neg(q); }
                        // degrees <-> radians there and back (the product of the two rounded constants is 1 up to rounding)
                        if let N::Mul(u, w) = *self.node(q) {
                            for (k, x) in [(u, w), (w, u)] { if let Some(d) = self.as_rc(k) { if (c * d - 1.0).abs() < 1e-15 && (c > 57.0 && c < 58.0 || d > 57.0 && d < 58.0) { return x; } } }
                        }
                    }
                    if let N::Neg(x) = *self.node(p) {
                        let m = self.mul(x, q);
                        return self.neg(m);
                    }
                    if let N::RDiv(x, y) = *self.node(p) { if y == q { return x; } }
                }
                if a == b {
                    if let N::Sqrt(x) = *self.node(a) { return x; }
                    if let N::Abs(x) = *self.node(a) { return self.mul(x, x); }
                }
                let ((al, ah), (bl, bh)) = (self.riv(a), self.riv(b));
                let (l, h) = if a == b {
                    let m = al.abs().max(ah.abs());
                    let lo = if al > 0.0 || ah < 0.0 { al.abs().min(ah.abs()) } else { 0.0 };
                    (wl(lo * lo).max(0.0), wh(m * m))
                } else {
                    mulr(al, ah, bl, bh)
                };
                self.intern(N::Mul(a, b), Sort::R, Iv::R(l, h), |s| s.map2r(a, b, |x, y| x * y))
            }
            Sort::I => {
                if let (Some(x), Some(y)) = (self.as_ic(a), self.as_ic(b)) { if let Some(z) = x.checked_mul(y) { return self.ic(z); } }
                for (p, q) in [(a, b), (b, a)] {
                    if let Some(c) = self.as_ic(p) {
                        if c == 0 { return p; }
                        if c == 1 { return q; }
                        if let N::Ite(k, x, y) = *self.node(q) {
                            if self.as_ic(x).is_some() || self.as_ic(y).is_some() {
                                let x1 = self.mul(x, p);
                                let y1 = self.mul(y, p);
                                return self.ite(k, x1, y1);
                            }
                        }
                        if let N::Mul(x, y) = *self.node(q) {
                            for (u, v) in [(x, y), (y, x)] {
                                if let Some(d) = self.as_ic(v) { if let Some(cd) = d.checked_mul(c) { let k = self.ic(cd); return self.mul(u, k); } }
                            }
                        }
                    }
                }
                let ((al, ah), (bl, bh)) = (self.iiv(a), self.iiv(b));
                let c = [sat_mul(al, bl), sat_mul(al, bh), sat_mul(ah, bl), sat_mul(ah, bh)];
                let (l, h) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                self.intern(N::Mul(a, b), Sort::I, Iv::I(l, h), |s| s.map2i(a, b, |x, y| x.wrapping_mul(y)))
            }
            _ => panic!("mul bool"),
        }
    }
    pub fn rdiv(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.as_rc(a), self.as_rc(b)) { if y != 0.0 && (x / y).is_finite() { return self.rc(x / y); } }
        if let Some(c) = self.as_rc(b) {
            if c == 1.0 { return a; }
            if c == -1.0 { return self.neg(a); }
        }
        if self.as_rc(a) == Some(0.0) { return a; }
        if a == b { return self.rc(1.0); }
        if let N::Neg(x) = *self.node(a) { let d = self.rdiv(x, b); return self.neg(d); }
        if let N::Neg(x) = *self.node(b) { let d = self.rdiv(a, x); return self.neg(d); }
        let ((al, ah), (bl, bh)) = (self.riv(a), self.riv(b));
        let (l, h) = if bl > 0.0 || bh < 0.0 {
            mulr(al, ah, wl(1.0 / bh), wh(1.0 / bl))
        } else {
            (f64::NEG_INFINITY, f64::INFINITY)
        };
        self.intern(N::RDiv(a, b), Sort::R, Iv::R(l, h), |s| s.map2r(a, b, |x, y| x / y))
    }
    pub fn idiv(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.as_ic(a), self.as_ic(b)) { return self.ic(floor_div(x, y)); }
        let (al, ah) = self.iiv(a);
        let mut iv = Iv::I(imin(), imax());
        if let Some(c) = self.as_ic(b) {
            if c == 1 { return a; }
            if c > 0 {
                let l = if al == imin() { al } else { floor_div(al, c) };
                let h = if ah == imax() { ah } else { floor_div(ah, c) };
                if l == h && l != imin() && l != imax() { return self.ic(l); }
                iv = Iv::I(l, h);
                if let N::IDiv(x, d) = *self.node(a) {
                    if let Some(d) = self.as_ic(d) { if d > 0 { if let Some(k) = d.checked_mul(c) { if k < 1 << 100 { let k = self.ic(k); return self.idiv(x, k); } } } }
                }
                // (x*c*k) div c
                if let N::Mul(x, y) = *self.node(a) {
                    for (u, v) in [(x, y), (y, x)] {
                        if let Some(d) = self.as_ic(v) { if d % c == 0 { let k = self.ic(d / c); return self.mul(u, k); } }
                    }
                }
                // (k*c + r) div c
                if let N::Add(x, y) = *self.node(a) {
                    if let Some(d) = self.as_ic(y) { if d % c == 0 { let q = self.idiv(x, b); let k = self.ic(d / c); return self.add(q, k); } }
                    if let Some(d) = self.as_ic(x) { if d % c == 0 { let q = self.idiv(y, b); let k = self.ic(d / c); return self.add(q, k); } }
                }
            }
        } else {
            let (bl, _) = self.iiv(b);
            if bl > 0 { iv = Iv::I(if al < 0 { al } else { 0 }, if ah < 0 { 0 } else { ah }); }
        }
        self.intern(N::IDiv(a, b), Sort::I, iv, |s| s.map2i(a, b, floor_div))
    }
    pub fn imod(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.as_ic(a), self.as_ic(b)) { if y != 0 { return self.ic(x.rem_euclid(y)); } }
        let (al, ah) = self.iiv(a);
        let mut iv = Iv::I(0, imax());
        if let Some(c) = self.as_ic(b) {
            if c > 0 {
                if al >= 0 && ah < c { return a; }
                if al != imin() && ah != imax() && floor_div(al, c) == floor_div(ah, c) {
                    let k = floor_div(al, c) * c;
                    let kk = self.ic(-k);
                    return self.add(a, kk);
                }
                iv = Iv::I(0, c - 1);
                if let N::Mul(x, y) = *self.node(a) { for v in [x, y] { if let Some(d) = self.as_ic(v) { if d % c == 0 { return self.ic(0); } } } }
                if let N::Add(x, y) = *self.node(a) {
                    for (u, v) in [(x, y), (y, x)] {
                        if let Some(d) = self.as_ic(v) { if d % c == 0 { return self.imod(u, b); } }
                    }
                }
                if let N::IMod(x, m) = *self.node(a) { if let Some(mm) = self.as_ic(m) { if mm % c == 0 { return self.imod(x, b); } } }
            }
        } else {
            let (bl, bh) = self.iiv(b);
            if bl > 0 { iv = Iv::I(0, bh - 1); }
        }
        self.intern(N::IMod(a, b), Sort::I, iv, |s| s.map2i(a, b, |x, y| if y == 0 { 0 } else { x.rem_euclid(y) }))
    }
    pub fn to_r(&mut self, a: Id) -> Id {
        if let Some(c) = self.as_ic(a) { return self.rc(c as f64); }
        if let N::Floor(x) = *self.node(a) { if self.is_integral(x) { return x; } }
        if let N::Ite(c, x, y) = *self.node(a) {
            if self.as_ic(x).is_some() && self.as_ic(y).is_some() {
                let p = self.to_r(x);
                let q = self.to_r(y);
                return self.ite(c, p, q);
            }
        }
        let (l, h) = self.iiv(a);
        let l = if l == imin() { f64::NEG_INFINITY } else { wl(l as f64) };
        let h = if h == imax() { f64::INFINITY } else { wh(h as f64) };
        self.intern(N::ToR(a), Sort::R, Iv::R(l, h), |s| {
            let v = s.si(a);
            let mut o = [0.0; K];
            for k in 0..K { o[k] = v[k] as f64; }
            Samp::R(Box::new(o))
        })
    }
    fn is_integral(&self, e: Id) -> bool {
        match *self.node(e) {
            N::ToR(_) => true,
            N::RC(v) => f64::from_bits(v).fract() == 0.0,
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) => self.is_integral(a) && self.is_integral(b),
            N::Neg(a) => self.is_integral(a),
            N::Ite(_, a, b) => self.is_integral(a) && self.is_integral(b),
            _ => false,
        }
    }
    /// if e (Real) is syntactically integer valued, the Int expression
    fn int_of(&mut self, e: Id) -> Option<Id> {
        match *self.node(e) {
            N::ToR(a) => Some(a),
            N::RC(v) => {
                let f = f64::from_bits(v);
                if f.fract() == 0.0 && f.abs() < 1e37 { Some(self.ic(f as i128)) } else { None }
            }
            N::Add(a, b) => { let x = self.int_of(a)?; let y = self.int_of(b)?; Some(self.add(x, y)) }
            N::Sub(a, b) => { let x = self.int_of(a)?; let y = self.int_of(b)?; Some(self.sub(x, y)) }
            N::Mul(a, b) => {
                if let (Some(x), Some(y)) = (self.int_of(a), self.int_of(b)) { return Some(self.mul(x, y)); }
                // (ToR(i) * 1e-9) * 1e9 style round trips
                for (p, q) in [(a, b), (b, a)] {
                    if let Some(c) = self.as_rc(p) { if let Some(r) = self.scaled_int(q, dec(c)) { return Some(r); } }
                }
                None
            }
            N::RDiv(a, b) => {
                if let Some(c) = self.as_rc(b) { let (n, d) = dec(c); if n > 0 { return self.scaled_int(a, (d, n)); } }
                None
            }
            N::Neg(a) => { let x = self.int_of(a)?; Some(self.neg(x)) }
            N::Ite(c, a, b) => { let x = self.int_of(a)?; let y = self.int_of(b)?; Some(self.ite(c, x, y)) }
            _ => None,
        }
    }
    /// e * n/d as an Int expression when it is syntactically integral
    fn scaled_int(&mut self, e: Id, nd: (i128, i128)) -> Option<Id> {
        let (n, d) = nd;
        if n == 0 || d == 0 { return None; }
        match *self.node(e) {
            N::ToR(a) => if n % d == 0 { let k = self.ic(n / d); Some(self.mul(a, k)) } else { None },
            N::RC(v) => {
                let (p, q) = dec(f64::from_bits(v));
                let num = p.checked_mul(n)?;
                let den = q.checked_mul(d)?;
                if den != 0 && num % den == 0 { Some(self.ic(num / den)) } else { None }
            }
            N::Mul(a, b) => {
                for (p, q) in [(a, b), (b, a)] {
                    if let Some(c) = self.as_rc(p) {
                        let (cn, cd) = dec(c);
                        if cd == 0 { continue; }
                        let g = gcd(cn.checked_mul(n)?, cd.checked_mul(d)?);
                        return self.scaled_int(q, (cn * n / g, cd * d / g));
                    }
                }
                None
            }
            N::RDiv(a, b) => {
                let c = self.as_rc(b)?;
                let (cn, cd) = dec(c);
                if cn == 0 { return None; }
                let g = gcd(cd.checked_mul(n)?, cn.checked_mul(d)?);
                self.scaled_int(a, (cd * n / g, cn * d / g))
            }
            N::Add(a, b) => { let x = self.scaled_int(a, nd)?; let y = self.scaled_int(b, nd)?; Some(self.add(x, y)) }
            N::Sub(a, b) => { let x = self.scaled_int(a, nd)?; let y = self.scaled_int(b, nd)?; Some(self.sub(x, y)) }
            N::Neg(a) => { let x = self.scaled_int(a, nd)?; Some(self.neg(x)) }
            N::Ite(c, a, b) => { let x = self.scaled_int(a, nd)?; let y = self.scaled_int(b, nd)?; Some(self.ite(c, x, y)) }
            _ => None,
        }
    }
    pub fn floor(&mut self, a: Id) -> Id {
        if let Some(i) = self.int_of(a) { return i; }
        let (l, h) = self.riv(a);
        let l = if l.is_finite() && l.abs() < 1e37 { l.floor() as i128 } else { imin() };
        let h = if h.is_finite() && h.abs() < 1e37 { h.floor() as i128 } else { imax() };
        self.intern(N::Floor(a), Sort::I, Iv::I(l, h), |s| {
            let v = s.sr(a);
            let mut o = [0i128; K];
            for k in 0..K { o[k] = v[k].floor() as i128; }
            Samp::I(Box::new(o))
        })
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.as_bc(c) { return if v { a } else { b }; }
        if a == b { return a; }
        if let N::Not(x) = *self.node(c) { return self.ite(x, b, a); }
        match self.sort(a) {
            Sort::B => {
                match (self.as_bc(a), self.as_bc(b)) {
                    (Some(true), Some(false)) => return c,
                    (Some(false), Some(true)) => return self.not(c),
                    (Some(true), _) => return self.or(c, b),
                    (Some(false), _) => { let n = self.not(c); return self.and(n, b); }
                    (_, Some(true)) => { let n = self.not(c); return self.or(n, a); }
                    (_, Some(false)) => return self.and(c, a),
                    _ => {}
                }
                self.intern(N::Ite(c, a, b), Sort::B, Iv::B, |s| {
                    let m = s.bmask(c);
                    Samp::B((m & s.bmask(a)) | (!m & s.bmask(b) & FULL))
                })
            }
            Sort::I => {
                // nested same condition
                if let N::Ite(c2, x, _) = *self.node(a) { if c2 == c { return self.ite(c, x, b); } }
                if let N::Ite(c2, _, y) = *self.node(b) { if c2 == c { return self.ite(c, a, y); } }
                let ((al, ah), (bl, bh)) = (self.iiv(a), self.iiv(b));
                self.intern(N::Ite(c, a, b), Sort::I, Iv::I(al.min(bl), ah.max(bh)), |s| {
                    let m = s.bmask(c);
                    let (x, y) = (s.si(a), s.si(b));
                    let mut o = [0; K];
                    for k in 0..K { o[k] = if m >> k & 1 == 1 { x[k] } else { y[k] }; }
                    Samp::I(Box::new(o))
                })
            }
            Sort::R => {
                if let N::Ite(c2, x, _) = *self.node(a) { if c2 == c { return self.ite(c, x, b); } }
                if let N::Ite(c2, _, y) = *self.node(b) { if c2 == c { return self.ite(c, a, y); } }
                let ((al, ah), (bl, bh)) = (self.riv(a), self.riv(b));
                self.intern(N::Ite(c, a, b), Sort::R, Iv::R(al.min(bl), ah.max(bh)), |s| {
                    let m = s.bmask(c);
                    let (x, y) = (s.sr(a), s.sr(b));
                    let mut o = [0.0; K];
                    for k in 0..K { o[k] = if m >> k & 1 == 1 { x[k] } else { y[k] }; }
                    Samp::R(Box::new(o))
                })
            }
        }
    }
    pub fn not(&mut self, a: Id) -> Id {
        match *self.node(a) {
            N::BC(v) => return self.bc(!v),
            N::Not(x) => return x,
            N::Lt(x, y) => return self.le(y, x),
            N::Le(x, y) => return self.lt(y, x),
            _ => {}
        }
        self.intern(N::Not(a), Sort::B, Iv::B, |s| Samp::B(!s.bmask(a) & FULL))
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        match (self.as_bc(a), self.as_bc(b)) {
            (Some(false), _) => return a,
            (_, Some(false)) => return b,
            (Some(true), _) => return b,
            (_, Some(true)) => return a,
            _ => {}
        }
        if a == b { return a; }
        self.intern(N::And(a, b), Sort::B, Iv::B, |s| Samp::B(s.bmask(a) & s.bmask(b)))
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        match (self.as_bc(a), self.as_bc(b)) {
            (Some(true), _) => return a,
            (_, Some(true)) => return b,
            (Some(false), _) => return b,
            (_, Some(false)) => return a,
            _ => {}
        }
        if a == b { return a; }
        self.intern(N::Or(a, b), Sort::B, Iv::B, |s| Samp::B(s.bmask(a) | s.bmask(b)))
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        let n = self.not(b);
        self.ite(a, n, b)
    }
    fn cmp_ite(&mut self, a: Id, b: Id, f: &dyn Fn(&mut Store, Id, Id) -> Id) -> Option<Id> {
        // push comparisons against constants into if-then-else with a constant leaf
        let isc = |s: &Store, e: Id| matches!(s.node(e), N::IC(_) | N::RC(_));
        if isc(self, b) {
            if let N::Ite(c, x, y) = *self.node(a) {
                if isc(self, x) || isc(self, y) || matches!(self.node(x), N::Ite(..)) || matches!(self.node(y), N::Ite(..)) {
                    let p = f(self, x, b);
                    let q = f(self, y, b);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        if isc(self, a) {
            if let N::Ite(c, x, y) = *self.node(b) {
                if isc(self, x) || isc(self, y) || matches!(self.node(x), N::Ite(..)) || matches!(self.node(y), N::Ite(..)) {
                    let p = f(self, a, x);
                    let q = f(self, a, y);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        None
    }
    pub fn lt(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.bc(false); }
        match self.sort(a) {
            Sort::R => {
                let ((al, ah), (bl, bh)) = (self.riv(a), self.riv(b));
                if ah < bl { return self.bc(true); }
                if al >= bh { return self.bc(false); }
                if let Some(r) = self.cmp_ite(a, b, &|s, x, y| s.lt(x, y)) { return r; }
                if let N::Abs(x) = *self.node(a) { if self.as_rc(b).is_some() { let nb = self.neg(b); let p = self.lt(x, b); let q = self.lt(nb, x); return self.and(p, q); } }
                if let N::Abs(x) = *self.node(b) { if self.as_rc(a).is_some() { let na = self.neg(a); let p = self.lt(a, x); let q = self.lt(x, na); return self.or(p, q); } }
                self.intern(N::Lt(a, b), Sort::B, Iv::B, |s| s.cmpr(a, b, |x, y| x < y))
            }
            Sort::I => {
                let ((al, ah), (bl, bh)) = (self.iiv(a), self.iiv(b));
                if ah < bl { return self.bc(true); }
                if al >= bh { return self.bc(false); }
                if let Some(r) = self.cmp_ite(a, b, &|s, x, y| s.lt(x, y)) { return r; }
                self.intern(N::Lt(a, b), Sort::B, Iv::B, |s| s.cmpi(a, b, |x, y| x < y))
            }
            _ => panic!("lt bool"),
        }
    }
    pub fn le(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.bc(true); }
        match self.sort(a) {
            Sort::R => {
                let ((al, ah), (bl, bh)) = (self.riv(a), self.riv(b));
                if ah <= bl { return self.bc(true); }
                if al > bh { return self.bc(false); }
                if let Some(r) = self.cmp_ite(a, b, &|s, x, y| s.le(x, y)) { return r; }
                if let N::Abs(x) = *self.node(a) { if self.as_rc(b).is_some() { let nb = self.neg(b); let p = self.le(x, b); let q = self.le(nb, x); return self.and(p, q); } }
                if let N::Abs(x) = *self.node(b) { if self.as_rc(a).is_some() { let na = self.neg(a); let p = self.le(a, x); let q = self.le(x, na); return self.or(p, q); } }
                self.intern(N::Le(a, b), Sort::B, Iv::B, |s| s.cmpr(a, b, |x, y| x <= y))
            }
            Sort::I => {
                let ((al, ah), (bl, bh)) = (self.iiv(a), self.iiv(b));
                if ah <= bl { return self.bc(true); }
                if al > bh { return self.bc(false); }
                if let Some(r) = self.cmp_ite(a, b, &|s, x, y| s.le(x, y)) { return r; }
                self.intern(N::Le(a, b), Sort::B, Iv::B, |s| s.cmpi(a, b, |x, y| x <= y))
            }
            _ => panic!("le bool"),
        }
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.bc(true); }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        match self.sort(a) {
            Sort::R => {
                let ((al, ah), (bl, bh)) = (self.riv(a), self.riv(b));
                if ah < bl || bh < al { return self.bc(false); }
                if let Some(r) = self.cmp_ite(a, b, &|s, x, y| s.eq(x, y)) { return r; }
                self.intern(N::Eq(a, b), Sort::B, Iv::B, |s| s.cmpr(a, b, |x, y| x == y))
            }
            Sort::I => {
                let ((al, ah), (bl, bh)) = (self.iiv(a), self.iiv(b));
                if ah < bl || bh < al { return self.bc(false); }
                if al == ah && bl == bh && al == bl { return self.bc(true); }
                if let Some(r) = self.cmp_ite(a, b, &|s, x, y| s.eq(x, y)) { return r; }
                self.intern(N::Eq(a, b), Sort::B, Iv::B, |s| s.cmpi(a, b, |x, y| x == y))
            }
            Sort::B => { let n = self.not(b); self.ite(a, b, n) }
        }
    }
    pub fn abs(&mut self, a: Id) -> Id {
        let (l, h) = self.riv(a);
        if l >= 0.0 { return a; }
        if h <= 0.0 { return self.neg(a); }
        match *self.node(a) {
            N::Neg(x) => return self.abs(x),
            N::Abs(_) => return a,
            _ => {}
        }
        self.intern(N::Abs(a), Sort::R, Iv::R(0.0, l.abs().max(h.abs())), |s| s.map1r(a, |x| x.abs()))
    }
    pub fn sqrt(&mut self, a: Id) -> Id {
        if let Some(c) = self.as_rc(a) { if c >= 0.0 { return self.rc(c.sqrt()); } }
        if let N::Mul(x, y) = *self.node(a) { if x == y { return self.abs(x); } }
        let (l, h) = self.riv(a);
        self.intern(N::Sqrt(a), Sort::R, Iv::R(wl(l.max(0.0).sqrt()).max(0.0), wh(h.max(0.0).sqrt())), |s| s.map1r(a, |x| x.sqrt()))
    }
    pub fn uf(&mut self, f: MFn, a: Id, b: Option<Id>) -> Id {
        if let Some(x) = self.as_rc(a) {
            let y = b.map(|b| self.as_rc(b));
            match y {
                None => { let v = f.eval(x, 0.0); if v.is_finite() { return self.rc(v); } }
                Some(Some(y)) => { let v = f.eval(x, y); if v.is_finite() { return self.rc(v); } }
                _ => {}
            }
        }
        if b.is_none() {
            if let N::Neg(x) = *self.node(a) {
                match f {
                    MFn::Cos | MFn::Cosh => return self.uf(f, x, None),
                    MFn::Sin | MFn::Tan | MFn::Asin | MFn::Atan | MFn::Sinh | MFn::Tanh | MFn::Asinh | MFn::Atanh | MFn::Cbrt => { let r = self.uf(f, x, None); return self.neg(r); }
                    _ => {}
                }
            }
            if let N::Uf(g, x, _) = *self.node(a) {
                match (f, g) {
                    (MFn::Cos, MFn::Acos) | (MFn::Sin, MFn::Asin) | (MFn::Tan, MFn::Atan) | (MFn::Ln, MFn::Exp) => return x,
                    (MFn::Sin, MFn::Acos) | (MFn::Cos, MFn::Asin) => { let one = self.rc(1.0); let q = self.mul(x, x); let d = self.sub(one, q); return self.sqrt(d); }
                    _ => {}
                }
            }
            if let N::Uf(MFn::Atan2, y, x) = *self.node(a) {
                if matches!(f, MFn::Sin | MFn::Cos) {
                    let (p, q) = (self.mul(x, x), self.mul(y, y));
                    let t2 = self.add(p, q);
                    let t = self.sqrt(t2);
                    let r = self.rdiv(if f == MFn::Sin { y } else { x }, t);
                    if self.riv(t2).0 > 0.0 { return r; }
                    let z = self.rc(0.0);
                    let c = self.eq(t2, z);
                    let d = self.rc(if f == MFn::Sin { 0.0 } else { 1.0 });
                    return self.ite(c, d, r);
                }
            }
        }
        let (l, h) = f.range();
        let bb = b.unwrap_or(u32::MAX);
        self.intern(N::Uf(f, a, bb), Sort::R, Iv::R(l, h), |s| {
            if bb == u32::MAX { s.map1r(a, |x| f.eval(x, 0.0)) } else { s.map2r(a, bb, |x, y| f.eval(x, y)) }
        })
    }
    pub fn byte(&mut self, e: Id, i: u8) -> Id {
        self.intern(N::Byte(e, i), Sort::I, Iv::I(0, 255), |s| match &s.samp[e as usize] {
            Samp::R(v) => { let mut o = [0; K]; for k in 0..K { o[k] = (v[k].to_bits() >> (8 * i as u32) & 255) as i128; } Samp::I(Box::new(o)) }
            Samp::I(v) => { let mut o = [0; K]; for k in 0..K { o[k] = ((v[k] as u128) >> (8 * i as u32) & 255) as i128; } Samp::I(Box::new(o)) }
            Samp::B(_) => panic!("byte of bool"),
        })
    }

    fn map1r(&self, a: Id, f: impl Fn(f64) -> f64) -> Samp {
        let x = self.sr(a);
        let mut o = [0.0; K];
        for k in 0..K { o[k] = f(x[k]); }
        Samp::R(Box::new(o))
    }
    fn map2r(&self, a: Id, b: Id, f: impl Fn(f64, f64) -> f64) -> Samp {
        let (x, y) = (self.sr(a), self.sr(b));
        let mut o = [0.0; K];
        for k in 0..K { o[k] = f(x[k], y[k]); }
        Samp::R(Box::new(o))
    }
    fn map2i(&self, a: Id, b: Id, f: impl Fn(i128, i128) -> i128) -> Samp {
        let (x, y) = (self.si(a), self.si(b));
        let mut o = [0; K];
        for k in 0..K { o[k] = f(x[k], y[k]); }
        Samp::I(Box::new(o))
    }
    fn cmpr(&self, a: Id, b: Id, f: impl Fn(f64, f64) -> bool) -> Samp {
        let (x, y) = (self.sr(a), self.sr(b));
        let mut m = 0;
        for k in 0..K { if f(x[k], y[k]) { m |= 1 << k; } }
        Samp::B(m)
    }
    fn cmpi(&self, a: Id, b: Id, f: impl Fn(i128, i128) -> bool) -> Samp {
        let (x, y) = (self.si(a), self.si(b));
        let mut m = 0;
        for k in 0..K { if f(x[k], y[k]) { m |= 1 << k; } }
        Samp::B(m)
    }

    pub fn rnd(&mut self) -> u64 { self.rand() }
    /// numeric value of e under a witness (doubles for reals: a heuristic, never part of a verdict)
    pub fn eval(&self, e: Id, w: &Wit) -> Val {
        let mut c = w.cache.borrow_mut();
        if let Some(v) = c.get(&e) { return *v; }
        let mut st = vec![(e, false)];
        let mut ks = vec![];
        while let Some((x, done)) = st.pop() {
            if c.contains_key(&x) { continue; }
            if !done {
                st.push((x, true));
                ks.clear();
                self.kids(x, &mut ks);
                for k in &ks { if !c.contains_key(k) { st.push((*k, false)); } }
                continue;
            }
            let g = |i: Id| c[&i];
            let int = self.sort(x) == Sort::I;
            let v = match *self.node(x) {
                N::Var(i) => w.vals.get(i as usize).copied().unwrap_or_else(|| if self.vars[i as usize].sort == Sort::R { Val::R(self.sample_r(self.vars[i as usize].node, 0)) } else { Val::I(self.sample_i(self.vars[i as usize].node, 0)) }),
                N::IC(v) => Val::I(v),
                N::RC(v) => Val::R(f64::from_bits(v)),
                N::BC(b) => Val::B(b),
                N::Add(a, b) => if int { Val::I(g(a).i().wrapping_add(g(b).i())) } else { Val::R(g(a).r() + g(b).r()) },
                N::Sub(a, b) => if int { Val::I(g(a).i().wrapping_sub(g(b).i())) } else { Val::R(g(a).r() - g(b).r()) },
                N::Mul(a, b) => if int { Val::I(g(a).i().wrapping_mul(g(b).i())) } else { Val::R(g(a).r() * g(b).r()) },
                N::IDiv(a, b) => Val::I(floor_div(g(a).i(), g(b).i())),
                N::IMod(a, b) => { let d = g(b).i(); Val::I(if d == 0 { 0 } else { g(a).i().rem_euclid(d) }) }
                N::RDiv(a, b) => Val::R(g(a).r() / g(b).r()),
                N::Neg(a) => if int { Val::I(-g(a).i()) } else { Val::R(-g(a).r()) },
                N::ToR(a) => Val::R(g(a).r()),
                N::Floor(a) => Val::I(g(a).r().floor() as i128),
                N::Ite(c, a, b) => if g(c).b() { g(a) } else { g(b) },
                N::Lt(a, b) => Val::B(match (g(a), g(b)) { (Val::I(x), Val::I(y)) => x < y, (x, y) => x.r() < y.r() }),
                N::Le(a, b) => Val::B(match (g(a), g(b)) { (Val::I(x), Val::I(y)) => x <= y, (x, y) => x.r() <= y.r() }),
                N::Eq(a, b) => Val::B(match (g(a), g(b)) { (Val::I(x), Val::I(y)) => x == y, (Val::B(x), Val::B(y)) => x == y, (x, y) => x.r() == y.r() }),
                N::And(a, b) => Val::B(g(a).b() && g(b).b()),
                N::Or(a, b) => Val::B(g(a).b() || g(b).b()),
                N::Not(a) => Val::B(!g(a).b()),
                N::Abs(a) => Val::R(g(a).r().abs()),
                N::Sqrt(a) => Val::R(g(a).r().sqrt()),
                N::Uf(f, a, b) => Val::R(f.eval(g(a).r(), if b == u32::MAX { 0.0 } else { g(b).r() })),
                N::Byte(a, i) => match g(a) { Val::R(x) => Val::I((x.to_bits() >> (8 * i) & 255) as i128), Val::I(x) => Val::I(x >> (8 * i as u32) & 255), b => b },
            };
            c.insert(x, v);
        }
        c[&e]
    }
    pub fn holds(&self, e: Id, w: &Wit) -> bool { self.eval(e, w).b() }

    pub fn kids(&self, e: Id, out: &mut Vec<Id>) {
        match *self.node(e) {
            N::Var(_) | N::IC(_) | N::RC(_) | N::BC(_) => {}
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::IDiv(a, b) | N::IMod(a, b) | N::RDiv(a, b) | N::Lt(a, b) | N::Le(a, b) | N::Eq(a, b) | N::And(a, b) | N::Or(a, b) => { out.push(a); out.push(b); }
            N::Neg(a) | N::ToR(a) | N::Floor(a) | N::Not(a) | N::Abs(a) | N::Sqrt(a) | N::Byte(a, _) => out.push(a),
            N::Ite(a, b, c) => { out.push(a); out.push(b); out.push(c); }
            N::Uf(_, a, b) => { out.push(a); if b != u32::MAX { out.push(b); } }
        }
    }
    pub fn vars_of(&mut self, e: Id) -> std::rc::Rc<Vec<u64>> {
        if let Some(v) = self.varset.get(&e) { return v.clone(); }
        // iterative post-order
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.varset.contains_key(&x) { continue; }
            let mut ks = vec![];
            self.kids(x, &mut ks);
            if !done {
                st.push((x, true));
                for k in &ks { if !self.varset.contains_key(k) { st.push((*k, false)); } }
            } else {
                let mut v: Vec<u64> = vec![];
                if let N::Var(i) = *self.node(x) { v.resize(i as usize / 64 + 1, 0); v[i as usize / 64] |= 1 << (i % 64); }
                for k in ks {
                    let w = &self.varset[&k];
                    if v.len() < w.len() { v.resize(w.len(), 0); }
                    for (i, b) in w.iter().enumerate() { v[i] |= b; }
                }
                self.varset.insert(x, std::rc::Rc::new(v));
            }
        }
        self.varset[&e].clone()
    }

    /// does any root contain a product, quotient or function of symbolic reals
    pub fn nonlinear(&self, roots: &[Id]) -> bool {
        let mut seen: rustc_hash::FxHashSet<Id> = Default::default();
        let mut st: Vec<Id> = roots.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            match *self.node(x) {
                N::Mul(a, b) if !matches!(self.node(a), N::RC(_) | N::IC(_)) && !matches!(self.node(b), N::RC(_) | N::IC(_)) => return true,
                N::RDiv(_, b) if !matches!(self.node(b), N::RC(_)) => return true,
                N::Sqrt(_) | N::Uf(..) => return true,
                _ => {}
            }
            self.kids(x, &mut st);
        }
        false
    }
    /// SMT-LIB text for a conjunction of the given Boolean roots.
    pub fn emit(&self, roots: &[Id]) -> String { self.emit_ext(roots, None).0 }
    /// the query text and a term for `e` in it
    pub fn emit_with(&self, roots: &[Id], e: Id) -> Option<(String, String)> { let (a, b) = self.emit_ext(roots, Some(e)); b.map(|b| (a, b)) }
    fn emit_ext(&self, roots: &[Id], extra: Option<Id>) -> (String, Option<String>) {
        let mut order = vec![];
        let mut seen: HashMap<Id, u32> = Default::default();
        let mut st: Vec<(Id, bool)> = roots.iter().chain(extra.iter()).map(|&r| (r, false)).collect();
        while let Some((x, done)) = st.pop() {
            if done { order.push(x); continue; }
            if let Some(c) = seen.get_mut(&x) { *c += 1; continue; }
            seen.insert(x, 1);
            st.push((x, true));
            let mut ks = vec![];
            self.kids(x, &mut ks);
            for k in ks { st.push((k, false)); }
        }
        let mut out = String::new();
        let mut txt: HashMap<Id, String> = Default::default();
        let mut axioms = String::new();
        let mut sincos: HashMap<Id, (Option<Id>, Option<Id>)> = Default::default();
        let mut fns: Vec<MFn> = vec![];
        for &x in &order {
            if let N::Uf(f, _, _) = *self.node(x) { if !fns.contains(&f) { fns.push(f); } }
        }
        for f in &fns {
            let _ = writeln!(out, "(declare-fun {} ({}) Real)", f.name(), if f.binary() { "Real Real" } else { "Real" });
        }
        for &x in &order {
            let g = |i: Id| -> &str { txt.get(&i).map(|s| s.as_str()).unwrap_or("?") };
            let isr = self.sort(x) == Sort::R;
            let s = match *self.node(x) {
                N::Var(v) => {
                    let var = &self.vars[v as usize];
                    let so = if var.sort == Sort::R { "Real" } else { "Int" };
                    let _ = writeln!(out, "(declare-const v{} {})(assert (and (<= {} v{}) (<= v{} {})))", v, so, var.lo, v, v, var.hi);
                    format!("v{}", v)
                }
                N::IC(v) => int(v),
                N::RC(v) => rat(f64::from_bits(v)),
                N::BC(b) => b.to_string(),
                N::Add(a, b) => format!("(+ {} {})", g(a), g(b)),
                N::Sub(a, b) => format!("(- {} {})", g(a), g(b)),
                N::Mul(a, b) => format!("(* {} {})", g(a), g(b)),
                N::IDiv(a, b) => format!("(div {} {})", g(a), g(b)),
                N::IMod(a, b) => format!("(mod {} {})", g(a), g(b)),
                N::RDiv(a, b) => format!("(/ {} {})", g(a), g(b)),
                N::Neg(a) => format!("(- {})", g(a)),
                N::ToR(a) => format!("(to_real {})", g(a)),
                N::Floor(a) => format!("(to_int {})", g(a)),
                N::Ite(c, a, b) => format!("(ite {} {} {})", g(c), g(a), g(b)),
                N::Lt(a, b) => format!("(< {} {})", g(a), g(b)),
                N::Le(a, b) => format!("(<= {} {})", g(a), g(b)),
                N::Eq(a, b) => format!("(= {} {})", g(a), g(b)),
                N::And(a, b) => format!("(and {} {})", g(a), g(b)),
                N::Or(a, b) => format!("(or {} {})", g(a), g(b)),
                N::Not(a) => format!("(not {})", g(a)),
                N::Abs(a) => format!("(ite (<= 0.0 {0}) {0} (- {0}))", g(a)),
                N::Sqrt(a) => {
                    let _ = writeln!(out, "(declare-const q{} Real)", x);
                    let _ = writeln!(axioms, "(assert (<= 0.0 q{0}))(assert (=> (<= 0.0 {1}) (= (* q{0} q{0}) {1})))", x, g(a));
                    format!("q{}", x)
                }
                N::Uf(f, a, b) => {
                    let t = if b == u32::MAX { format!("({} {})", f.name(), g(a)) } else { format!("({} {} {})", f.name(), g(a), g(b)) };
                    let _ = writeln!(out, "(define-fun u{} () Real {})", x, t);
                    let (l, h) = f.range();
                    if l.is_finite() { let _ = writeln!(axioms, "(assert (<= {} u{}))", rat(wl(l)), x); }
                    if h.is_finite() { let _ = writeln!(axioms, "(assert (<= u{} {}))", x, rat(wh(h))); }
                    if f == MFn::Pow { let _ = writeln!(axioms, "{}", pow_axioms(&format!("u{x}"), g(a), self.as_rc(b).unwrap_or(0.0))); }
                    if f == MFn::Exp { let _ = writeln!(axioms, "(assert (< 0.0 u{}))(assert (>= u{} (+ 1.0 {})))", x, x, g(a)); }
                    if f == MFn::Sin { sincos.entry(a).or_default().0 = Some(x); }
                    if f == MFn::Cos { sincos.entry(a).or_default().1 = Some(x); }
                    format!("u{}", x)
                }
                N::Byte(a, i) => {
                    let _ = writeln!(out, "(declare-const b{}_{} Int)", a, i);
                    let _ = writeln!(axioms, "(assert (and (<= 0 b{0}_{1}) (<= b{0}_{1} 255)))", a, i);
                    format!("b{}_{}", a, i)
                }
            };
            let n = seen[&x];
            if n > 1 && s.len() > 12 {
                let so = match self.sort(x) { Sort::B => "Bool", Sort::I => "Int", Sort::R => "Real" };
                let _ = writeln!(out, "(define-fun n{} () {} {})", x, so, s);
                txt.insert(x, format!("n{}", x));
            } else {
                txt.insert(x, s);
            }
            let _ = isr;
        }
        out.push_str(&axioms);
        for (_, (s, c)) in sincos {
            if let (Some(s), Some(c)) = (s, c) { let _ = writeln!(out, "(assert (= 1.0 (+ (* u{0} u{0}) (* u{1} u{1}))))", s, c); }
        }
        for r in roots {
            let _ = writeln!(out, "(assert {})", txt[r]);
        }
        let t = extra.map(|e| txt[&e].clone());
        (out, t)
    }
    pub fn show(&self, e: Id, depth: usize) -> String {
        if depth == 0 { return "..".into(); }
        let d = depth - 1;
        match *self.node(e) {
            N::Var(v) => format!("v{}", v),
            N::IC(v) => format!("{}", v),
            N::RC(v) => format!("{:?}", f64::from_bits(v)),
            ref n => {
                let mut ks = vec![];
                self.kids(e, &mut ks);
                let nm = format!("{:?}", n);
                let nm = nm.split('(').next().unwrap().to_string();
                format!("({} {})", nm, ks.iter().map(|&k| self.show(k, d)).collect::<Vec<_>>().join(" "))
            }
        }
    }
}

/// base >= 0 on every path that evaluates pow
pub fn pow_axioms(me: &str, base: &str, e: f64) -> String {
    let mut o = format!("(assert (=> (< 0.0 {base}) (< 0.0 {me})))");
    if e > 0.0 { o += &format!("(assert (and (=> (<= {base} 1.0) (<= {me} 1.0)) (=> (<= 1.0 {base}) (<= 1.0 {me}))))"); }
    if e < 0.0 { o += &format!("(assert (and (=> (<= {base} 1.0) (<= 1.0 {me})) (=> (<= 1.0 {base}) (<= {me} 1.0))))"); }
    if e > 0.0 && e < 1.0 { o += &format!("(assert (and (=> (<= {base} 1.0) (<= {base} {me})) (=> (<= 1.0 {base}) (<= {me} {base}))))"); }
    o
}
struct Lin { t: std::collections::BTreeMap<Id, (i128, i128)>, c: Rat2, mods: u32 }
impl Default for Lin { fn default() -> Lin { Lin { t: Default::default(), c: (0, 1), mods: 0 } } }
type Rat2 = (i128, i128);
impl Lin {
    fn add(&mut self, e: Id, k: Rat2) -> Option<()> {
        let o = self.t.get(&e).copied().unwrap_or((0, 1));
        self.t.insert(e, radd(o, k)?);
        Some(())
    }
}
fn rred(n: i128, d: i128) -> Rat2 { if n == 0 { return (0, 1); } let g = gcd(n, d); (n / g, d / g) }
fn radd(a: Rat2, b: Rat2) -> Option<Rat2> {
    if a.0 == 0 { return Some(b); }
    if b.0 == 0 { return Some(a); }
    Some(rred(a.0.checked_mul(b.1)?.checked_add(b.0.checked_mul(a.1)?)?, a.1.checked_mul(b.1)?))
}
fn rmul(a: Rat2, b: Rat2) -> Option<Rat2> { let (p, q) = (rred(a.0, b.1), rred(b.0, a.1)); Some(rred(p.0.checked_mul(q.0)?, p.1.checked_mul(q.1)?)) }
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 { let t = a % b; a = b; b = t; }
    (a.max(1)) as i128
}
fn wl(x: f64) -> f64 { if x.is_nan() { f64::NEG_INFINITY } else if x == 0.0 { 0.0 } else { x - x.abs() * 1e-12 } }
fn wh(x: f64) -> f64 { if x.is_nan() { f64::INFINITY } else if x == 0.0 { 0.0 } else { x + x.abs() * 1e-12 } }
fn mulr(al: f64, ah: f64, bl: f64, bh: f64) -> (f64, f64) {
    let m = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
    let c = [m(al, bl), m(al, bh), m(ah, bl), m(ah, bh)];
    (wl(c.iter().cloned().fold(f64::INFINITY, f64::min)), wh(c.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
}
/// shortest decimal of an f64 as a fraction (0 denominators when out of range)
pub fn dec(v: f64) -> (i128, i128) {
    let s = format!("{:e}", v);
    let (m, e) = s.split_once('e').unwrap();
    let mut e: i32 = e.parse().unwrap();
    let neg = m.starts_with('-');
    let m = m.trim_start_matches('-');
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let digits: i128 = format!("{ip}{fp}").parse().unwrap();
    e -= fp.len() as i32;
    let digits = if neg { -digits } else { digits };
    if e >= 0 {
        if e > 20 { return (0, 0); }
        (digits * 10i128.pow(e as u32), 1)
    } else {
        if -e > 30 { return (0, 0); }
        (digits, 10i128.pow((-e) as u32))
    }
}
pub fn int(v: i128) -> String {
    if v < 0 { if v == i128::MIN { "(- 170141183460469231731687303715884105728)".into() } else { format!("(- {})", -v) } } else { v.to_string() }
}
/// SMT-LIB rational: the shortest decimal that denotes the f64
pub fn rat(v: f64) -> String {
    if v == 0.0 { return "0.0".into(); }
    let s = format!("{:e}", v.abs());
    let (m, e) = s.split_once('e').unwrap();
    let mut e: i32 = e.parse().unwrap();
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{ip}{fp}");
    e -= fp.len() as i32;
    let r = if e >= 0 { format!("{}{}.0", digits, "0".repeat(e as usize)) } else { format!("(/ {}.0 1{}.0)", digits, "0".repeat((-e) as usize)) };
    if v < 0.0 { format!("(- {})", r) } else { r }
}
