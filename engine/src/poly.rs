//! Normal form of arithmetic: Laurent polynomials with exact rational coefficients over atoms
//! (variables, square roots, integer quotients, if-then-else values, uninterpreted functions,
//! multi-term denominators).  Used to rewrite a query into an equisatisfiable-or-weaker one whose
//! nonlinear monomials are fresh bounded variables: `unsat` of that query implies `unsat` of the
//! original one; any other answer is discarded and the original query is asked instead.
use crate::expr::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rustc_hash::FxHashMap as HashMap;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::rc::Rc;

type Q = BigRational;
type Mono = Vec<(u32, i32)>;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct Poly(BTreeMap<Mono, Q>);
type P = Rc<Poly>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum AK {
    Leaf(Id),          // variable, byte, or a node too large to expand
    Sqrt(P),
    Abs(P),
    Den(P),
    Div(P, BigInt),    // floor(p / c), p integer valued, c > 0
    Floor(P),
    Ite(u32, P, P),
    Uf(MFn, P, Option<P>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum BK {
    C(bool),
    Lt(P), // p < 0
    Le(P), // p <= 0
    Eq(P), // p = 0
    EqB(u32, u32),
    And(u32, u32),
    Or(u32, u32),
    Not(u32),
    IteB(u32, u32, u32),
}
struct Atom {
    k: AK,
    int: bool,
    lo: f64,
    hi: f64,
}

pub struct Norm {
    atoms: Vec<Atom>,
    amap: HashMap<AK, u32>,
    bools: Vec<BK>,
    bmap: HashMap<BK, u32>,
    memo: HashMap<Id, P>,
    bmemo: HashMap<Id, u32>,
    limit: usize,
    work: usize,
    deadline: std::time::Instant,
}

fn qf(v: f64) -> Q {
    if v == 0.0 { return Q::zero(); }
    let s = format!("{:e}", v);
    let (m, e) = s.split_once('e').unwrap();
    let mut e: i32 = e.parse().unwrap();
    let neg = m.starts_with('-');
    let m = m.trim_start_matches('-');
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let mut d: BigInt = format!("{ip}{fp}").parse().unwrap();
    e -= fp.len() as i32;
    if neg { d = -d; }
    let t = num_traits::pow(BigInt::from(10), e.unsigned_abs() as usize);
    if e >= 0 { Q::from_integer(d * t) } else { Q::new(d, t) }
}
fn qtxt(q: &Q) -> String {
    let n = q.numer();
    let t = |b: &BigInt| format!("{}.0", b);
    let s = if q.denom().is_one() { t(&n.abs()) } else { format!("(/ {} {})", t(&n.abs()), t(q.denom())) };
    if n.is_negative() { format!("(- {s})") } else { s }
}
fn itxt(b: &BigInt) -> String { if b.is_negative() { format!("(- {})", -b) } else { b.to_string() } }
fn qd(q: &Q) -> f64 {
    // outward rounding is applied by the caller
    let (n, d) = (q.numer(), q.denom());
    match (n.to_f64(), d.to_f64()) {
        (Some(a), Some(b)) if a.is_finite() && b.is_finite() && b != 0.0 => a / b,
        _ => {
            let sh = n.bits() as i64 - d.bits() as i64;
            if sh > 1000 { if n.is_negative() { f64::NEG_INFINITY } else { f64::INFINITY } } else if sh < -1000 { 0.0 } else {
                let k = 200 - sh;
                let m = if k >= 0 { (n << k as usize) / d } else { n / (d << (-k) as usize) };
                m.to_f64().unwrap_or(0.0) * 2f64.powi(-k as i32)
            }
        }
    }
}
fn out_lo(x: f64) -> f64 { if x.is_nan() { f64::NEG_INFINITY } else { x - x.abs() * 1e-12 } }
fn out_hi(x: f64) -> f64 { if x.is_nan() { f64::INFINITY } else { x + x.abs() * 1e-12 } }
fn imul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let m = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
    let c = [m(a.0, b.0), m(a.0, b.1), m(a.1, b.0), m(a.1, b.1)];
    (out_lo(c.iter().cloned().fold(f64::INFINITY, f64::min)), out_hi(c.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
}
fn ipow(a: (f64, f64), e: i32) -> (f64, f64) {
    let n = e.unsigned_abs() as i32;
    let (l, h) = if n % 2 == 0 {
        let (x, y) = (a.0.abs(), a.1.abs());
        let lo = if a.0 <= 0.0 && a.1 >= 0.0 { 0.0 } else { x.min(y) };
        (out_lo(lo.powi(n)), out_hi(x.max(y).powi(n)))
    } else { (out_lo(a.0.powi(n)), out_hi(a.1.powi(n))) };
    if e >= 0 { return (l, h); }
    if l > 0.0 || h < 0.0 { (out_lo(1.0 / h), out_hi(1.0 / l)) } else if l >= 0.0 { (if h.is_finite() { out_lo(1.0 / h) } else { 0.0 }, f64::INFINITY) } else { (f64::NEG_INFINITY, f64::INFINITY) }
}

impl Poly {
    fn c(q: Q) -> Poly { let mut m = BTreeMap::new(); if !q.is_zero() { m.insert(vec![], q); } Poly(m) }
    fn atom(a: u32, e: i32) -> Poly { let mut m = BTreeMap::new(); m.insert(vec![(a, e)], Q::one()); Poly(m) }
    fn is_const(&self) -> Option<Q> {
        if self.0.is_empty() { return Some(Q::zero()); }
        if self.0.len() == 1 { let (m, q) = self.0.iter().next().unwrap(); if m.is_empty() { return Some(q.clone()); } }
        None
    }
    fn addm(&mut self, m: Mono, q: Q) {
        use std::collections::btree_map::Entry::*;
        match self.0.entry(m) {
            Vacant(v) => { if !q.is_zero() { v.insert(q); } }
            Occupied(mut o) => { let s = o.get() + q; if s.is_zero() { o.remove(); } else { *o.get_mut() = s; } }
        }
    }
    fn add(&self, o: &Poly, k: &Q) -> Poly { let mut r = self.clone(); for (m, q) in &o.0 { r.addm(m.clone(), q * k); } r }
    fn scale(&self, k: &Q) -> Poly { if k.is_zero() { return Poly::default(); } Poly(self.0.iter().map(|(m, q)| (m.clone(), q * k)).collect()) }
    fn mulm(&self, mm: &Mono) -> Poly { Poly(self.0.iter().map(|(m, q)| (mmul(m, mm), q.clone())).collect()) }
    fn mul(&self, o: &Poly) -> Poly {
        if self.0.len() > o.0.len() { return o.mul(self); }
        let mut r: HashMap<Mono, Q> = Default::default();
        for (m, q) in &self.0 { for (n, p) in &o.0 { let e = r.entry(mmul(m, n)).or_insert_with(Q::zero); *e += q * p; } }
        Poly(r.into_iter().filter(|(_, q)| !q.is_zero()).collect())
    }
}
fn mmul(a: &Mono, b: &Mono) -> Mono {
    let (mut i, mut j) = (0, 0);
    let mut o = Vec::with_capacity(a.len() + b.len());
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) { o.push(a[i]); i += 1; }
        else if i == a.len() || b[j].0 < a[i].0 { o.push(b[j]); j += 1; }
        else { let e = a[i].1 + b[j].1; if e != 0 { o.push((a[i].0, e)); } i += 1; j += 1; }
    }
    o
}

impl Norm {
    pub fn new() -> Norm {
        Norm { atoms: vec![], amap: Default::default(), bools: vec![], bmap: Default::default(), memo: Default::default(), bmemo: Default::default(), limit: 3000, work: 0, deadline: std::time::Instant::now() + std::time::Duration::from_secs(10) }
    }
    fn over(&self) -> bool { self.work > 3_000_000 || std::time::Instant::now() > self.deadline }
    fn mk(&mut self, k: AK, int: bool, lo: f64, hi: f64) -> u32 {
        if let Some(&a) = self.amap.get(&k) {
            let t = &mut self.atoms[a as usize];
            t.lo = t.lo.max(lo);
            t.hi = t.hi.min(hi);
            return a;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(Atom { k: k.clone(), int, lo, hi });
        self.amap.insert(k, i);
        i
    }
    fn niv(&self, s: &Store, e: Id) -> (f64, f64) {
        match s.iv[e as usize] { Iv::R(a, b) => (a, b), Iv::I(a, b) => (if a == i128::MIN { f64::NEG_INFINITY } else { out_lo(a as f64) }, if b == i128::MAX { f64::INFINITY } else { out_hi(b as f64) }), Iv::B => (0.0, 1.0) }
    }
    fn mono_iv(&self, m: &Mono) -> (f64, f64) {
        let mut r = (1.0, 1.0);
        for &(a, e) in m { let t = &self.atoms[a as usize]; r = imul(r, ipow((t.lo, t.hi), e)); }
        r
    }
    fn poly_iv(&self, p: &Poly) -> (f64, f64) {
        let mut r = (0.0, 0.0);
        for (m, q) in &p.0 {
            let c = qd(q);
            let v = imul((out_lo(c), out_hi(c)), self.mono_iv(m));
            r = (out_lo(r.0 + v.0), out_hi(r.1 + v.1));
        }
        r
    }
    fn all_int(&self, p: &Poly) -> bool { p.0.iter().all(|(m, q)| q.is_integer() && m.iter().all(|&(a, e)| e > 0 && self.atoms[a as usize].int)) }

    /// rewrite even powers of square roots / abs / sin, expand positive powers of denominators
    fn reduce(&mut self, p: Poly) -> Poly {
        let mut p = p;
        for _ in 0..40 {
            let mut hit = None;
            'o: for m in p.0.keys() {
                for &(a, e) in m {
                    match &self.atoms[a as usize].k {
                        AK::Sqrt(_) | AK::Abs(_) if e >= 2 => { hit = Some(a); break 'o; }
                        AK::Sqrt(q) if e <= -2 && q.0.len() == 1 => { hit = Some(a); break 'o; }
                        AK::Den(_) if e >= 1 => { hit = Some(a); break 'o; }
                        AK::Uf(MFn::Sin, ..) | AK::Uf(MFn::Hypot, ..) if e >= 2 => { hit = Some(a); break 'o; }
                        _ => {}
                    }
                }
            }
            let Some(a) = hit else { break };
            let (step, def): (i32, Poly) = match self.atoms[a as usize].k.clone() {
                AK::Sqrt(q) => (2, (*q).clone()),
                AK::Abs(q) => (2, q.mul(&q)),
                AK::Den(q) => (1, (*q).clone()),
                AK::Uf(MFn::Hypot, x, Some(y)) => (2, x.mul(&x).add(&y.mul(&y), &Q::one())),
                AK::Uf(_, x, _) => {
                    let c = self.mk(AK::Uf(MFn::Cos, x, None), false, -1.0, 1.0);
                    (2, Poly::c(Q::one()).add(&Poly::atom(c, 2), &-Q::one()))
                }
                _ => unreachable!(),
            };
            let mut out: HashMap<Mono, Q> = Default::default();
            let mut pows: Vec<Poly> = vec![Poly::c(Q::one())];
            let inv = if def.0.len() == 1 { let (m, q) = def.0.iter().next().unwrap(); let mut r = Poly::default(); r.0.insert(m.iter().map(|&(a, e)| (a, -e)).collect(), q.recip()); Some(r) } else { None };
            for (m, q) in &p.0 {
                let e = m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0);
                if e >= step || (e <= -step && inv.is_some()) {
                    let k = (e.abs() / step) as usize;
                    let left = if e > 0 { e - step * k as i32 } else { e + step * k as i32 };
                    let rest: Mono = m.iter().filter_map(|&(b, f)| if b != a { Some((b, f)) } else if left != 0 { Some((b, left)) } else { None }).collect();
                    let dd = if e > 0 {
                        while pows.len() <= k { let n = pows.last().unwrap().mul(&def); self.work += n.0.len() * 4; pows.push(n); }
                        pows[k].clone()
                    } else { let iv = inv.as_ref().unwrap(); let mut r = Poly::c(Q::one()); for _ in 0..k { r = r.mul(iv); } r };
                    self.work += dd.0.len();
                    for (n, r) in &dd.0 { let e = out.entry(mmul(&rest, n)).or_insert_with(Q::zero); *e += q * r; }
                } else {
                    let e = out.entry(m.clone()).or_insert_with(Q::zero); *e += q;
                }
            }
            p = Poly(out.into_iter().filter(|(_, q)| !q.is_zero()).collect());
            if p.0.len() > self.limit * 4 || self.over() { break; }
        }
        p
    }
    /// bring over common denominators so that numerators can cancel
    fn cancel(&mut self, p: Poly) -> Poly {
        let mut p = self.reduce(p);
        for _ in 0..12 {
            // negative exponents present
            let mut neg: BTreeMap<u32, i32> = BTreeMap::new();
            for m in p.0.keys() { for &(a, e) in m { if e < 0 { let x = neg.entry(a).or_insert(0); *x = (*x).min(e); } } }
            if neg.is_empty() || self.over() { return p; }
            // only worthwhile for atoms with a definition (square roots, denominators) or mixed powers
            let mono: Mono = neg.iter().map(|(&a, &e)| (a, -e)).collect();
            let num = self.reduce(p.mulm(&mono));
            if num.0.is_empty() { return num; }
            if num.0.len() > self.limit { return p; }
            // the reduction may itself have produced negative powers again (definitions with denominators)
            let inv: Mono = neg.iter().map(|(&a, &e)| (a, e)).collect();
            let mut best = num;
            let mut left = inv;
            // exact division by definitions
            let mut changed = false;
            let atoms: Vec<(u32, i32)> = left.clone();
            for (a, e) in atoms {
                let (step, def) = match self.atoms[a as usize].k.clone() { AK::Sqrt(q) => (2, q), AK::Den(q) => (1, q), _ => continue };
                if def.0.keys().any(|m| m.iter().any(|x| x.1 < 0)) || best.0.keys().any(|m| m.iter().any(|x| x.1 < 0)) { continue; }
                let mut e = e;
                while e <= -step {
                    match self.exact_div(&best, &def) { Some(q) => { best = q; e += step; changed = true; } None => break }
                }
                left = left.iter().filter_map(|&(b, f)| if b != a { Some((b, f)) } else if e != 0 { Some((b, e)) } else { None }).collect();
            }
            let r = best.mulm(&left);
            let r = self.reduce(r);
            if !changed || r == p { return r; }
            p = r;
        }
        p
    }
    fn exact_div(&mut self, n: &Poly, d: &Poly) -> Option<Poly> {
        if d.0.len() > n.0.len() || d.0.is_empty() { return None; }
        let (lm, lq) = d.0.iter().next_back().unwrap();
        let mut r = n.clone();
        let mut q = Poly::default();
        let mut it = 0;
        while !r.0.is_empty() {
            it += 1;
            if it > 400 || self.over() { return None; }
            // BTreeMap order on monomials is not a term order in general: use the monomial divisible by lm that is largest
            let (m, c) = { let (m, c) = r.0.iter().rev().find(|(m, _)| lm.iter().all(|&(a, e)| m.iter().any(|x| x.0 == a && x.1 >= e)))?; (m.clone(), c.clone()) };
            let t: Mono = mmul(&m, &lm.iter().map(|&(a, e)| (a, -e)).collect());
            if t.iter().any(|x| x.1 < 0) { return None; }
            let k = &c / lq;
            self.work += d.0.len();
            for (dm, dq) in &d.0 { r.addm(mmul(dm, &t), -(dq * &k)); }
            q.addm(t, k);
            if q.0.len() > n.0.len() + 8 { return None; }
        }
        Some(q)
    }

    fn leaf(&mut self, s: &Store, e: Id) -> P {
        let (lo, hi) = self.niv(s, e);
        let a = self.mk(AK::Leaf(e), s.sort(e) == Sort::I, lo, hi);
        Rc::new(Poly::atom(a, 1))
    }
    pub fn poly(&mut self, s: &Store, e: Id) -> P {
        if let Some(p) = self.memo.get(&e) { return p.clone(); }
        // iterative post-order over arithmetic nodes
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.memo.contains_key(&x) { continue; }
            if !done {
                st.push((x, true));
                let mut ks = vec![];
                s.kids(x, &mut ks);
                for k in ks { if s.sort(k) != Sort::B && !self.memo.contains_key(&k) { st.push((k, false)); } }
            } else {
                let p = self.poly1(s, x);
                let p = if p.0.len() > self.limit || self.over() { self.leaf(s, x) } else { p };
                self.memo.insert(x, p);
            }
        }
        self.memo[&e].clone()
    }
    fn poly1(&mut self, s: &Store, x: Id) -> P {
        let one = Q::one();
        let g = |n: &Norm, i: Id| -> P { n.memo[&i].clone() };
        let (lo, hi) = self.niv(s, x);
        match *s.node(x) {
            N::IC(v) => Rc::new(Poly::c(Q::from_integer(BigInt::from(v)))),
            N::RC(v) => Rc::new(Poly::c(qf(f64::from_bits(v)))),
            N::Add(a, b) => Rc::new(g(self, a).add(&g(self, b), &one)),
            N::Sub(a, b) => Rc::new(g(self, a).add(&g(self, b), &-one)),
            N::Neg(a) => Rc::new(g(self, a).scale(&-one)),
            N::ToR(a) => g(self, a),
            N::Mul(a, b) => {
                let (p, q) = (g(self, a), g(self, b));
                let w = p.0.len() * q.0.len();
                if w > 200_000 || self.over() { return self.leaf(s, x); }
                self.work += w;
                let r = p.mul(&q);
                Rc::new(self.reduce(r))
            }
            N::RDiv(a, b) => {
                let (p, q) = (g(self, a), g(self, b));
                self.divide(s, &p, &q, b)
            }
            N::IDiv(a, b) => {
                let (p, q) = (g(self, a), g(self, b));
                match q.is_const() {
                    Some(c) if c.is_positive() && c.is_integer() && self.all_int(&p) => Rc::new(self.intdiv(&p, &c.to_integer(), lo, hi)),
                    _ => self.leaf(s, x),
                }
            }
            N::IMod(a, b) => {
                let (p, q) = (g(self, a), g(self, b));
                match q.is_const() {
                    Some(c) if c.is_positive() && c.is_integer() && self.all_int(&p) => {
                        let (l, h) = self.poly_iv(&p);
                        let cf = qd(&c);
                        let d = self.intdiv(&p, &c.to_integer(), (l / cf).floor() - 1.0, (h / cf).floor() + 1.0);
                        Rc::new(p.add(&d, &-c))
                    }
                    _ => self.leaf(s, x),
                }
            }
            N::Floor(a) => {
                let p = g(self, a);
                // integer-valued terms move out
                let mut ip = Poly::default();
                let mut fp = Poly::default();
                for (m, q) in &p.0 {
                    let intm = m.iter().all(|&(a, e)| e > 0 && self.atoms[a as usize].int);
                    if intm && q.is_integer() { ip.addm(m.clone(), q.clone()); } else { fp.addm(m.clone(), q.clone()); }
                }
                if let Some(c) = fp.is_const() { return Rc::new(ip.add(&Poly::c(c.floor()), &one)); }
                let (fl, fh) = self.poly_iv(&fp);
                let (mut l, mut h) = (fl.floor(), fh.floor());
                if ip.0.is_empty() { l = l.max(lo); h = h.min(hi); }
                let a = self.mk(AK::Floor(Rc::new(fp)), true, l, h);
                Rc::new(ip.add(&Poly::atom(a, 1), &one))
            }
            N::Abs(a) => {
                let p = g(self, a);
                let (l, h) = self.poly_iv(&p);
                let (l2, h2) = self.niv(s, a);
                if l >= 0.0 || l2 >= 0.0 { return p; }
                if h <= 0.0 || h2 <= 0.0 { return Rc::new(p.scale(&-one)); }
                // |p| = |-p|: canonical sign
                let p = if p.0.values().next_back().map(|q| q.is_negative()).unwrap_or(false) { Rc::new(p.scale(&-one)) } else { p };
                let a = self.mk(AK::Abs(p), false, lo.max(0.0), hi);
                Rc::new(Poly::atom(a, 1))
            }
            N::Sqrt(a) => {
                let p = g(self, a);
                let p = Rc::new(self.cancel((*p).clone()));
                self.memo.insert(a, p.clone());
                if let Some(c) = p.is_const() {
                    let (n, d) = (c.numer().sqrt(), c.denom().sqrt());
                    if &(&n * &n) == c.numer() && &(&d * &d) == c.denom() { return Rc::new(Poly::c(Q::new(n, d))); }
                }
                // sqrt of a single even monomial
                if p.0.len() == 1 {
                    let (m, q) = p.0.iter().next().unwrap();
                    let (n, d) = (q.numer().sqrt(), q.denom().sqrt());
                    if &(&n * &n) == q.numer() && &(&d * &d) == q.denom() && m.iter().all(|x| x.1 % 2 == 0) {
                        let mut r = Poly::c(Q::new(n, d));
                        for &(a, e) in m {
                            let t = &self.atoms[a as usize];
                            let b = if t.lo >= 0.0 || (e / 2) % 2 == 0 { a } else { let (l, h) = ipow((t.lo, t.hi), 1); let mx = l.abs().max(h.abs()); self.mk(AK::Abs(Rc::new(Poly::atom(a, 1))), false, 0.0, mx) };
                            r = r.mul(&Poly::atom(b, e / 2));
                        }
                        return Rc::new(r);
                    }
                }
                // pull out a perfect-square rational content and common denominators with even powers
                let (k, p2) = self.square_content(&p);
                let (l, h) = self.poly_iv(&p2);
                let kk = qd(&k);
                let l1 = if l > 0.0 { out_lo(l.sqrt()) } else { 0.0 };
                let h1 = out_hi(h.max(0.0).sqrt());
                let a = self.mk(AK::Sqrt(Rc::new(p2)), false, l1.max(out_lo(lo / kk)), h1.min(out_hi(hi / kk)));
                Rc::new(Poly::atom(a, 1).scale(&k))
            }
            N::Ite(c, a, b) => {
                let (p, q) = (g(self, a), g(self, b));
                if p == q { return p; }
                let c = self.boolean(s, c);
                match self.bools[c as usize] { BK::C(true) => return p, BK::C(false) => return q, _ => {} }
                let int = self.all_int(&p) && self.all_int(&q);
                let a = self.mk(AK::Ite(c, p, q), int, lo, hi);
                Rc::new(Poly::atom(a, 1))
            }
            N::Uf(f, a, b) => {
                let p = Rc::new(self.cancel((*g(self, a)).clone()));
                let q = if b == u32::MAX { None } else { Some(Rc::new(self.cancel((*g(self, b)).clone()))) };
                let (l, h) = f.range();
                let a = self.mk(AK::Uf(f, p, q), false, lo.max(out_lo(l)), hi.min(out_hi(h)));
                Rc::new(Poly::atom(a, 1))
            }
            _ => self.leaf(s, x),
        }
    }
    fn square_content(&mut self, p: &Poly) -> (Q, Poly) {
        // content = gcd(numerators)/lcm(denominators); pull its largest square factor only if the content itself is a perfect square
        let mut n = BigInt::zero();
        let mut d = BigInt::one();
        for q in p.0.values() { n = n.gcd(q.numer()); d = d.lcm(q.denom()); }
        let (rn, rd) = (n.sqrt(), d.sqrt());
        if !n.is_zero() && &rn * &rn == n && &rd * &rd == d && !(n.is_one() && d.is_one()) {
            let c = Q::new(n, d);
            return (Q::new(rn, rd), p.scale(&c.recip()));
        }
        (Q::one(), p.clone())
    }
    fn intdiv(&mut self, p: &Poly, c: &BigInt, lo: f64, hi: f64) -> Poly {
        // floor((c*k + r)/c) = k + floor(r/c): keep coefficients of r in [0, c) except pull exact multiples only
        let mut k = Poly::default();
        let mut r = Poly::default();
        for (m, q) in &p.0 {
            let (d, rem) = q.numer().div_mod_floor(c);
            let (d, rem) = if m.is_empty() || rem.is_zero() { (d, rem) } else { (BigInt::zero(), q.numer().clone()) };
            if !d.is_zero() { k.addm(m.clone(), Q::from_integer(d)); }
            if !rem.is_zero() { r.addm(m.clone(), Q::from_integer(rem)); }
        }
        if r.0.is_empty() { return k; }
        // floor(floor(x/b)/c) = floor(x/(b*c))
        if r.0.len() == 1 {
            let (m, q) = r.0.iter().next().unwrap();
            if q.is_one() && m.len() == 1 && m[0].1 == 1 {
                if let AK::Div(x, b) = self.atoms[m[0].0 as usize].k.clone() {
                    let d = self.intdiv(&x, &(b * c), f64::NEG_INFINITY, f64::INFINITY);
                    return k.add(&d, &Q::one());
                }
            }
        }
        let (l, h) = self.poly_iv(&r);
        if l >= 0.0 && h < c.to_f64().unwrap_or(f64::INFINITY) * (1.0 - 1e-12) { return k; }
        let cf = c.to_f64().unwrap();
        let (mut a, mut b) = (out_lo(l / cf).floor(), out_hi(h / cf).floor());
        if k.0.is_empty() { a = a.max(lo); b = b.min(hi); }
        let at = self.mk(AK::Div(Rc::new(r), c.clone()), true, a, b);
        k.add(&Poly::atom(at, 1), &Q::one())
    }
    fn divide(&mut self, s: &Store, p: &Poly, q: &Poly, b: Id) -> P {
        let q = self.cancel(q.clone());
        if q.0.is_empty() { return self.leaf(s, b); }
        if q.0.len() == 1 {
            let (m, c) = q.0.iter().next().unwrap();
            let inv: Mono = m.iter().map(|&(a, e)| (a, -e)).collect();
            let r = p.mulm(&inv).scale(&c.recip());
            return Rc::new(self.reduce(r));
        }
        // make the numerator part of q the denominator atom
        let mut neg: BTreeMap<u32, i32> = BTreeMap::new();
        for m in q.0.keys() { for &(a, e) in m { if e < 0 { let x = neg.entry(a).or_insert(0); *x = (*x).min(e); } } }
        let mono: Mono = neg.iter().map(|(&a, &e)| (a, -e)).collect();
        let num = self.reduce(q.mulm(&mono));
        let lc = num.0.values().next_back().cloned().unwrap_or_else(Q::one);
        let d = Rc::new(num.scale(&lc.recip()));
        let (mut lo, mut hi) = self.poly_iv(&d);
        if mono.is_empty() {
            let (l, h) = self.niv(s, b);
            let k = 1.0 / qd(&lc);
            let v = imul((l, h), (out_lo(k), out_hi(k)));
            lo = lo.max(v.0);
            hi = hi.min(v.1);
        }
        let a = self.mk(AK::Den(d), false, lo, hi);
        let mut inv = mono;
        inv = mmul(&inv, &vec![(a, -1)]);
        let r = p.mulm(&inv).scale(&lc.recip());
        Rc::new(self.reduce(r))
    }

    // ---- booleans ----
    fn mkb(&mut self, k: BK) -> u32 {
        if let Some(&b) = self.bmap.get(&k) { return b; }
        let i = self.bools.len() as u32;
        self.bools.push(k.clone());
        self.bmap.insert(k, i);
        i
    }
    fn cmp(&mut self, s: &Store, a: Id, b: Id, op: u8) -> u32 {
        let (p, q) = (self.poly(s, a), self.poly(s, b));
        let d = p.add(&q, &-Q::one());
        let has_neg = d.0.keys().any(|m| m.iter().any(|x| x.1 < 0));
        let d = if has_neg {
            // keep the constant apart so that identities collapse to it
            let c = d.0.get(&vec![]).cloned().unwrap_or_else(Q::zero);
            let rest = d.add(&Poly::c(c.clone()), &-Q::one());
            self.cancel(rest).add(&Poly::c(c), &Q::one())
        } else { self.reduce(d) };
        // scale to coprime integers when integral (canonical)
        let d = if let Some(c) = d.is_const() {
            let r = match op { 0 => c.is_negative(), 1 => !c.is_positive(), _ => c.is_zero() };
            return self.mkb(BK::C(r));
        } else {
            let (l, h) = self.poly_iv(&d);
            match op {
                0 => { if h < 0.0 { return self.mkb(BK::C(true)); } if l >= 0.0 { return self.mkb(BK::C(false)); } }
                1 => { if h <= 0.0 { return self.mkb(BK::C(true)); } if l > 0.0 { return self.mkb(BK::C(false)); } }
                _ => { if h < 0.0 || l > 0.0 { return self.mkb(BK::C(false)); } }
            }
            let lc = d.0.values().next_back().unwrap().abs();
            let k = if op == 2 { d.0.values().next_back().unwrap().clone() } else { lc };
            // integral polynomials stay integral: divide by their content
            if self.all_int(&d) {
                let mut n = BigInt::zero();
                for q in d.0.values() { n = n.gcd(q.numer()); }
                let n = if op == 2 && k.is_negative() { -n } else { n };
                d.scale(&Q::from_integer(n).recip())
            } else { d.scale(&k.recip()) }
        };
        self.mkb(match op { 0 => BK::Lt(Rc::new(d)), 1 => BK::Le(Rc::new(d)), _ => BK::Eq(Rc::new(d)) })
    }
    fn boolean(&mut self, s: &Store, e: Id) -> u32 {
        if let Some(&b) = self.bmemo.get(&e) { return b; }
        let r = match *s.node(e) {
            N::BC(b) => self.mkb(BK::C(b)),
            N::Lt(a, b) => self.cmp(s, a, b, 0),
            N::Le(a, b) => self.cmp(s, a, b, 1),
            N::Eq(a, b) => {
                if s.sort(a) == Sort::B { let (x, y) = (self.boolean(s, a), self.boolean(s, b)); self.mkb(BK::EqB(x, y)) } else { self.cmp(s, a, b, 2) }
            }
            N::And(a, b) => { let (x, y) = (self.boolean(s, a), self.boolean(s, b)); match (&self.bools[x as usize], &self.bools[y as usize]) { (BK::C(false), _) | (_, BK::C(true)) => x, (_, BK::C(false)) | (BK::C(true), _) => y, _ => self.mkb(BK::And(x, y)) } }
            N::Or(a, b) => { let (x, y) = (self.boolean(s, a), self.boolean(s, b)); match (&self.bools[x as usize], &self.bools[y as usize]) { (BK::C(true), _) | (_, BK::C(false)) => x, (_, BK::C(true)) | (BK::C(false), _) => y, _ => self.mkb(BK::Or(x, y)) } }
            N::Not(a) => { let x = self.boolean(s, a); match self.bools[x as usize] { BK::C(b) => self.mkb(BK::C(!b)), BK::Not(y) => y, _ => self.mkb(BK::Not(x)) } }
            N::Ite(c, a, b) => { let (z, x, y) = (self.boolean(s, c), self.boolean(s, a), self.boolean(s, b)); self.mkb(BK::IteB(z, x, y)) }
            _ => { let k = BK::EqB(u32::MAX, e); self.mkb(k) }
        };
        self.bmemo.insert(e, r);
        r
    }

    // ---- output ----
    fn bound(out: &mut String, name: &str, int: bool, lo: f64, hi: f64) {
        let t = |v: f64| if int { if v.abs() < 1e30 { int_txt(v) } else { String::new() } } else { rat(v) };
        if lo.is_finite() { let x = t(if int { lo.floor() } else { lo }); if !x.is_empty() { let _ = writeln!(out, "(assert (<= {} {}))", x, name); } }
        if hi.is_finite() { let x = t(if int { hi.ceil() } else { hi }); if !x.is_empty() { let _ = writeln!(out, "(assert (<= {} {}))", name, x); } }
    }
    fn ptext(&self, p: &Poly, monos: &mut BTreeMap<Mono, u32>, lin: bool) -> (String, bool) {
        let int = self.all_int(p) && p.0.keys().all(|m| m.len() <= 1 && m.iter().all(|x| x.1 == 1));
        if p.0.is_empty() { return (if int { "0".into() } else { "0.0".into() }, int); }
        let mut t = vec![];
        for (m, q) in &p.0 {
            let c = if int { itxt(q.numer()) } else { qtxt(q) };
            if m.is_empty() { t.push(c); continue; }
            let name = if m.len() == 1 && m[0].1 == 1 {
                let a = m[0].0;
                if self.atoms[a as usize].int && !int { format!("(to_real a{a})") } else { format!("a{a}") }
            } else if lin {
                let n = monos.len() as u32;
                let k = *monos.entry(m.clone()).or_insert(n);
                format!("m{k}")
            } else {
                let mut f = vec![];
                for &(a, e) in m {
                    let nm = if e < 0 { format!("i{a}") } else if self.atoms[a as usize].int { format!("(to_real a{a})") } else { format!("a{a}") };
                    if e < 0 { let k = monos.len() as u32; monos.entry(vec![(a, -1)]).or_insert(k); }
                    for _ in 0..e.abs() { f.push(nm.clone()); }
                }
                if f.len() == 1 { f[0].clone() } else { format!("(* {})", f.join(" ")) }
            };
            if q.is_one() { t.push(name); } else { t.push(format!("(* {c} {name})")); }
        }
        (if t.len() == 1 { t.pop().unwrap() } else { format!("(+ {})", t.join(" ")) }, int)
    }
    fn btext(&self, b: u32, monos: &mut BTreeMap<Mono, u32>, lin: bool, memo: &mut HashMap<u32, String>, defs: &mut String) -> String {
        if let Some(t) = memo.get(&b) { return t.clone(); }
        let t = match self.bools[b as usize].clone() {
            BK::C(b) => b.to_string(),
            BK::Lt(p) => { let (t, i) = self.ptext(&p, monos, lin); format!("(< {t} {})", if i { "0" } else { "0.0" }) }
            BK::Le(p) => { let (t, i) = self.ptext(&p, monos, lin); format!("(<= {t} {})", if i { "0" } else { "0.0" }) }
            BK::Eq(p) => { let (t, i) = self.ptext(&p, monos, lin); format!("(= {t} {})", if i { "0" } else { "0.0" }) }
            BK::EqB(x, y) if x == u32::MAX => { let _ = writeln!(defs, "(declare-const bb{y} Bool)"); format!("bb{y}") }
            BK::EqB(x, y) => { let (p, q) = (self.btext(x, monos, lin, memo, defs), self.btext(y, monos, lin, memo, defs)); format!("(= {p} {q})") }
            BK::And(x, y) => { let (p, q) = (self.btext(x, monos, lin, memo, defs), self.btext(y, monos, lin, memo, defs)); format!("(and {p} {q})") }
            BK::Or(x, y) => { let (p, q) = (self.btext(x, monos, lin, memo, defs), self.btext(y, monos, lin, memo, defs)); format!("(or {p} {q})") }
            BK::Not(x) => format!("(not {})", self.btext(x, monos, lin, memo, defs)),
            BK::IteB(z, x, y) => { let (c, p, q) = (self.btext(z, monos, lin, memo, defs), self.btext(x, monos, lin, memo, defs), self.btext(y, monos, lin, memo, defs)); format!("(ite {c} {p} {q})") }
        };
        let t = if t.len() > 40 { let _ = writeln!(defs, "(define-fun B{b} () Bool {t})"); format!("B{b}") } else { t };
        memo.insert(b, t.clone());
        t
    }
    /// text of the conjunction of roots; lin: nonlinear monomials become bounded fresh variables
    pub fn emit(&mut self, roots: &[u32], lin: bool) -> String {
        let mut monos: BTreeMap<Mono, u32> = BTreeMap::new();
        let mut memo = Default::default();
        let mut defs = String::new();
        let mut asserts = String::new();
        for &r in roots { let t = self.btext(r, &mut monos, lin, &mut memo, &mut defs); let _ = writeln!(asserts, "(assert {t})"); }
        // atoms reachable: definitions (fixpoint since definitions mention further atoms)
        let mut adefs = String::new();
        let mut done = vec![false; self.atoms.len()];
        loop {
            let mut todo = vec![];
            let used = self.used(roots, &monos);
            for a in used { if !done[a as usize] { todo.push(a); } }
            if todo.is_empty() { break; }
            for a in todo {
                done[a as usize] = true;
                let int = self.atoms[a as usize].int;
                let me = format!("a{a}");
                match self.atoms[a as usize].k.clone() {
                    AK::Leaf(_) => {}
                    AK::Div(p, c) => { let (t, _) = self.ptext(&p, &mut monos, lin); let z = itxt(&c); let _ = writeln!(adefs, "(assert (and (<= (* {z} {me}) {t}) (< {t} (+ {z} (* {z} {me})))))"); }
                    AK::Floor(p) => { let (t, i) = self.ptext(&p, &mut monos, lin); if i { let _ = writeln!(adefs, "(assert (= {me} {t}))"); } else { let _ = writeln!(adefs, "(assert (and (<= (to_real {me}) {t}) (< {t} (+ 1.0 (to_real {me})))))"); } }
                    AK::Abs(p) => { let (t, i) = self.ptext(&p, &mut monos, lin); let t = if i { format!("(to_real {t})") } else { t }; let _ = writeln!(adefs, "(assert (or (= {me} {t}) (= {me} (- {t}))))(assert (<= 0.0 {me}))"); }
                    AK::Sqrt(p) => { let (t, i) = self.ptext(&p, &mut monos, lin); let t = if i { format!("(to_real {t})") } else { t }; let _ = writeln!(adefs, "(assert (<= 0.0 {me}))"); if !lin { let _ = writeln!(adefs, "(assert (=> (<= 0.0 {t}) (= (* {me} {me}) {t})))"); } }
                    AK::Den(p) => { let (t, i) = self.ptext(&p, &mut monos, lin); let t = if i { format!("(to_real {t})") } else { t }; let _ = writeln!(adefs, "(assert (= {me} {t}))"); }
                    AK::Ite(c, p, q) => {
                        let cb = self.btext(c, &mut monos, lin, &mut memo, &mut defs);
                        let ((t, i), (u, j)) = (self.ptext(&p, &mut monos, lin), self.ptext(&q, &mut monos, lin));
                        let f = |t: String, i: bool| if i && !int { format!("(to_real {t})") } else { t };
                        if int && !(i && j) { continue; }
                        let _ = writeln!(adefs, "(assert (= {me} (ite {cb} {} {})))", f(t, i), f(u, j));
                    }
                    AK::Uf(f, p, q) => {
                        let (t, i) = self.ptext(&p, &mut monos, lin);
                        let t = if i { format!("(to_real {t})") } else { t };
                        if f == MFn::Pow { if let Some(c) = q.as_ref().and_then(|q| q.is_const()) { let _ = writeln!(adefs, "{}", pow_axioms(&me, &t, qd(&c))); } }
                        if f == MFn::Exp { let _ = writeln!(adefs, "(assert (< 0.0 {me}))(assert (>= {me} (+ 1.0 {t})))"); }
                        if let Some(q) = q { self.ptext(&q, &mut monos, lin); }
                    }
                }
            }
        }
        let mut out = String::new();
        for (i, d) in done.iter().enumerate() {
            if !*d { continue; }
            let t = &self.atoms[i];
            let _ = writeln!(out, "(declare-const a{i} {})", if t.int { "Int" } else { "Real" });
            Self::bound(&mut out, &format!("a{i}"), t.int, t.lo, t.hi);
        }
        for (m, k) in &monos {
            if lin {
                let _ = writeln!(out, "(declare-const m{k} Real)");
                let (l, h) = self.mono_iv(m);
                let l = if m.iter().all(|x| x.1 % 2 == 0) { l.max(0.0) } else { l };
                Self::bound(&mut out, &format!("m{k}"), false, l, h);
            } else {
                let a = m[0].0;
                let nm = if self.atoms[a as usize].int { format!("(to_real a{a})") } else { format!("a{a}") };
                let _ = writeln!(out, "(declare-const i{a} Real)(assert (= 1.0 (* i{a} {nm})))");
            }
        }
        out.push_str(&defs);
        out.push_str(&adefs);
        out.push_str(&asserts);
        out
    }
    fn used(&self, roots: &[u32], monos: &BTreeMap<Mono, u32>) -> Vec<u32> {
        let mut seen = vec![false; self.atoms.len()];
        let mut bs = vec![false; self.bools.len()];
        let mut st: Vec<u32> = roots.to_vec();
        let mut pend: Vec<u32> = vec![];
        let visit = |p: &Poly, seen: &mut Vec<bool>, pend: &mut Vec<u32>| { for m in p.0.keys() { for x in m { if !seen[x.0 as usize] { seen[x.0 as usize] = true; pend.push(x.0); } } } };
        for m in monos.keys() { for x in m { if !seen[x.0 as usize] { seen[x.0 as usize] = true; pend.push(x.0); } } }
        loop {
            if let Some(b) = st.pop() {
                if b == u32::MAX || bs[b as usize] { continue; }
                bs[b as usize] = true;
                match &self.bools[b as usize] {
                    BK::Lt(p) | BK::Le(p) | BK::Eq(p) => visit(p, &mut seen, &mut pend),
                    BK::And(x, y) | BK::Or(x, y) => { st.push(*x); st.push(*y); }
                    BK::EqB(x, y) => { if *x != u32::MAX { st.push(*x); st.push(*y); } }
                    BK::Not(x) => st.push(*x),
                    BK::IteB(x, y, z) => { st.push(*x); st.push(*y); st.push(*z); }
                    BK::C(_) => {}
                }
            } else if let Some(a) = pend.pop() {
                match &self.atoms[a as usize].k {
                    AK::Leaf(_) => {}
                    AK::Sqrt(p) | AK::Abs(p) | AK::Den(p) | AK::Div(p, _) | AK::Floor(p) => visit(p, &mut seen, &mut pend),
                    AK::Ite(c, p, q) => { st.push(*c); visit(p, &mut seen, &mut pend); visit(q, &mut seen, &mut pend); }
                    AK::Uf(_, p, q) => { visit(p, &mut seen, &mut pend); if let Some(q) = q { visit(q, &mut seen, &mut pend); } }
                }
            } else { break; }
        }
        (0..self.atoms.len() as u32).filter(|&a| seen[a as usize]).collect()
    }
}
fn int_txt(v: f64) -> String { let b = BigInt::from(v as i128); itxt(&b) }

/// Normalised query. None when a root is trivially false (caller may conclude unsat).
pub enum Abs { Unsat, Text(String, String) }
pub fn abstraction(s: &Store, roots: &[Id]) -> Abs {
    let mut n = Norm::new();
    let mut rs = vec![];
    for &r in roots {
        let b = n.boolean(s, r);
        match n.bools[b as usize] { BK::C(false) => return Abs::Unsat, BK::C(true) => {} _ => { if !rs.contains(&b) { rs.push(b); } } }
    }
    let lin = n.emit(&rs, true);
    let non = n.emit(&rs, false);
    Abs::Text(lin, non)
}
