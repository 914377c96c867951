//! Symbolic semantics of integer and floating-point operations.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;

pub fn f(v: u128) -> f64 { f64::from_bits(v as u64) }
pub fn fb(v: f64) -> V { V::C(v.to_bits() as u128) }

fn p2(n: u32) -> i128 { 1i128 << n }

impl Exec {
    /// integer view of a value (congruent mod 2^bits)
    pub fn int_e(&mut self, v: &V, bits: u32) -> R<Id> {
        match v {
            V::C(c) => Ok(self.s.ic(sext(*c, bits))),
            V::U => Ok(self.s.ic(0)),
            V::S(e) => match self.s.sort(*e) {
                Sort::I => Ok(*e),
                Sort::B => {
                    let (a, b) = (self.s.ic(1), self.s.ic(0));
                    Ok(self.s.ite(*e, a, b))
                }
                Sort::R => Ok(self.bits_of(*e)),
            },
            V::Cat(p) => {
                // the bytes of symbolic floats are free integers (an over-approximation)
                let mut acc = self.s.ic(0);
                let mut sh = 0u32;
                for (v, l) in p.clone().iter() {
                    let b = *l as u32 * 8;
                    let e = self.int_e(v, b)?;
                    let e = if let V::C(c) = v { self.s.ic(*c as i128) } else { self.norm(e, b, false)? };
                    if sh >= 64 { return Err(Stop::Unsup("wide aggregate as int".into())); }
                    let m = self.s.ic(1i128 << sh);
                    let t = self.s.mul(e, m);
                    acc = self.s.add(acc, t);
                    sh += b;
                }
                Ok(acc)
            }
            _ => Err(Stop::Unsup("aggregate as int".into())),
        }
    }
    pub fn bool_e(&mut self, v: &V) -> R<Id> {
        match v {
            V::C(c) => Ok(self.s.bc(c & 1 == 1)),
            V::U => Ok(self.s.bc(false)),
            V::S(e) => match self.s.sort(*e) {
                Sort::B => Ok(*e),
                Sort::I => {
                    let e = *e;
                    if let N::Ite(c, a, b) = *self.s.node(e) {
                        if let (Some(x), Some(y)) = (self.s.as_ic(a), self.s.as_ic(b)) {
                            let p = self.s.bc(x & 1 == 1);
                            let q = self.s.bc(y & 1 == 1);
                            return Ok(self.s.ite(c, p, q));
                        }
                    }
                    let (l, h) = self.s.iiv(e);
                    let one = self.s.ic(1);
                    if l >= 0 && h <= 1 { return Ok(self.s.eq(e, one)); }
                    let two = self.s.ic(2);
                    let m = self.s.imod(e, two);
                    Ok(self.s.eq(m, one))
                }
                Sort::R => Err(Stop::Unsup("bool of float".into())),
            },
            _ => Err(Stop::Unsup("aggregate as bool".into())),
        }
    }
    fn bits_of(&mut self, e: Id) -> Id {
        let mut acc = self.s.ic(0);
        for i in 0..8u8 {
            let b = self.s.byte(e, i);
            let m = self.s.ic(1i128 << (8 * i));
            let t = self.s.mul(b, m);
            acc = self.s.add(acc, t);
        }
        acc
    }
    pub fn real_e(&mut self, v: &V) -> R<Id> {
        match v {
            V::C(c) => Ok(self.s.rc(f(*c))),
            V::U => Ok(self.s.rc(0.0)),
            V::S(e) => match self.s.sort(*e) {
                Sort::R => Ok(*e),
                Sort::I => {
                    // bits of a sign-only pattern
                    if let N::Ite(c, a, b) = *self.s.node(*e) {
                        let x = self.real_leaf(a)?;
                        let y = self.real_leaf(b)?;
                        return Ok(self.s.ite(c, x, y));
                    }
                    if let Some(r) = self.from_bytes(*e) { return Ok(r); }
                    Err(Stop::Unsup(format!("float view of symbolic integer bits {}", self.s.show(*e, 4))))
                }
                _ => Err(Stop::Unsup("float view of a symbolic bool".into())),
            },
            _ => Err(Stop::Unsup("aggregate as float".into())),
        }
    }
    /// the real whose eight bytes, each at its own weight, sum up to e
    fn from_bytes(&self, e: Id) -> Option<Id> {
        let mut todo = vec![(e, 1i128)];
        let (mut real, mut seen) = (None, 0u32);
        while let Some((x, c)) = todo.pop() {
            match *self.s.node(x) {
                N::Add(a, b) => { todo.push((a, c)); todo.push((b, c)); }
                N::Mul(a, b) => match (self.s.as_ic(a), self.s.as_ic(b)) {
                    (Some(k), _) => todo.push((b, c.checked_mul(k)?)),
                    (_, Some(k)) => todo.push((a, c.checked_mul(k)?)),
                    _ => return None,
                },
                N::Byte(r, i) => {
                    if self.s.sort(r) != Sort::R || c != 1i128 << (8 * i as u32) || seen >> i & 1 == 1 || real.is_some_and(|q| q != r) { return None; }
                    real = Some(r);
                    seen |= 1 << i;
                }
                _ => return None,
            }
        }
        if seen == 255 { real } else { None }
    }
    fn real_leaf(&mut self, e: Id) -> R<Id> {
        match self.s.sort(e) {
            Sort::R => Ok(e),
            Sort::I => match self.s.as_ic(e) {
                Some(c) if f64::from_bits(c as u64).is_finite() => Ok(self.s.rc(f64::from_bits(c as u64))),
                _ => { let v = V::S(e); self.real_e(&v) }
            },
            _ => Err(Stop::Unsup("real leaf".into())),
        }
    }
    /// canonical representative of e mod 2^bits in the signed or unsigned window
    pub fn norm(&mut self, e: Id, bits: u32, signed: bool) -> R<Id> {
        if bits >= 127 { return Ok(e); } // i128: treated as unbounded (stated)
        let (lo, hi) = self.s.iiv(e);
        let m = p2(bits);
        let wl = if signed { -p2(bits - 1) } else { 0 };
        let wh = wl + m - 1;
        if lo >= wl && hi <= wh { return Ok(e); }
        if lo != i128::MIN && hi != i128::MAX {
            let (k1, k2) = ((lo - wl).div_euclid(m), (hi - wl).div_euclid(m));
            if k1 == k2 {
                let c = self.s.ic(-k1 * m);
                return Ok(self.s.add(e, c));
            }
        }
        if let N::Ite(c, a, b) = *self.s.node(e) {
            let a2 = self.norm(a, bits, signed)?;
            let b2 = self.norm(b, bits, signed)?;
            return Ok(self.s.ite(c, a2, b2));
        }
        let mut tried = vec![];
        for _ in 0..6 {
            let k = self.pick_k(e, wl, m, &tried);
            tried.push(k);
            let l = self.s.ic(wl + k * m);
            let h = self.s.ic(wh + k * m);
            let c1 = self.s.le(l, e);
            let c2 = self.s.le(e, h);
            let c = self.s.and(c1, c2);
            if self.decide(c)? {
                let c = self.s.ic(-k * m);
                return Ok(self.s.add(e, c));
            }
        }
        Err(Stop::Unsup("integer wraps over too many windows".into()))
    }
    fn pick_k(&self, e: Id, wl: i128, m: i128, tried: &[i128]) -> i128 {
        for k in 0..K {
            if self.st.mask >> k & 1 == 1 {
                let q = (self.s.sample_i(e, k).wrapping_sub(wl)).div_euclid(m);
                if !tried.contains(&q) { return q; }
            }
        }
        for q in [0, 1, -1, 2, -2, 3, -3, 4] { if !tried.contains(&q) { return q; } }
        5
    }

    pub fn binop(&mut self, op: BinOp, ty: &Type, a: &V, b: &V) -> R<V> {
        if let Type::Vec(n, t) = ty {
            let (x, y) = (self.elems(a, *n), self.elems(b, *n));
            let mut o = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize { o.push(self.binop(op, t, &x[i], &y[i])?); }
            return Ok(V::agg(o));
        }
        match ty {
            Type::F64 => return self.fbin(op, a, b),
            Type::F32 => {
                if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    let r = match op { BinOp::FAdd => x + y, BinOp::FSub => x - y, BinOp::FMul => x * y, BinOp::FDiv => x / y, BinOp::FRem => x % y, _ => 0.0 };
                    return Ok(V::C(r.to_bits() as u128));
                }
                return Err(Stop::Unsup("symbolic f32".into()));
            }
            _ => {}
        }
        let bits = match ty { Type::Int(b) => *b, Type::Ptr => 64, _ => return Err(Stop::Unsup("binop type".into())) };
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            use BinOp::*;
            let (sx, sy) = (sext(x, bits), sext(y, bits));
            let r = match op {
                Add => x.wrapping_add(y),
                Sub => x.wrapping_sub(y),
                Mul => x.wrapping_mul(y),
                UDiv | URem | SDiv | SRem if y == 0 => return Err(Stop::Unsup("division by zero (UB)".into())),
                UDiv => x / y,
                URem => x % y,
                SDiv => sx.wrapping_div(sy) as u128,
                SRem => sx.wrapping_rem(sy) as u128,
                Shl => if y >= bits as u128 { 0 } else { x << y },
                LShr => if y >= bits as u128 { 0 } else { x >> y },
                AShr => (sx >> y.min(127)) as u128,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                _ => return Err(Stop::Unsup("fop on int".into())),
            };
            return Ok(V::C(mask(r, bits)));
        }
        if bits == 1 {
            let (x, y) = (self.bool_e(a)?, self.bool_e(b)?);
            let r = match op {
                BinOp::And | BinOp::Mul => self.s.and(x, y),
                BinOp::Or => self.s.or(x, y),
                BinOp::Xor | BinOp::Add | BinOp::Sub => self.s.xor(x, y),
                _ => return Err(Stop::Unsup("i1 op".into())),
            };
            return Ok(self.lift(r));
        }
        // bit tricks on float patterns
        if self.is_real(a) || self.is_real(b) { return self.float_bits_op(op, bits, a, b); }
        self.ibin(op, bits, a, b)
    }
    fn is_real(&self, v: &V) -> bool { matches!(v, V::S(e) if self.s.sort(*e) == Sort::R) }
    pub fn lift(&self, e: Id) -> V {
        match *self.s.node(e) {
            N::BC(b) => V::C(b as u128),
            _ => V::S(e),
        }
    }
    pub fn lift_i(&self, e: Id, bits: u32) -> V {
        match *self.s.node(e) {
            N::IC(c) => V::C(mask(c as u128, bits)),
            _ => V::S(e),
        }
    }
    fn lift_r(&self, e: Id) -> V {
        match *self.s.node(e) {
            N::RC(c) => V::C(c as u128),
            _ => V::S(e),
        }
    }
    fn float_bits_op(&mut self, op: BinOp, bits: u32, a: &V, b: &V) -> R<V> {
        let sign = 1u128 << 63;
        let (r, o) = if self.is_real(a) { (a, b) } else { (b, a) };
        let e = match r { V::S(e) => *e, _ => unreachable!() };
        if bits != 64 { return Err(Stop::Unsup("float bits width".into())); }
        let neg_cond = { let z = self.s.rc(0.0); self.s.lt(e, z) };
        match (op, o.conc()) {
            (BinOp::And, Some(c)) if c == sign - 1 => return Ok({ let x = self.s.abs(e); self.lift_r(x) }),
            (BinOp::And, Some(c)) if c == sign => { let (x, y) = (self.s.ic(i64::MIN as i128), self.s.ic(0)); return Ok(V::S(self.s.ite(neg_cond, x, y))); }
            (BinOp::Xor, Some(c)) if c == sign => return Ok({ let x = self.s.neg(e); self.lift_r(x) }),
            (BinOp::Or, Some(c)) if c == sign => return Ok({ let x = self.s.abs(e); let x = self.s.neg(x); self.lift_r(x) }),
            (BinOp::Or, Some(0)) | (BinOp::Xor, Some(0)) => return Ok(r.clone()),
            (BinOp::And, Some(0)) => return Ok(V::C(0)),
            (BinOp::LShr, Some(63)) => { let (x, y) = (self.s.ic(1), self.s.ic(0)); return Ok(V::S(self.s.ite(neg_cond, x, y))); }
            (BinOp::AShr, Some(63)) => { let (x, y) = (self.s.ic(-1), self.s.ic(0)); return Ok(V::S(self.s.ite(neg_cond, x, y))); }
            (BinOp::Or, None) => {
                // |x| with a sign pattern
                if let V::S(o) = o {
                    if let N::Ite(c, p, q) = *self.s.node(*o) {
                        if let (Some(p), Some(q)) = (self.s.as_ic(p), self.s.as_ic(q)) {
                            let mk = |s: &mut Store, k: i128| -> Option<Id> {
                                if k == 0 { Some(e) } else if k == i64::MIN as i128 { let x = s.abs(e); Some(s.neg(x)) } else { None }
                            };
                            if let (Some(x), Some(y)) = (mk(&mut self.s, p), mk(&mut self.s, q)) { return Ok(V::S(self.s.ite(c, x, y))); }
                        }
                    }
                }
            }
            (BinOp::Xor, None) => {
                // total_cmp key: bits ^ ((bits >> 63) >>> 1): order-isomorphic to the value itself
                if let V::S(o) = o {
                    if let N::Ite(c, p, q) = *self.s.node(*o) {
                        if c == neg_cond && self.s.as_ic(p) == Some(i64::MAX as i128) && self.s.as_ic(q) == Some(0) { return Ok(r.clone()); }
                        if self.s.as_ic(p) == Some(i64::MIN as i128) && self.s.as_ic(q) == Some(0) { let x = self.s.neg(e); return Ok(V::S(self.s.ite(c, x, e))); }
                    }
                }
            }
            _ => {}
        }
        Err(Stop::Unsup(format!("bit operation {:?} on a symbolic float", op)))
    }

    fn ibin(&mut self, op: BinOp, bits: u32, a: &V, b: &V) -> R<V> {
        use BinOp::*;
        let x = self.int_e(a, bits)?;
        let y = self.int_e(b, bits)?;
        let e = match op {
            Add => self.s.add(x, y),
            Sub => self.s.sub(x, y),
            Mul => {
                let (x, y) = if self.wide(x, y) { (self.norm(x, bits, true)?, self.norm(y, bits, true)?) } else { (x, y) };
                self.s.mul(x, y)
            }
            Shl => match b.conc() {
                Some(k) if k < bits as u128 && k < 126 => { let c = self.s.ic(p2(k as u32)); self.s.mul(x, c) }
                _ => { let k = self.concretize(b, bits)?; return self.binop(op, &Type::Int(bits), a, &V::C(k)); }
            },
            UDiv | URem | LShr => {
                let x = self.norm(x, bits, false)?;
                let y = if op == LShr { let k = self.concretize(b, bits)?; if k >= 126 { return Ok(V::C(0)); } self.s.ic(p2(k as u32)) } else { self.norm(y, bits, false)? };
                if op == URem { self.s.imod(x, y) } else { self.s.idiv(x, y) }
            }
            SDiv | SRem => {
                let x = self.norm(x, bits, true)?;
                let y = self.norm(y, bits, true)?;
                let (yl, yh) = self.s.iiv(y);
                let z = self.s.ic(0);
                let (y2, yneg) = if yl > 0 { (y, false) } else if yh < 0 { (self.s.neg(y), true) } else { let c = self.s.lt(z, y); if self.decide(c)? { (y, false) } else { (self.s.neg(y), true) } };
                let (xl, xh) = self.s.iiv(x);
                let xneg = if xl >= 0 { false } else if xh <= 0 { true } else { let c = self.s.le(z, x); !self.decide(c)? };
                let xa = if xneg { self.s.neg(x) } else { x };
                if op == SDiv {
                    let q = self.s.idiv(xa, y2);
                    if xneg != yneg { self.s.neg(q) } else { q }
                } else {
                    let r = self.s.imod(xa, y2);
                    if xneg { self.s.neg(r) } else { r }
                }
            }
            AShr => {
                let x = self.norm(x, bits, true)?;
                let k = self.concretize(b, bits)?;
                let c = self.s.ic(p2(k.min(125) as u32));
                self.s.idiv(x, c)
            }
            And | Or | Xor => return self.bitop(op, bits, a, b),
            _ => return Err(Stop::Unsup("ibin".into())),
        };
        Ok(self.lift_i(e, bits))
    }
    fn wide(&self, x: Id, y: Id) -> bool {
        let (a, b) = self.s.iiv(x);
        let (c, d) = self.s.iiv(y);
        let m = |l: i128, h: i128| l.unsigned_abs().max(h.unsigned_abs());
        m(a, b).checked_mul(m(c, d)).map_or(true, |v| v > i128::MAX as u128)
    }
    fn leaves(&self, e: Id, out: &mut u32) -> bool {
        // all leaves constants, bounded count
        match *self.s.node(e) {
            N::IC(_) => { *out += 1; *out <= 32 }
            N::Ite(_, a, b) => self.leaves(a, out) && self.leaves(b, out),
            _ => false,
        }
    }
    fn map_leaves(&mut self, e: Id, g: &dyn Fn(i128) -> i128) -> Id {
        match *self.s.node(e) {
            N::IC(c) => self.s.ic(g(c)),
            N::Ite(c, a, b) => { let x = self.map_leaves(a, g); let y = self.map_leaves(b, g); self.s.ite(c, x, y) }
            _ => unreachable!(),
        }
    }
    fn bitop(&mut self, op: BinOp, bits: u32, a: &V, b: &V) -> R<V> {
        use BinOp::*;
        let (sv, o) = if a.conc().is_none() { (a, b) } else { (b, a) };
        let e = self.int_e(sv, bits)?;
        if let Some(c) = o.conc() {
            let full = mask(u128::MAX, bits);
            let mut n = 0;
            if self.leaves(e, &mut n) {
                let g = move |x: i128| -> i128 {
                    let x = mask(x as u128, bits);
                    sext(match op { And => x & c, Or => x | c, _ => x ^ c }, bits)
                };
                let r = self.map_leaves(e, &g);
                return Ok(self.lift_i(r, bits));
            }
            match op {
                And => {
                    if c == 0 { return Ok(V::C(0)); }
                    if c == full { return Ok(sv.clone()); }
                    // sum of contiguous runs
                    let eu = if c & (c + 1) == 0 { e } else { self.norm(e, bits, false)? };
                    let mut acc = self.s.ic(0);
                    let mut k = 0;
                    while k < bits {
                        if c >> k & 1 == 1 {
                            let st = k;
                            while k < bits && c >> k & 1 == 1 { k += 1; }
                            let len = k - st;
                            let d = self.s.ic(p2(st));
                            let q = self.s.idiv(eu, d);
                            let r = if k == bits { q } else { let m = self.s.ic(p2(len)); self.s.imod(q, m) };
                            let t = self.s.mul(r, d);
                            acc = self.s.add(acc, t);
                        } else {
                            k += 1;
                        }
                    }
                    return Ok(self.lift_i(acc, bits));
                }
                Xor if c == full => {
                    let m = self.s.ic(-1);
                    let r = self.s.sub(m, e);
                    return Ok(self.lift_i(r, bits));
                }
                Xor if c == 1u128 << (bits - 1) => {
                    let m = self.s.ic(p2(bits - 1));
                    let r = self.s.add(e, m);
                    return Ok(self.lift_i(r, bits));
                }
                Or | Xor => {
                    // a | c = a + c - (a & c); a ^ c = a + c - 2 (a & c)
                    let an = self.bitop(And, bits, sv, o)?;
                    let an = self.int_e(&an, bits)?;
                    let eu = self.norm(e, bits, false)?;
                    let cc = self.s.ic(sext(c, bits));
                    let t = self.s.add(eu, cc);
                    let an = if op == Xor { let two = self.s.ic(2); self.s.mul(an, two) } else { an };
                    let r = self.s.sub(t, an);
                    return Ok(self.lift_i(r, bits));
                }
                _ => {}
            }
        }
        let x = self.int_e(a, bits)?;
        let y = self.int_e(b, bits)?;
        if x == y { return Ok(match op { And | Or => a.clone(), _ => V::C(0) }); }
        // ite with constant leaves on one side: distribute
        for (p, q, qv) in [(x, y, b), (y, x, a)] {
            let mut n = 0;
            if self.leaves(p, &mut n) {
                let r = self.distribute(op, bits, p, qv)?;
                let _ = q;
                return Ok(self.lift_i(r, bits));
            }
        }
        // disjoint bits for or/xor
        if matches!(op, Or | Xor) {
            let xu = self.norm(x, bits, false)?;
            let yu = self.norm(y, bits, false)?;
            for (hi, lo) in [(xu, yu), (yu, xu)] {
                let (_, lh) = self.s.iiv(lo);
                let t = self.trail(hi);
                if t < 127 && lh >= 0 && lh < p2(t) { let r = self.s.add(hi, lo); return Ok(self.lift_i(r, bits)); }
            }
        }
        Err(Stop::Unsup(format!("bitwise {:?} on symbolic integers {} , {}", op, self.s.show(x, 4), self.s.show(y, 4))))
    }
    fn distribute(&mut self, op: BinOp, bits: u32, p: Id, q: &V) -> R<Id> {
        match *self.s.node(p) {
            N::IC(c) => { let v = self.binop(op, &Type::Int(bits), q, &V::C(mask(c as u128, bits)))?; self.int_e(&v, bits) }
            N::Ite(c, a, b) => { let x = self.distribute(op, bits, a, q)?; let y = self.distribute(op, bits, b, q)?; Ok(self.s.ite(c, x, y)) }
            _ => unreachable!(),
        }
    }
    fn trail(&self, e: Id) -> u32 {
        match *self.s.node(e) {
            N::IC(c) => if c == 0 { 127 } else { c.trailing_zeros() },
            N::Mul(a, b) => (self.trail(a) + self.trail(b)).min(127),
            N::Add(a, b) | N::Sub(a, b) => self.trail(a).min(self.trail(b)),
            N::Ite(_, a, b) => self.trail(a).min(self.trail(b)),
            _ => 0,
        }
    }

    pub fn icmp(&mut self, p: Pred, ty: &Type, a: &V, b: &V) -> R<V> {
        if let Type::Vec(n, t) = ty {
            let (x, y) = (self.elems(a, *n), self.elems(b, *n));
            let mut o = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize { o.push(self.icmp(p, t, &x[i], &y[i])?); }
            return Ok(V::agg(o));
        }
        let bits = match ty { Type::Int(b) => *b, Type::Ptr => 64, _ => return Err(Stop::Unsup("icmp type".into())) };
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let (sx, sy) = (sext(x, bits), sext(y, bits));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Ok(V::C(r as u128));
        }
        if self.is_real(a) || self.is_real(b) { return self.icmp_floatbits(p, a, b); }
        if bits == 1 {
            let (x, y) = (self.bool_e(a)?, self.bool_e(b)?);
            let r = match p {
                Pred::Eq => { let t = self.s.xor(x, y); self.s.not(t) }
                Pred::Ne => self.s.xor(x, y),
                Pred::Ult | Pred::Sgt => { let n = self.s.not(x); self.s.and(n, y) }
                Pred::Ugt | Pred::Slt => { let n = self.s.not(y); self.s.and(x, n) }
                Pred::Ule | Pred::Sge => { let n = self.s.not(x); self.s.or(n, y) }
                Pred::Uge | Pred::Sle => { let n = self.s.not(y); self.s.or(x, n) }
            };
            return Ok(self.lift(r));
        }
        let x = self.int_e(a, bits)?;
        let y = self.int_e(b, bits)?;
        let r = match p {
            Pred::Eq | Pred::Ne => {
                let fits = |s: &Store, e: Id, sg: bool| { let (l, h) = s.iiv(e); if bits >= 127 { true } else if sg { l >= -p2(bits - 1) && h < p2(bits - 1) } else { l >= 0 && h < p2(bits) } };
                let q = if (fits(&self.s, x, true) && fits(&self.s, y, true)) || (fits(&self.s, x, false) && fits(&self.s, y, false)) {
                    self.s.eq(x, y)
                } else {
                    let sg = !(fits(&self.s, x, false) || fits(&self.s, y, false));
                    let x = self.norm(x, bits, sg)?;
                    let y = self.norm(y, bits, sg)?;
                    self.s.eq(x, y)
                };
                if p == Pred::Ne { self.s.not(q) } else { q }
            }
            _ => {
                let sg = matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle);
                let x = self.norm(x, bits, sg)?;
                let y = self.norm(y, bits, sg)?;
                match p {
                    Pred::Ugt | Pred::Sgt => self.s.lt(y, x),
                    Pred::Uge | Pred::Sge => self.s.le(y, x),
                    Pred::Ult | Pred::Slt => self.s.lt(x, y),
                    _ => self.s.le(x, y),
                }
            }
        };
        Ok(self.lift(r))
    }
    fn icmp_floatbits(&mut self, p: Pred, a: &V, b: &V) -> R<V> {
        if self.is_real(a) && self.is_real(b) {
            // total-order keys or raw equality of patterns
            let (x, y) = (self.real_e(a)?, self.real_e(b)?);
            let r = match p {
                Pred::Eq => self.s.eq(x, y),
                Pred::Ne => { let q = self.s.eq(x, y); self.s.not(q) }
                Pred::Slt => self.s.lt(x, y),
                Pred::Sle => self.s.le(x, y),
                Pred::Sgt => self.s.lt(y, x),
                Pred::Sge => self.s.le(y, x),
                _ => return Err(Stop::Unsup("unsigned compare of float bits".into())),
            };
            return Ok(self.lift(r));
        }
        let (r, o, p) = if self.is_real(a) { (a, b, p) } else {
            let q = match p { Pred::Ugt => Pred::Ult, Pred::Ult => Pred::Ugt, Pred::Uge => Pred::Ule, Pred::Ule => Pred::Uge, Pred::Sgt => Pred::Slt, Pred::Slt => Pred::Sgt, Pred::Sge => Pred::Sle, Pred::Sle => Pred::Sge, p => p };
            (b, a, q)
        };
        let e = match r { V::S(e) => *e, _ => unreachable!() };
        let c = o.conc().ok_or_else(|| Stop::Unsup("float bits vs symbolic int".into()))? as u64;
        let fc = f64::from_bits(c);
        let z = self.s.rc(0.0);
        let res = match p {
            Pred::Eq | Pred::Ne => {
                let q = if fc.is_finite() { let k = self.s.rc(fc); self.s.eq(e, k) } else { self.s.bc(false) };
                if p == Pred::Ne { self.s.not(q) } else { q }
            }
            Pred::Slt if c == 0 => self.s.lt(e, z),
            Pred::Sgt if c == u64::MAX => self.s.le(z, e),
            Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge if !fc.is_nan() && fc >= 0.0 => {
                if fc.is_infinite() { self.s.bc(matches!(p, Pred::Slt | Pred::Sle)) } else {
                    let k = self.s.rc(fc);
                    match p { Pred::Slt => self.s.lt(e, k), Pred::Sle => self.s.le(e, k), Pred::Sgt => self.s.lt(k, e), _ => self.s.le(k, e) }
                }
            }
            Pred::Slt | Pred::Sle if fc.is_nan() && c >> 63 == 0 => self.s.bc(true),
            Pred::Sgt | Pred::Sge if fc.is_nan() && c >> 63 == 0 => self.s.bc(false),
            Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge if self.s.riv(e).0 >= 0.0 && c >> 63 == 0 => {
                if !fc.is_finite() { self.s.bc(matches!(p, Pred::Ult | Pred::Ule)) } else {
                    let k = self.s.rc(fc);
                    match p { Pred::Ult => self.s.lt(e, k), Pred::Ule => self.s.le(e, k), Pred::Ugt => self.s.lt(k, e), _ => self.s.le(k, e) }
                }
            }
            _ => return Err(Stop::Unsup(format!("compare {:?} of float bits with {:#x}", p, c))),
        };
        Ok(self.lift(res))
    }

    pub fn fcmp(&mut self, p: FPred, ty: &Type, a: &V, b: &V) -> R<V> {
        if let Type::Vec(n, t) = ty {
            let (x, y) = (self.elems(a, *n), self.elems(b, *n));
            let mut o = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize { o.push(self.fcmp(p, t, &x[i], &y[i])?); }
            return Ok(V::agg(o));
        }
        use FPred::*;
        let cmp = |x: f64, y: f64| -> bool {
            let un = x.is_nan() || y.is_nan();
            match p { False => false, True => true, Ord => !un, Uno => un, Oeq => x == y, Ogt => x > y, Oge => x >= y, Olt => x < y, Ole => x <= y, One => !un && x != y, Ueq => un || x == y, Ugt => un || x > y, Uge => un || x >= y, Ult => un || x < y, Ule => un || x <= y, Une => un || x != y }
        };
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let r = if *ty == Type::F32 { cmp(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { cmp(f(x), f(y)) };
            return Ok(V::C(r as u128));
        }
        // concrete non-finite against a (finite) symbolic real
        for (v, left) in [(a, true), (b, false)] {
            if let Some(c) = v.conc() {
                let c = f(c);
                if !c.is_finite() {
                    let r = if left { cmp(c, 0.0) } else { cmp(0.0, c) };
                    return Ok(V::C(r as u128));
                }
            }
        }
        let (x, y) = (self.real_e(a)?, self.real_e(b)?);
        let r = match p {
            False | Uno => self.s.bc(false),
            True | Ord => self.s.bc(true),
            Oeq | Ueq => self.s.eq(x, y),
            One | Une => { let q = self.s.eq(x, y); self.s.not(q) }
            Ogt | Ugt => self.s.lt(y, x),
            Oge | Uge => self.s.le(y, x),
            Olt | Ult => self.s.lt(x, y),
            Ole | Ule => self.s.le(x, y),
        };
        Ok(self.lift(r))
    }

    fn sign(&mut self, e: Id) -> R<i32> {
        let z = self.s.rc(0.0);
        let c = self.s.lt(z, e);
        if self.decide(c)? { return Ok(1); }
        let c = self.s.lt(e, z);
        if self.decide(c)? { return Ok(-1); }
        Ok(0)
    }
    pub fn fbin(&mut self, op: BinOp, a: &V, b: &V) -> R<V> {
        use BinOp::*;
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let (x, y) = (f(x), f(y));
            let r = match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, FRem => x % y, _ => return Err(Stop::Unsup("fbin".into())) };
            return Ok(fb(r));
        }
        // non-finite concrete operand with a finite symbolic one
        for (v, o, left) in [(a, b, true), (b, a, false)] {
            if let Some(c) = v.conc() {
                let c = f(c);
                if c.is_nan() { return Ok(fb(f64::NAN)); }
                if c.is_infinite() {
                    return Ok(fb(match op {
                        FAdd => c,
                        FSub => if left { c } else { -c },
                        FMul => { let e = self.real_e(o)?; match self.sign(e)? { 0 => f64::NAN, s => c * s as f64 } }
                        FDiv => if left { let e = self.real_e(o)?; match self.sign(e)? { -1 => -c, _ => c } } else { 0.0 },
                        _ => if left { f64::NAN } else { return Ok(o.clone()); },
                    }));
                }
            }
        }
        let (x, y) = (self.real_e(a)?, self.real_e(b)?);
        let r = match op {
            FAdd => self.s.add(x, y),
            FSub => self.s.sub(x, y),
            FMul => self.s.mul(x, y),
            FDiv => {
                let z = self.s.rc(0.0);
                let c = self.s.eq(y, z);
                if self.decide(c)? {
                    return Ok(fb(match self.sign(x)? { 0 => f64::NAN, s => s as f64 * f64::INFINITY }));
                }
                self.s.rdiv(x, y)
            }
            FRem => {
                let z = self.s.rc(0.0);
                let c = self.s.eq(y, z);
                if self.decide(c)? { return Ok(fb(f64::NAN)); }
                let q = self.s.rdiv(x, y);
                let t = self.rtrunc(q)?;
                let m = self.s.mul(t, y);
                self.s.sub(x, m)
            }
            _ => return Err(Stop::Unsup("fbin".into())),
        };
        Ok(self.lift_r(r))
    }
    pub fn itrunc(&mut self, e: Id) -> R<Id> {
        let (l, h) = self.s.riv(e);
        let z = self.s.rc(0.0);
        let nonneg = if l >= 0.0 { true } else if h <= 0.0 { false } else {
            let c = self.s.le(z, e);
            self.decide(c)?
        };
        Ok(if nonneg { self.s.floor(e) } else { let n = self.s.neg(e); let q = self.s.floor(n); self.s.neg(q) })
    }
    fn rtrunc(&mut self, e: Id) -> R<Id> { let i = self.itrunc(e)?; Ok(self.s.to_r(i)) }

    /// unary float intrinsics on a symbolic argument
    pub fn funary(&mut self, name: &str, a: &V) -> R<V> {
        if let Some(c) = a.conc() {
            let x = f(c);
            let r = match name {
                "sqrt" => x.sqrt(), "fabs" => x.abs(), "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "round" => x.round(), "rint" | "nearbyint" | "roundeven" => x.round_ties_even(),
                "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log10" => x.log10(), "log2" => x.log2(),
                "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "cbrt" => x.cbrt(), "expm1" => x.exp_m1(), "log1p" => x.ln_1p(), "asinh" => x.asinh(), "acosh" => x.acosh(), "atanh" => x.atanh(),
                _ => return Err(Stop::Unsup(format!("float fn {name}"))),
            };
            return Ok(fb(r));
        }
        let e = self.real_e(a)?;
        let z = self.s.rc(0.0);
        let half = self.s.rc(0.5);
        let r = match name {
            "fabs" => self.s.abs(e),
            "sqrt" => {
                let c = self.s.lt(e, z);
                if self.decide(c)? { return Ok(fb(f64::NAN)); }
                self.s.sqrt(e)
            }
            "floor" => { let i = self.s.floor(e); self.s.to_r(i) }
            "ceil" => { let n = self.s.neg(e); let i = self.s.floor(n); let i = self.s.neg(i); self.s.to_r(i) }
            "trunc" => self.rtrunc(e)?,
            "round" | "rint" | "nearbyint" | "roundeven" => {
                let (l, h) = self.s.riv(e);
                let nonneg = if l >= 0.0 { true } else if h <= 0.0 { false } else { let c = self.s.le(z, e); self.decide(c)? };
                let x = if nonneg { e } else { self.s.neg(e) };
                let x = self.s.add(x, half);
                let i = self.s.floor(x);
                let i = if nonneg { i } else { self.s.neg(i) };
                self.s.to_r(i)
            }
            _ => {
                let fun = match name { "sin" => MFn::Sin, "cos" => MFn::Cos, "tan" => MFn::Tan, "asin" => MFn::Asin, "acos" => MFn::Acos, "atan" => MFn::Atan, "exp" => MFn::Exp, "exp2" => MFn::Exp2, "log" => MFn::Ln, "log10" => MFn::Log10, "log2" => MFn::Log2, "sinh" => MFn::Sinh, "cosh" => MFn::Cosh, "tanh" => MFn::Tanh, "cbrt" => MFn::Cbrt, "expm1" => MFn::Expm1, "log1p" => MFn::Log1p, "asinh" => MFn::Asinh, "acosh" => MFn::Acosh, "atanh" => MFn::Atanh, _ => return Err(Stop::Unsup(format!("float fn {name}"))) };
                match fun {
                    MFn::Asin | MFn::Acos => {
                        let one = self.s.rc(1.0);
                        let ab = self.s.abs(e);
                        let c = self.s.lt(one, ab);
                        if self.decide(c)? { return Ok(fb(f64::NAN)); }
                    }
                    MFn::Ln | MFn::Log10 | MFn::Log2 => {
                        let c = self.s.le(e, z);
                        if self.decide(c)? {
                            let c = self.s.eq(e, z);
                            return Ok(fb(if self.decide(c)? { f64::NEG_INFINITY } else { f64::NAN }));
                        }
                    }
                    _ => {}
                }
                self.s.uf(fun, e, None)
            }
        };
        Ok(self.lift_r(r))
    }
    pub fn fbinary(&mut self, name: &str, a: &V, b: &V) -> R<V> {
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let (x, y) = (f(x), f(y));
            let r = match name { "pow" => x.powf(y), "atan2" => x.atan2(y), "hypot" => x.hypot(y), "fmod" => x % y, "minnum" | "fmin" | "minimumnum" => x.min(y), "maxnum" | "fmax" | "maximumnum" => x.max(y), "minimum" => if x.is_nan() || y.is_nan() { f64::NAN } else { x.min(y) }, "maximum" => if x.is_nan() || y.is_nan() { f64::NAN } else { x.max(y) }, "copysign" => x.copysign(y), _ => return Err(Stop::Unsup(format!("float fn {name}"))) };
            return Ok(fb(r));
        }
        if matches!(name, "minnum" | "fmin" | "maxnum" | "fmax" | "minimumnum" | "maximumnum" | "minimum" | "maximum") {
            let mx = name.contains("max");
            for (v, o) in [(a, b), (b, a)] {
                if let Some(c) = v.conc() {
                    let c = f(c);
                    if c.is_nan() { return Ok(if name == "minimum" || name == "maximum" { v.clone() } else { o.clone() }); }
                    if c.is_infinite() { return Ok(if (c > 0.0) == mx { v.clone() } else { o.clone() }); }
                }
            }
            let (x, y) = (self.real_e(a)?, self.real_e(b)?);
            let c = if mx { self.s.le(y, x) } else { self.s.le(x, y) };
            let r = self.s.ite(c, x, y);
            return Ok(self.lift_r(r));
        }
        if name == "copysign" {
            if let Some(c) = b.conc() {
                let ab = self.funary("fabs", a)?;
                return if f(c).is_sign_negative() { self.fneg(&Type::F64, &ab) } else { Ok(ab) };
            }
            let y = self.real_e(b)?;
            let z = self.s.rc(0.0);
            let c = self.s.lt(y, z);
            if let Some(x) = a.conc() {
                let x = f(x).abs();
                if !x.is_finite() { return Ok(if self.decide(c)? { fb(-x) } else { fb(x) }); }
            }
            let x = self.real_e(a)?;
            let p = self.s.abs(x);
            let n = self.s.neg(p);
            let r = self.s.ite(c, n, p);
            return Ok(self.lift_r(r));
        }
        for v in [a, b] { if let Some(c) = v.conc() { if !f(c).is_finite() { return Err(Stop::Unsup(format!("{name} with non-finite argument"))); } } }
        if name == "fmod" { return self.fbin(BinOp::FRem, a, b); }
        let (x, y) = (self.real_e(a)?, self.real_e(b)?);
        let r = match name {
            "pow" => {
                if let Some(c) = self.s.as_rc(y) {
                    if c.fract() == 0.0 && c.abs() <= 16.0 { return self.powi(a, c as i32); }
                    if c == 0.5 { return self.funary("sqrt", a); }
                    if (c * 2.0).fract() == 0.0 && c.abs() <= 8.0 {
                        let sq = self.funary("sqrt", a)?;
                        return self.powi(&sq, (c * 2.0) as i32);
                    }
                }
                let z = self.s.rc(0.0);
                let c = self.s.lt(x, z);
                if self.decide(c)? { return Err(Stop::Unsup("pow of a negative base".into())); }
                self.s.uf(MFn::Pow, x, Some(y))
            }
            "atan2" => self.s.uf(MFn::Atan2, x, Some(y)),
            "hypot" => { let p = self.s.mul(x, x); let q = self.s.mul(y, y); let t = self.s.add(p, q); self.s.sqrt(t) }
            _ => return Err(Stop::Unsup(format!("float fn {name}"))),
        };
        Ok(self.lift_r(r))
    }
    pub fn powi(&mut self, a: &V, n: i32) -> R<V> {
        if let Some(c) = a.conc() { return Ok(fb(f(c).powi(n))); }
        let mut r = fb(1.0);
        let mut base = a.clone();
        let mut k = n.unsigned_abs();
        while k > 0 {
            if k & 1 == 1 { r = self.fbin(BinOp::FMul, &r, &base)?; }
            k >>= 1;
            if k > 0 { base = self.fbin(BinOp::FMul, &base, &base)?; }
        }
        if n < 0 { r = self.fbin(BinOp::FDiv, &fb(1.0), &r)?; }
        Ok(r)
    }
    pub fn fneg(&mut self, ty: &Type, a: &V) -> R<V> {
        if let Type::Vec(n, t) = ty {
            let x = self.elems(a, *n);
            let mut o = vec![];
            for v in x { o.push(self.fneg(t, &v)?); }
            return Ok(V::agg(o));
        }
        if let Some(c) = a.conc() {
            return Ok(if *ty == Type::F32 { V::C((-f32::from_bits(c as u32)).to_bits() as u128) } else { fb(-f(c)) });
        }
        let e = self.real_e(a)?;
        let r = self.s.neg(e);
        Ok(self.lift_r(r))
    }
    pub fn select(&mut self, ty: &Type, c: &V, a: &V, b: &V) -> R<V> {
        if let Some(x) = c.conc() { return Ok(if x & 1 == 1 { a.clone() } else { b.clone() }); }
        let ce = self.bool_e(c)?;
        match ty {
            Type::F64 => {
                let fin = |v: &V| v.conc().map_or(true, |c| f(c).is_finite());
                if fin(a) && fin(b) {
                    let (x, y) = (self.real_e(a)?, self.real_e(b)?);
                    let r = self.s.ite(ce, x, y);
                    return Ok(self.lift_r(r));
                }
            }
            Type::Int(1) => {
                let (x, y) = (self.bool_e(a)?, self.bool_e(b)?);
                let r = self.s.ite(ce, x, y);
                return Ok(self.lift(r));
            }
            Type::Int(bits) => {
                if self.is_real(a) || self.is_real(b) {
                    let fin = |v: &V| v.conc().map_or(true, |c| f(c).is_finite());
                    if fin(a) && fin(b) {
                        let (x, y) = (self.real_e(a)?, self.real_e(b)?);
                        let r = self.s.ite(ce, x, y);
                        return Ok(self.lift_r(r));
                    }
                } else if a.scalar() && b.scalar() {
                    let (x, y) = (self.int_e(a, *bits)?, self.int_e(b, *bits)?);
                    let r = self.s.ite(ce, x, y);
                    return Ok(self.lift_i(r, *bits));
                }
            }
            _ => {}
        }
        Ok(if self.decide(ce)? { a.clone() } else { b.clone() })
    }
    pub fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, a: &V) -> R<V> {
        if op != CastOp::Bitcast {
            if let (Type::Vec(n, t1), Type::Vec(_, t2)) = (&**from, &**to) {
                let x = self.elems(a, *n);
                let mut o = vec![];
                for v in x { o.push(self.cast(op, t1, t2, &v)?); }
                return Ok(V::agg(o));
            }
        }
        let fbits = match &**from { Type::Int(b) => *b, Type::Ptr => 64, _ => 64 };
        let tbits = match &**to { Type::Int(b) => *b, Type::Ptr => 64, _ => 64 };
        if let V::U = a { return Ok(V::C(0)); }
        use CastOp::*;
        match op {
            Trunc => match a {
                V::C(c) => Ok(V::C(mask(*c, tbits))),
                _ => {
                    if let V::S(e) = a { if self.s.sort(*e) == Sort::B { return Ok(a.clone()); } }
                    if tbits == 1 { let r = self.bool_e(a)?; return Ok(self.lift(r)); }
                    if let V::A(_) = a { let t = self.spill(from, a)?; return self.load_ty(to, t); }
                    if self.is_real(a) { let t = self.spill(from, a)?; return self.load_ty(to, t); }
                    let e = self.int_e(a, fbits)?;
                    let e = self.trunc_simpl(e, tbits);
                    Ok(self.lift_i(e, tbits))
                }
            },
            ZExt => match a {
                V::C(c) => Ok(V::C(*c)),
                _ => { if self.is_real(a) { return Err(Stop::Unsup("zext of float bits".into())); } let e = self.int_e(a, fbits)?; let r = self.norm(e, fbits, false)?; Ok(self.lift_i(r, tbits)) }
            },
            SExt => match a {
                V::C(c) => Ok(V::C(mask(sext(*c, fbits) as u128, tbits))),
                _ => {
                    if fbits == 1 {
                        let b = self.bool_e(a)?;
                        let (x, y) = (self.s.ic(-1), self.s.ic(0));
                        let r = self.s.ite(b, x, y);
                        return Ok(self.lift_i(r, tbits));
                    }
                    let e = self.int_e(a, fbits)?;
                    let r = self.norm(e, fbits, true)?;
                    Ok(self.lift_i(r, tbits))
                }
            },
            PtrToInt | IntToPtr => match a { V::C(c) => Ok(V::C(mask(*c, tbits.min(fbits)))), _ => Ok(a.clone()) },
            Bitcast => {
                if from == to { return Ok(a.clone()); }
                match (&**from, &**to) {
                    (Type::Int(_) | Type::F64 | Type::F32 | Type::Ptr, Type::Int(_) | Type::F64 | Type::F32 | Type::Ptr) if a.scalar() => Ok(a.clone()),
                    (Type::Vec(n, t), Type::Int(b)) if **t == Type::Int(1) => {
                        let x = self.elems(a, *n);
                        let mut r = 0u128;
                        let mut all = true;
                        for (i, v) in x.iter().enumerate() { match v.conc() { Some(c) => r |= (c & 1) << i, None => all = false } }
                        if all { return Ok(V::C(r)); }
                        let mut acc = self.s.ic(0);
                        for (i, v) in x.iter().enumerate() {
                            let be = self.bool_e(v)?;
                            let (p, z) = (self.s.ic(p2(i as u32)), self.s.ic(0));
                            let t = self.s.ite(be, p, z);
                            acc = self.s.add(acc, t);
                        }
                        Ok(self.lift_i(acc, *b))
                    }
                    (Type::Int(_), Type::Vec(n, t)) if **t == Type::Int(1) => {
                        let c = a.conc().ok_or_else(|| Stop::Unsup("bitcast to i1 vector".into()))?;
                        Ok(V::agg((0..*n).map(|i| V::C(c >> i & 1)).collect()))
                    }
                    _ => { let t = self.spill(from, a)?; self.load_ty(to, t) }
                }
            }
            SIToFP | UIToFP => match a {
                V::C(c) => {
                    if **to == Type::F32 { let r = if op == SIToFP { sext(*c, fbits) as f32 } else { *c as f32 }; return Ok(V::C(r.to_bits() as u128)); }
                    Ok(fb(if op == SIToFP { sext(*c, fbits) as f64 } else { *c as f64 }))
                }
                _ => {
                    let e = self.int_e(a, fbits)?;
                    let e = self.norm(e, fbits, op == SIToFP)?;
                    let r = self.s.to_r(e);
                    Ok(self.lift_r(r))
                }
            },
            FPToSI | FPToUI => match a {
                V::C(c) => {
                    let x = if **from == Type::F32 { f32::from_bits(*c as u32) as f64 } else { f(*c) };
                    Ok(V::C(mask(if op == FPToSI { x as i128 as u128 } else { x as u128 }, tbits)))
                }
                _ => { let e = self.real_e(a)?; let r = self.itrunc(e)?; Ok(self.lift_i(r, tbits)) }
            },
            FPExt => match a { V::C(c) => Ok(fb(f32::from_bits(*c as u32) as f64)), _ => Ok(a.clone()) },
            FPTrunc => match a { V::C(c) => Ok(V::C((f(*c) as f32).to_bits() as u128)), _ => Ok(a.clone()) },
        }
    }
    fn trunc_simpl(&mut self, e: Id, _tbits: u32) -> Id { e }

    /// saturating float -> int
    pub fn fptoi_sat(&mut self, a: &V, bits: u32, signed: bool) -> R<V> {
        let (lo, hi): (f64, f64) = if signed { (-(2f64.powi(bits as i32 - 1)), 2f64.powi(bits as i32 - 1)) } else { (0.0, 2f64.powi(bits as i32)) };
        if let Some(c) = a.conc() {
            let x = f(c);
            let r = if x.is_nan() { 0 } else if signed {
                let v = x as i128;
                let m = if bits >= 128 { i128::MAX } else { p2(bits - 1) - 1 };
                let mi = if bits >= 128 { i128::MIN } else { -p2(bits - 1) };
                v.clamp(mi, m) as u128
            } else { (x as u128).min(mask(u128::MAX, bits)) };
            return Ok(V::C(mask(r, bits)));
        }
        let e = self.real_e(a)?;
        let (l, h) = self.s.riv(e);
        if l < lo {
            let k = self.s.rc(lo);
            let c = self.s.lt(e, k);
            if self.decide(c)? { return Ok(V::C(if signed { mask(1u128 << (bits - 1), bits) } else { 0 })); }
        }
        if h >= hi {
            let k = self.s.rc(hi);
            let c = self.s.le(k, e);
            if self.decide(c)? { return Ok(V::C(if signed { mask(u128::MAX, bits - 1) } else { mask(u128::MAX, bits) })); }
        }
        let r = self.itrunc(e)?;
        Ok(self.lift_i(r, bits))
    }
}
