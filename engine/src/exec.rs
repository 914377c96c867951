//! Symbolic executor: path exploration over the parsed LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use rustc_hash::FxHashMap as HashMap;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(Id),
    A(Rc<Vec<V>>),
    /// raw concatenation of (value, nbytes): only movable
    Cat(Rc<Vec<(V, u8)>>),
    U,
}
impl V {
    #[inline]
    pub fn conc(&self) -> Option<u128> { match self { V::C(c) => Some(*c), V::U => Some(0), _ => None } }
    pub fn scalar(&self) -> bool { matches!(self, V::C(_) | V::S(_) | V::U) }
    pub fn agg(v: Vec<V>) -> V { V::A(Rc::new(v)) }
}

#[derive(Debug, Clone)]
pub enum Stop {
    Unsup(String),
    Infeasible,
    Panic(String),
    AssumeFail,
    Done,
    Exit,
}
pub type R<T> = Result<T, Stop>;

pub struct LFunc {
    pub f: Func,
    pub k: Vec<V>,
    pub idx: usize,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<LFunc>,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub sp: u64,
    pub ret: Option<u32>,
    pub normal: Option<u32>, // invoke continuation in the caller
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<Id>,
    pub known: HashMap<Id, bool>,
    pub mask: Mask,
    pub brk: u64,
    pub sp: u64,
    pub free: BTreeMap<u64, Vec<u64>>,
    pub clock: u64,
    pub depth: u32,
    pub wit: Option<Rc<Wit>>,
}

pub enum FnKind {
    Defined(Option<Rc<LFunc>>),
    Ext,
}
pub struct FnEnt {
    pub name: String,
    pub kind: FnKind,
    pub stub: Option<Stub>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stub { Panic, FloatFmt, TimeFmt, Zero, Vp, Cpuid, Skip }

pub const FBASE: u64 = 0x6000_0000_0000;
pub const GCONST: u64 = 0x5555_0000_0000;
pub const GMUT: u64 = 0x5655_0000_0000;
pub const HEAP: u64 = 0x5700_0000_0000;
pub const STACK: u64 = 0x7000_0000_0000;

#[derive(Default, Clone)]
pub struct CheckStat {
    pub proved: u64,
    pub simplified: u64,
    pub witnessed: bool,
    pub unknown: u64,
}
pub struct Cex {
    pub kind: String, // "check N" or "panic ..."
    pub inputs: Vec<(u32, String)>, // harness id -> value
    pub from: String,               // solver | sample
    pub trace: String,
}

pub struct Exec {
    pub m: Module,
    pub s: Store,
    pub st: State,
    pub work: Vec<State>,
    pub base: Mem,
    pub gaddr: HashMap<String, u64>,
    pub gnext: u64,
    pub gmnext: u64,
    pub fns: Vec<FnEnt>,
    pub fidx: HashMap<String, usize>,
    pub z3: Solver,
    pub qcache: HashMap<Vec<Id>, (bool, Option<Rc<Wit>>)>, // feasibility cache: true = maybe sat
    pub paths: u64,
    pub infeasible: u64,
    pub insts: u64,
    pub forks: u64,
    pub checks: BTreeMap<u32, CheckStat>,
    pub covers: BTreeMap<u32, u64>,
    pub cex: Vec<Cex>,
    pub unsup: Vec<String>,
    pub called: HashMap<usize, u64>,
    pub branch_ms: u64,
    pub check_ms: u64,
    pub start: Instant,
    pub max_time: f64,
    pub max_insts: u64,
    pub max_paths: u64,
    pub timed_out: bool,
    pub verbose: bool,
    pub maxcex: usize,
    pub fork_sites: HashMap<String, u64>,
    pub panics_ok: bool,
    pub concretized: u64,
    pub poly_proved: u64,
    pub found: u64,
    pub tries: usize,
}

impl Exec {
    pub fn new(m: Module, seed: u64) -> Exec {
        let st = State { frames: vec![], mem: Mem::default(), pc: vec![], known: Default::default(), mask: FULL, brk: HEAP, sp: STACK, free: Default::default(), clock: 1_000_000_000, depth: 0, wit: None };
        Exec {
            m, s: Store::new(seed), st, work: vec![], base: Mem::default(), gaddr: Default::default(), gnext: GCONST, gmnext: GMUT, fns: vec![], fidx: Default::default(),
            z3: Solver::new(&[&["z3-new", "-in", "-smt2"], &["z3", "-in", "-smt2"], &["cvc5", "--incremental", "-q"]]), qcache: Default::default(), paths: 0, infeasible: 0, insts: 0, forks: 0,
            checks: Default::default(), covers: Default::default(), cex: vec![], unsup: vec![], called: Default::default(), branch_ms: 3000, check_ms: 20000, start: Instant::now(), max_time: 600.0,
            max_insts: 4_000_000_000, max_paths: 100_000, timed_out: false, verbose: false, maxcex: 12, fork_sites: Default::default(), panics_ok: false, concretized: 0, poly_proved: 0, found: 0, tries: 40,
        }
    }

    // ---------- functions and globals ----------
    pub fn fn_index(&mut self, name: &str) -> usize {
        if let Some(&i) = self.fidx.get(name) { return i; }
        let mut nm = name.to_string();
        while let Some(a) = self.m.alias.get(&nm) { nm = a.clone(); }
        let kind = if self.m.func_pos.contains_key(&nm) { FnKind::Defined(None) } else { FnKind::Ext };
        let stub = crate::stubs::stub_for(&nm);
        let i = self.fns.len();
        self.fns.push(FnEnt { name: nm, kind, stub });
        self.fidx.insert(name.to_string(), i);
        i
    }
    pub fn get_func(&mut self, i: usize) -> Rc<LFunc> {
        if let FnKind::Defined(Some(f)) = &self.fns[i].kind { return f.clone(); }
        let name = self.fns[i].name.clone();
        let f = self.m.func(&name).unwrap_or_else(|| panic!("no body for {name}"));
        let consts = f.consts.clone();
        let k: Vec<V> = consts.iter().map(|(t, c)| self.const_v(t, c)).collect();
        let lf = Rc::new(LFunc { f, k, idx: i });
        self.fns[i].kind = FnKind::Defined(Some(lf.clone()));
        lf
    }
    pub fn global_addr(&mut self, name: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(name) { return a; }
        let mut nm = name.to_string();
        while let Some(a) = self.m.alias.get(&nm) { nm = a.clone(); }
        if self.m.func_pos.contains_key(&nm) || self.m.declared.contains_key(&nm) {
            if crate::stubs::weak_null(&nm) { self.gaddr.insert(name.to_string(), 0); return 0; }
            let i = self.fn_index(&nm);
            let a = FBASE + 16 * i as u64;
            self.gaddr.insert(name.to_string(), a);
            return a;
        }
        let g = self.m.global(&nm).unwrap_or_else(|| panic!("unknown global {nm}"));
        let sz = g.ty.size().max(1);
        if g.init.is_none() {
            // extern_weak: null
            self.gaddr.insert(name.to_string(), 0);
            return 0;
        }
        let a = if g.constant {
            let al = g.align.max(1);
            let a = (self.gnext + al - 1) / al * al;
            self.gnext = a + sz;
            a
        } else {
            let a = (self.gmnext + PG - 1) / PG * PG;
            self.gmnext = a + sz;
            a
        };
        self.gaddr.insert(name.to_string(), a);
        let mut buf = vec![0u8; sz as usize];
        let init = g.init.unwrap();
        self.const_bytes(&g.ty, &init, &mut buf);
        let empty = Mem::default();
        self.base.write_bytes(&empty, a, &buf);
        a
    }
    fn const_bytes(&mut self, t: &Ty, c: &Const, out: &mut [u8]) {
        match c {
            Const::Zero | Const::Undef | Const::Null => {}
            Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for (i, (et, ec)) in v.iter().enumerate() {
                    let (o, _) = t.field_off(i as u64);
                    let n = et.size() as usize;
                    self.const_bytes(et, ec, &mut out[o as usize..o as usize + n]);
                }
            }
            _ => {
                let v = self.const_v(t, c);
                let n = t.store_size() as usize;
                if let V::C(x) = v { out[..n].copy_from_slice(&x.to_le_bytes()[..n]); }
            }
        }
    }
    pub fn const_v(&mut self, t: &Ty, c: &Const) -> V {
        match c {
            Const::Int(v) => V::C(*v),
            Const::F(b) => V::C(*b as u128),
            Const::Null => V::C(0),
            Const::Undef => match &**t {
                Type::Struct(..) | Type::Arr(..) | Type::Vec(..) => { let n = t.nelem(); let mut o = vec![]; for i in 0..n { let (_, et) = t.field_off(i); o.push(self.const_v(&et, &Const::Undef)); } V::agg(o) }
                _ => V::U,
            },
            Const::Zero => match &**t {
                Type::Struct(..) | Type::Arr(..) | Type::Vec(..) => { let n = t.nelem(); let mut o = vec![]; for i in 0..n { let (_, et) = t.field_off(i); o.push(self.const_v(&et, &Const::Zero)); } V::agg(o) }
                _ => V::C(0),
            },
            Const::Global(g) => V::C(self.global_addr(g) as u128),
            Const::Agg(v) => V::agg(v.iter().map(|(t, c)| self.const_v(t, c)).collect()),
            Const::Bytes(b) => V::agg(b.iter().map(|&x| V::C(x as u128)).collect()),
            Const::Gep(ty, b, idx) => {
                let mut a = self.const_v(&b.0, &b.1).conc().unwrap() as u64;
                let mut t = ty.clone();
                for (k, (it, ic)) in idx.iter().enumerate() {
                    let bits = if let Type::Int(b) = **it { b } else { 64 };
                    let v = sext(self.const_v(it, ic).conc().unwrap(), bits) as i64;
                    if k == 0 { a = a.wrapping_add((v * t.size() as i64) as u64); } else {
                        match &*t.clone() {
                            Type::Struct(..) => { let (o, nt) = t.field_off(v as u64); a += o; t = nt; }
                            Type::Arr(_, e) | Type::Vec(_, e) => { a = a.wrapping_add((v * e.size() as i64) as u64); t = e.clone(); }
                            _ => panic!("const gep"),
                        }
                    }
                }
                V::C(a as u128)
            }
            Const::Cast(op, b, to) => {
                let v = self.const_v(&b.0, &b.1).conc().unwrap_or(0);
                let tb = match **to { Type::Int(b) => b, _ => 64 };
                let fb = match *b.0 { Type::Int(b) => b, _ => 64 };
                V::C(mask(if op == "sext" { sext(v, fb) as u128 } else { v }, tb))
            }
            Const::Bin(op, t, a, b) => {
                let bits = match **t { Type::Int(b) => b, _ => 64 };
                let x = self.const_v(t, a).conc().unwrap();
                let y = self.const_v(t, b).conc().unwrap();
                V::C(mask(match op.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), "xor" => x ^ y, "and" => x & y, "or" => x | y, _ => x << y }, bits))
            }
        }
    }

    // ---------- memory ----------
    pub fn load_ty(&mut self, t: &Type, a: u64) -> R<V> {
        if a < 4096 { return Err(Stop::Unsup(format!("null load at {a:#x}"))); }
        match t {
            Type::Int(_) | Type::F64 | Type::F32 | Type::Ptr => self.load_n(a, t.store_size()),
            Type::Vec(n, e) if **e == Type::Int(1) => {
                let v = self.load_n(a, (n + 7) / 8)?.conc().ok_or_else(|| Stop::Unsup("sym i1 vector".into()))?;
                Ok(V::agg((0..*n).map(|i| V::C(v >> i & 1)).collect()))
            }
            Type::Arr(..) | Type::Vec(..) | Type::Struct(..) => {
                let n = t.nelem();
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n { let (off, et) = t.field_off(i); o.push(self.load_ty(&et, a + off)?); }
                Ok(V::agg(o))
            }
            _ => Err(Stop::Unsup(format!("load type {t:?}"))),
        }
    }
    pub fn load_n(&mut self, a: u64, n: u64) -> R<V> {
        if n <= 16 { if let Some(c) = self.st.mem.read_conc(&self.base, a, n) { return Ok(V::C(c)); } }
        if let Some(e) = self.st.mem.exact_cell(&self.base, a, n) { return Ok(V::S(e)); }
        self.load_slow(a, n)
    }
    fn load_slow(&mut self, a: u64, n: u64) -> R<V> {
        let cells = self.st.mem.cells(&self.base, a, n);
        let bytes = self.st.mem.read_bytes(&self.base, a, n);
        // same-expression bytes reassembled?
        if cells.len() as u64 == n && cells.iter().all(|c| c.2 == 1) {
            if let N::Byte(e0, 0) = *self.s.node(cells[0].1) {
                if (0..n as usize).all(|i| matches!(*self.s.node(cells[i].1), N::Byte(e, k) if e == e0 && k as usize == i)) {
                    if self.s.sort(e0) == Sort::R && n == 8 { return Ok(V::S(e0)); }
                }
            }
        }
        // pieces in address order
        let mut pieces: Vec<(V, u8)> = vec![];
        let mut x = a;
        let mut has_real = false;
        let mut ci = 0;
        let mut cs = cells.clone();
        cs.sort();
        while x < a + n {
            if ci < cs.len() && cs[ci].0 <= x {
                let (ca, e, l) = cs[ci];
                ci += 1;
                if ca == x && ca + l as u64 <= a + n {
                    if l == 1 {
                        if let N::Byte(e0, k0) = *self.s.node(e) {
                            if self.s.sort(e0) == Sort::R {
                                has_real = true;
                                // eight consecutive bytes of one real make up that real again
                                if k0 == 0 && ci + 6 < cs.len() && (1..8usize).all(|i| { let c = cs[ci + i - 1]; c.2 == 1 && c.0 == ca + i as u64 && matches!(*self.s.node(c.1), N::Byte(e, k) if e == e0 && k as usize == i) }) && ca + 8 <= a + n {
                                    ci += 7;
                                    pieces.push((V::S(e0), 8));
                                    x += 8;
                                    continue;
                                }
                            }
                        }
                    }
                    if self.s.sort(e) == Sort::R { has_real = true; }
                    pieces.push((V::S(e), l));
                    x += l as u64;
                } else {
                    let end = (ca + l as u64).min(a + n);
                    while x < end {
                        let i = (x - ca) as u8;
                        let b = self.byte_of(e, i, l)?;
                        if self.s.sort(e) == Sort::R { has_real = true; }
                        pieces.push((V::S(b), 1));
                        x += 1;
                    }
                }
            } else {
                let end = if ci < cs.len() { cs[ci].0 } else { a + n };
                while x < end {
                    let k = (end - x).min(8);
                    let o = (x - a) as usize;
                    let mut r = [0u8; 16];
                    r[..k as usize].copy_from_slice(&bytes[o..o + k as usize]);
                    pieces.push((V::C(u128::from_le_bytes(r)), k as u8));
                    x += k;
                }
            }
        }
        if has_real || n > 16 { return Ok(V::Cat(Rc::new(pieces))); }
        // integer composition
        let mut acc = self.s.ic(0);
        let mut sh = 0u32;
        let np = pieces.len();
        for (i, (v, l)) in pieces.into_iter().enumerate() {
            let bits = l as u32 * 8;
            let e = self.int_e(&v, bits)?;
            let e = if i + 1 == np { e } else { self.norm(e, bits, false)? };
            let e = if let (V::C(c), true) = (&v, i + 1 < np) { self.s.ic(*c as i128) } else { e };
            let m = if sh >= 127 { return Err(Stop::Unsup("wide compose".into())); } else { self.s.ic(1i128 << sh) };
            let t = self.s.mul(e, m);
            acc = self.s.add(acc, t);
            sh += bits;
        }
        Ok(self.lift_i(acc, n as u32 * 8))
    }
    fn byte_of(&mut self, e: Id, i: u8, l: u8) -> R<Id> {
        if self.s.sort(e) == Sort::R { return Ok(self.s.byte(e, i)); }
        let eu = if l >= 16 { e } else { let m = self.s.ic(1i128 << (8 * l as u32)); self.s.imod(e, m) };
        let d = self.s.ic(1i128 << (8 * i as u32));
        let q = self.s.idiv(eu, d);
        let m = self.s.ic(256);
        Ok(self.s.imod(q, m))
    }
    fn clear(&mut self, a: u64, n: u64) -> R<()> {
        let part = self.st.mem.clear_cells(&self.base, a, n);
        for (ca, e, l) in part {
            for i in 0..l {
                let x = ca + i as u64;
                if x < a || x >= a + n { let b = self.byte_of(e, i, l)?; self.st.mem.put_cell(&self.base, x, b, 1); }
            }
        }
        Ok(())
    }
    pub fn store_n(&mut self, a: u64, n: u64, v: &V) -> R<()> {
        match v {
            V::U => self.store_n(a, n, &V::C(0)),
            V::C(c) => {
                self.clear(a, n)?;
                let b = c.to_le_bytes();
                if n <= 16 { self.st.mem.write_bytes(&self.base, a, &b[..n as usize]); } else {
                    let mut v = vec![0u8; n as usize];
                    v[..16].copy_from_slice(&b);
                    self.st.mem.write_bytes(&self.base, a, &v);
                }
                Ok(())
            }
            V::S(e) => {
                let mut e = *e;
                if self.s.sort(e) == Sort::B { let (p, q) = (self.s.ic(1), self.s.ic(0)); e = self.s.ite(e, p, q); }
                self.clear(a, n)?;
                self.st.mem.put_cell(&self.base, a, e, n as u8);
                Ok(())
            }
            V::Cat(p) => {
                let p = p.clone();
                let mut x = a;
                for (v, l) in p.iter() { self.store_n(x, *l as u64, v)?; x += *l as u64; }
                Ok(())
            }
            V::A(_) => Err(Stop::Unsup("store aggregate as scalar".into())),
        }
    }
    pub fn store_ty(&mut self, t: &Type, a: u64, v: &V) -> R<()> {
        if a < 4096 { return Err(Stop::Unsup(format!("null store at {a:#x}"))); }
        match t {
            Type::Int(_) | Type::F64 | Type::F32 | Type::Ptr => self.store_n(a, t.store_size(), v),
            Type::Vec(n, e) if **e == Type::Int(1) => {
                let x = self.elems(v, *n);
                let mut r = 0u128;
                for (i, b) in x.iter().enumerate() { r |= (b.conc().ok_or_else(|| Stop::Unsup("sym i1 vector".into()))? & 1) << i; }
                self.store_n(a, (n + 7) / 8, &V::C(r))
            }
            Type::Arr(..) | Type::Vec(..) | Type::Struct(..) => {
                let n = t.nelem();
                let x = self.elems(v, n);
                for i in 0..n { let (off, et) = t.field_off(i); self.store_ty(&et, a + off, &x[i as usize])?; }
                Ok(())
            }
            _ => Err(Stop::Unsup(format!("store type {t:?}"))),
        }
    }
    pub fn elems(&self, v: &V, n: u64) -> Vec<V> {
        match v { V::A(x) => x.to_vec(), _ => vec![v.clone(); n as usize] }
    }
    pub fn spill(&mut self, t: &Type, v: &V) -> R<u64> {
        let a = (self.st.sp + 63) / 64 * 64 + 64;
        self.store_ty(t, a, v)?;
        Ok(a)
    }
    pub fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let bytes = self.st.mem.read_bytes(&self.base, s, n);
        let cells = self.st.mem.cells(&self.base, s, n);
        self.clear(d, n)?;
        self.st.mem.write_bytes(&self.base, d, &bytes);
        for (ca, e, l) in cells {
            if ca >= s && ca + l as u64 <= s + n {
                self.put(d + (ca - s), e, l)?;
            } else {
                for i in 0..l {
                    let x = ca + i as u64;
                    if x >= s && x < s + n { let b = self.byte_of(e, i, l)?; self.put(d + (x - s), b, 1)?; }
                }
            }
        }
        Ok(())
    }
    fn put(&mut self, a: u64, e: Id, l: u8) -> R<()> {
        if (a % PG) + l as u64 > PG { return Err(Stop::Unsup("symbolic cell across a page".into())); }
        self.st.mem.put_cell(&self.base, a, e, l);
        Ok(())
    }
    pub fn memset(&mut self, a: u64, v: u8, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        self.clear(a, n)?;
        self.st.mem.write_bytes(&self.base, a, &vec![v; n as usize]);
        Ok(())
    }
    pub fn malloc(&mut self, n: u64, al: u64) -> u64 {
        let n = ((n.max(1) + 15) / 16) * 16;
        if al <= 16 {
            if let Some(l) = self.st.free.get_mut(&n) { if let Some(a) = l.pop() { return a; } }
        }
        let al = al.max(16);
        let a = (self.st.brk + 16 + al - 1) / al * al;
        self.st.brk = a + n;
        self.st.mem.write_bytes(&self.base, a - 16, &n.to_le_bytes());
        a
    }
    pub fn msize(&self, a: u64) -> u64 { self.st.mem.read_conc(&self.base, a - 16, 8).unwrap_or(0) as u64 }
    pub fn mfree(&mut self, a: u64) {
        if a == 0 { return; }
        let n = self.msize(a);
        self.st.free.entry(n).or_default().push(a);
    }

    // ---------- decisions ----------
    pub fn pc_roots(&mut self, goal: Id) -> Vec<Id> { let pc = self.st.pc.clone(); slice(&mut self.s, &pc, goal) }
    fn pc_roots_of(&mut self, e: Id) -> Vec<Id> { let pc = self.st.pc.clone(); let mut r = slice(&mut self.s, &pc, e); r.retain(|&x| x != e); r }
    /// can `c` hold on this path?  (None = solver gave up)
    pub fn feasible(&mut self, c: Id) -> Option<bool> { self.feasible_w(c).0 }
    fn feasible_w(&mut self, c: Id) -> (Option<bool>, Option<Rc<Wit>>) {
        if let Some(b) = self.s.as_bc(c) { return (Some(b), None); }
        let roots = self.pc_roots(c);
        let mut key = roots.clone();
        key.sort();
        if let Some(r) = self.qcache.get(&key) { return (Some(r.0), r.1.clone()); }
        if let Some(w) = self.search(c) { self.found += 1; self.qcache.insert(key, (true, Some(w.clone()))); return (Some(true), Some(w)); }
        if self.s.nonlinear(&roots) {
            let r = match crate::poly::abstraction(&self.s, &roots) {
                crate::poly::Abs::Unsat => true,
                crate::poly::Abs::Text(lin, _) => matches!(self.z3.query(&lin, &[], self.branch_ms.min(2000)), Res::Unsat),
            };
            if r { self.qcache.insert(key, (false, None)); return (Some(false), None); }
        }
        if self.verbose { let site = format!("query {}", self.where_am_i()); *self.fork_sites.entry(site).or_default() += 1; }
        let body = self.s.emit(&roots);
        let vars = self.all_vars(&roots);
        let (r, w) = match self.z3.query(&body, &vars, self.branch_ms) {
            Res::Sat(m) => (Some(true), self.wit_of(&m, c)),
            Res::Unsat => (Some(false), None),
            Res::Unknown(e) => { if e.contains("(error") { eprintln!("solver error: {e}"); } (None, None) }
        };
        if let Some(b) = r { self.qcache.insert(key, (b, w.clone())); }
        (r, w)
    }
    fn base_vals(&self) -> Vec<Val> {
        let mut v: Vec<Val> = self.st.wit.as_ref().map(|w| w.vals.clone()).unwrap_or_default();
        let k = (0..K).find(|k| self.st.mask >> k & 1 == 1).unwrap_or(0);
        for i in v.len()..self.s.vars.len() {
            let n = self.s.vars[i].node;
            v.push(if self.s.vars[i].sort == Sort::R { Val::R(self.s.sample_r(n, k)) } else { Val::I(self.s.sample_i(n, k)) });
        }
        v
    }
    fn wit_ok(&self, w: &Wit, c: Id) -> bool { self.s.holds(c, w) && self.st.pc.iter().all(|&p| self.s.holds(p, w)) }
    fn wit_of(&mut self, m: &[(u32, String)], c: Id) -> Option<Rc<Wit>> {
        let mut v = self.base_vals();
        for (i, t) in m {
            let i = *i as usize;
            match self.s.vars[i].sort { Sort::R => { if let Ok(x) = t.parse::<f64>() { v[i] = Val::R(x); } } _ => { if let Ok(x) = t.parse::<i128>() { v[i] = Val::I(x); } } }
        }
        let w = Wit::new(v);
        if self.wit_ok(&w, c) { Some(Rc::new(w)) } else { None }
    }
    /// cheap random search for an assignment satisfying the path and c
    fn search(&mut self, c: Id) -> Option<Rc<Wit>> {
        let base = self.base_vals();
        let vs = self.all_vars(&[c]);
        if vs.is_empty() { return None; }
        for t in 0..self.tries {
            let mut v = base.clone();
            for &i in &vs {
                let i = i as usize;
                let r = self.s.rnd();
                if t > 0 && vs.len() > 1 && r % 3 == 0 { continue; }
                let mode = (self.s.rnd() >> 7) % 6;
                let u = (self.s.rnd() >> 11) as f64 / (1u64 << 53) as f64;
                let n = self.s.vars[i].node;
                match v[i] {
                    Val::R(x) => {
                        let (lo, hi) = self.s.riv(n);
                        let y = match mode { 0 => lo + u * (hi - lo), 1 => lo, 2 => hi, 3 if lo > 0.0 => (lo.ln() + u * (hi.ln() - lo.ln())).exp(), 3 => x * u, 4 => x + (u - 0.5) * (hi - lo) * 0.02, _ => x + (u - 0.5) * x.abs().max(1e-6) * 1e-3 };
                        v[i] = Val::R(y.clamp(lo, hi));
                    }
                    Val::I(x) => {
                        let (lo, hi) = self.s.iiv(n);
                        let span = (hi - lo) as f64;
                        let y = match mode { 0 => lo + (u * span) as i128, 1 => lo, 2 => hi, 3 => (x as f64 * u) as i128, 4 => x + ((u - 0.5) * span * 0.02) as i128, _ => x + (u * 5.0) as i128 - 2 };
                        v[i] = Val::I(y.clamp(lo, hi));
                    }
                    _ => {}
                }
            }
            let w = Wit::new(v);
            if self.wit_ok(&w, c) { return Some(Rc::new(w)); }
        }
        None
    }
    pub fn assert_pc(&mut self, c: Id) {
        if self.s.as_bc(c).is_some() { return; }
        if self.st.known.get(&c) == Some(&true) { return; }
        self.note(c, true);
        self.st.pc.push(c);
        let m = self.s.bmask(c);
        self.st.mask &= m;
    }
    fn note(&mut self, c: Id, v: bool) {
        if self.st.known.insert(c, v) == Some(v) { return; }
        match *self.s.node(c) {
            N::And(a, b) if v => { self.note(a, true); self.note(b, true); }
            N::Or(a, b) if !v => { self.note(a, false); self.note(b, false); }
            N::Not(a) => self.note(a, !v),
            N::Lt(a, b) => { let n = self.s.le(b, a); self.st.known.insert(n, !v); if v { let e = self.s.eq(a, b); self.st.known.insert(e, false); let e = self.s.le(a, b); self.st.known.insert(e, true); let e = self.s.lt(b, a); self.st.known.insert(e, false); } }
            N::Le(a, b) => { let n = self.s.lt(b, a); self.st.known.insert(n, !v); if !v { let e = self.s.eq(a, b); self.st.known.insert(e, false); let e = self.s.le(b, a); self.st.known.insert(e, true); } }
            N::Eq(a, b) if v && self.s.sort(a) != Sort::B => { for (x, y) in [(a, b), (b, a)] { let e = self.s.le(x, y); self.st.known.insert(e, true); let e = self.s.lt(x, y); self.st.known.insert(e, false); } }
            _ => {}
        }
    }
    /// Decide a Boolean on this path, forking when both outcomes are possible.
    pub fn decide(&mut self, c: Id) -> R<bool> {
        if let Some(b) = self.s.as_bc(c) { return Ok(b); }
        if let Some(&b) = self.st.known.get(&c) { return Ok(b); }
        let nc = self.s.not(c);
        let m = self.s.bmask(c);
        let (mut wt, mut wf) = (None, None);
        if self.st.mask == 0 {
            if let Some(w) = self.st.wit.clone() { if self.s.holds(c, &w) { wt = Some(w); } else if self.s.holds(nc, &w) { wf = Some(w); } }
        }
        let mut side = |me: &mut Exec, g: Id, m: Mask, w: &mut Option<Rc<Wit>>| -> bool {
            if me.st.mask & m != 0 || w.is_some() { return true; }
            let (r, nw) = me.feasible_w(g);
            *w = nw;
            r != Some(false)
        };
        let can_t = side(self, c, m, &mut wt);
        let can_f = side(self, nc, !m & FULL, &mut wf);
        match (can_t, can_f) {
            (true, true) => {
                self.forks += 1;
                if self.verbose {
                    let site = self.where_am_i();
                    *self.fork_sites.entry(site).or_default() += 1;
                }
                let mut other = self.st.clone();
                std::mem::swap(&mut self.st, &mut other);
                self.assert_pc(nc);
                self.st.wit = wf;
                self.st.depth += 1;
                std::mem::swap(&mut self.st, &mut other);
                self.work.push(other);
                self.assert_pc(c);
                self.st.wit = wt;
                self.st.depth += 1;
                Ok(true)
            }
            (true, false) => { self.note(c, true); Ok(true) }
            (false, true) => { self.note(c, false); Ok(false) }
            (false, false) => Err(Stop::Infeasible),
        }
    }
    pub fn where_am_i(&self) -> String {
        let fr: Vec<String> = self.st.frames.iter().rev().take(5).map(|f| format!("{}@{}:{}", short(&f.f.f.name), f.bb, f.ip)).collect();
        fr.join(" < ")
    }
    /// concrete value of an integer on this path (forks over the possibilities)
    pub fn concretize(&mut self, v: &V, bits: u32) -> R<u128> {
        if let Some(c) = v.conc() { return Ok(c); }
        let e = self.int_e(v, bits)?;
        for _ in 0..400 {
            // candidate from a live sample, else from the solver
            let mut cand = None;
            for k in 0..K { if self.st.mask >> k & 1 == 1 { cand = Some(self.s.sample_i(e, k)); break; } }
            if cand.is_none() {
                if let Some(w) = self.st.wit.clone() { if let Val::I(v) = self.s.eval(e, &w) { cand = Some(v); } }
            }
            if cand.is_none() {
                cand = self.value_query(e);
            }
            let c = match cand { Some(c) => c, None => return Err(Stop::Infeasible) };
            self.concretized += 1;
            let k = self.s.ic(c);
            let q = self.s.eq(e, k);
            let had = self.st.wit.is_some();
            if self.decide(q)? { return Ok(mask(c as u128, bits)); }
            // a partial witness may say nothing about e: ask the solver the next time
            if had { self.st.wit = None; }
        }
        Err(Stop::Unsup("too many concretisations".into()))
    }
    /// a feasible value of integer e on this path
    fn value_query(&mut self, e: Id) -> Option<i128> {
        if self.verbose { *self.fork_sites.entry(format!("value_query {}", self.where_am_i())).or_default() += 1; }
        // ask the solver for one value
        let (lo, hi) = self.s.iiv(e);
        let roots = self.pc_roots_of(e);
        let (lo_, hi_) = (self.s.ic(lo), self.s.ic(hi));
        let (a, b) = (self.s.le(lo_, e), self.s.le(e, hi_));
        let mut rs = roots; rs.push(a); rs.push(b);
        if let Some((mut body, t)) = self.s.emit_with(&rs, e) {
            body.push_str(&format!("(declare-const v4000000 Int)(assert (= v4000000 {}))\n", t));
            match self.z3.query(&body, &[4000000], self.branch_ms) {
                Res::Sat(m) => { if let Some((_, t)) = m.first() { if let Ok(v) = t.parse::<i128>() { return Some(v); } } }
                Res::Unsat => return None,
                _ => {}
            }
        }
        // binary search with feasibility queries over the interval of e
        let (mut lo, mut hi) = self.s.iiv(e);
        let l0 = self.s.ic(lo);
        let g = self.s.le(l0, e);
        if self.feasible(g) == Some(false) { return None; }
        for _ in 0..140 {
            if lo >= hi { break; }
            let mid = lo + ((hi - lo) / 2);
            let m = self.s.ic(mid);
            let l = self.s.ic(lo);
            let a = self.s.le(e, m);
            let b = self.s.le(l, e);
            let c = self.s.and(a, b);
            match self.feasible(c) {
                Some(false) => lo = mid + 1,
                _ => hi = mid,
            }
        }
        let k = self.s.ic(lo);
        let q = self.s.eq(e, k);
        if self.feasible(q) == Some(false) { None } else { Some(lo) }
    }

    // ---------- checks ----------
    fn sample_inputs(&self, k: usize) -> Vec<(u32, String)> {
        self.s.vars.iter().map(|v| (v.id, match v.sort { Sort::R => format!("{:e}", self.s.sample_r(v.node, k)), _ => self.s.sample_i(v.node, k).to_string() })).collect()
    }
    fn model_inputs(&self, m: &[(u32, String)]) -> Vec<(u32, String)> {
        let base = (0..K).find(|k| self.st.mask >> k & 1 == 1).unwrap_or(0);
        let mut v = self.sample_inputs(base);
        for (i, val) in m {
            let id = self.s.vars[*i as usize].id;
            if let Some(x) = v.iter_mut().find(|x| x.0 == id) { x.1 = val.clone(); }
        }
        v
    }
    pub fn check(&mut self, c: Id, id: u32) -> R<()> {
        let alive = self.st.mask != 0;
        let st = self.checks.entry(id).or_default();
        if alive { st.witnessed = true; }
        if !st.witnessed {
            let roots = self.st.pc.clone();
            let body = self.s.emit(&roots);
            if let Res::Sat(_) = self.z3.query(&body, &[], self.branch_ms) { self.checks.get_mut(&id).unwrap().witnessed = true; }
        }
        if let Some(true) = self.s.as_bc(c) { self.checks.get_mut(&id).unwrap().simplified += 1; return Ok(()); }
        if self.st.known.get(&c) == Some(&true) { self.checks.get_mut(&id).unwrap().simplified += 1; return Ok(()); }
        let nc = self.s.not(c);
        let bad = self.st.mask & !self.s.bmask(c) & FULL;
        let r = self.solve_check(nc);
        match r {
            Res::Unsat => {
                self.checks.get_mut(&id).unwrap().proved += 1;
            }
            Res::Sat(m) => {
                let inp = self.model_inputs(&m);
                let w = self.where_am_i();
                self.push_cex(format!("check {id}"), inp, "solver", w.clone());
                self.search_cex(nc, id, &w);
                for k in 0..K { if bad >> k & 1 == 1 { let inp = self.sample_inputs(k); self.push_cex(format!("check {id}"), inp, "sample", w.clone()); } }
            }
            Res::Unknown(e) => {
                self.checks.get_mut(&id).unwrap().unknown += 1;
                let w = self.where_am_i();
                if self.verbose { eprintln!("check {id} unknown: {e}"); }
                self.search_cex(nc, id, &w);
                for k in 0..K { if bad >> k & 1 == 1 { let inp = self.sample_inputs(k); self.push_cex(format!("check {id}"), inp, "sample", w.clone()); } }
            }
        }
        // continue under the assumption that it held
        if self.s.as_bc(c) == Some(false) { return Err(Stop::Infeasible); }
        self.st.known.insert(c, true);
        Ok(())
    }
    /// concretise a (possible) violation with a numeric search
    fn search_cex(&mut self, nc: Id, id: u32, at: &str) {
        for _ in 0..4 {
            if let Some(w) = self.search(nc) {
                let inp = self.s.vars.iter().enumerate().map(|(i, v)| (v.id, match w.vals[i] { Val::R(x) => format!("{:e}", x), Val::I(x) => x.to_string(), Val::B(b) => b.to_string() })).collect();
                self.push_cex(format!("check {id}"), inp, "search", at.to_string());
            }
        }
    }
    fn push_cex(&mut self, kind: String, inputs: Vec<(u32, String)>, from: &str, trace: String) {
        if self.cex.iter().filter(|c| c.kind == kind).count() < self.maxcex { self.cex.push(Cex { kind, inputs, from: from.into(), trace }); }
    }
    fn all_vars(&mut self, roots: &[Id]) -> Vec<u32> {
        let mut vs = vec![];
        for &r in roots { let s = self.s.vars_of(r); for (i, w) in s.iter().enumerate() { for b in 0..64 { if w >> b & 1 == 1 { let v = (i * 64 + b) as u32; if !vs.contains(&v) { vs.push(v); } } } } }
        vs
    }
    /// decide PC /\ goal, with a ladder of encodings and solvers
    pub fn solve_check(&mut self, goal: Id) -> Res {
        // a violation independent of the inputs: the whole path condition decides
        let roots = if self.s.as_bc(goal) == Some(true) { let mut v = self.st.pc.clone(); v.push(goal); v } else { self.pc_roots(goal) };
        // 1. polynomial normal form + linear abstraction (only an unsat answer is used)
        let mut norm = None;
        match crate::poly::abstraction(&self.s, &roots) {
            crate::poly::Abs::Unsat => { let r = self.z3.query("(assert false)\n", &[], 5000); if let Res::Unsat = r { self.poly_proved += 1; return r; } }
            crate::poly::Abs::Text(lin, non) => {
                if let Res::Unsat = self.z3.query(&lin, &[], self.check_ms.min(6000)) { self.poly_proved += 1; return Res::Unsat; }
                norm = Some(non);
            }
        }
        let vars = self.all_vars(&roots);
        let body = self.s.emit(&roots);
        let short = self.check_ms.min(4000);
        let mut r = self.z3.query(&body, &vars, short);
        if let Res::Unknown(_) = r {
            if let Some(non) = norm {
                if let Res::Unsat = self.z3.query(&non, &[], self.check_ms) { self.poly_proved += 1; return Res::Unsat; }
            }
            if self.check_ms > short { r = self.z3.query(&body, &vars, self.check_ms); }
        }
        r
    }
    pub fn assume(&mut self, c: Id) -> R<()> {
        match self.s.as_bc(c) { Some(true) => return Ok(()), Some(false) => return Err(Stop::AssumeFail), None => {} }
        if let Some(&b) = self.st.known.get(&c) { return if b { Ok(()) } else { Err(Stop::AssumeFail) }; }
        let m = self.s.bmask(c);
        if self.st.mask & m == 0 && self.feasible(c) == Some(false) { return Err(Stop::AssumeFail); }
        self.assert_pc(c);
        Ok(())
    }

    // ---------- main loop ----------
    pub fn run(&mut self, entry: &str) {
        let fi = self.fn_index(entry);
        if let FnKind::Ext = self.fns[fi].kind { panic!("no function {entry}"); }
        let lf = self.get_func(fi);
        let regs = vec![V::U; lf.f.nregs as usize];
        self.st.frames.push(Frame { f: lf, bb: 0, ip: 0, regs, sp: STACK, ret: None, normal: None });
        loop {
            let r = self.run_path();
            self.paths += 1;
            match r {
                Stop::Done | Stop::Exit => {}
                Stop::Infeasible | Stop::AssumeFail => { self.infeasible += 1; }
                Stop::Panic(msg) => self.on_panic(msg),
                Stop::Unsup(msg) => {
                    let w = format!("{} at {}", msg, self.where_am_i());
                    if self.verbose { eprintln!("UNSUP {w}"); }
                    // only matters when the path is feasible
                    let feas = self.st.mask != 0 || { let pc = self.st.pc.clone(); let b = self.s.emit(&pc); !matches!(self.z3.query(&b, &[], self.branch_ms), Res::Unsat) };
                    if feas { if self.unsup.len() < 20 { self.unsup.push(w); } } else { self.infeasible += 1; }
                }
            }
            if self.start.elapsed().as_secs_f64() > self.max_time || self.insts > self.max_insts || self.paths > self.max_paths { if !self.work.is_empty() { self.timed_out = true; } break; }
            match self.work.pop() { Some(s) => self.st = s, None => break }
        }
    }
    fn on_panic(&mut self, msg: String) {
        let w = self.where_am_i();
        let pc = self.st.pc.clone();
        let vars = self.all_vars(&pc);
        let mut got = false;
        for k in 0..K { if self.st.mask >> k & 1 == 1 { let i = self.sample_inputs(k); self.push_cex(format!("panic {msg}"), i, "sample", w.clone()); got = true; break; } }
        let body = self.s.emit(&pc);
        match self.z3.query(&body, &vars, self.check_ms) {
            Res::Sat(m) => { let i = self.model_inputs(&m); self.push_cex(format!("panic {msg}"), i, "solver", w); }
            Res::Unsat => { self.infeasible += 1; }
            Res::Unknown(_) => { if !got { self.unsup.push(format!("panic path undecided: {msg} at {w}")); } }
        }
    }
    fn run_path(&mut self) -> Stop {
        loop {
            match self.step() {
                Ok(()) => {}
                Err(s) => return s,
            }
            if self.insts & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.max_time { self.timed_out = true; return Stop::Unsup("time limit".into()); }
        }
    }
    #[inline]
    fn op<'a>(fr: &'a Frame, o: &Opnd) -> &'a V {
        match o { Opnd::Reg(r) => &fr.regs[*r as usize], Opnd::K(k) => &fr.f.k[*k as usize] }
    }
    pub fn jump(&mut self, to: u32) {
        let fr = self.st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.bb;
        let blk = &f.f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (_, d, inc) in &blk.phis {
                let (o, _) = inc.iter().find(|(_, b)| *b == from).unwrap_or_else(|| panic!("phi without edge in {}", f.f.name));
                vals.push((*d, Self::op(fr, o).clone()));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to;
        fr.ip = 0;
    }
    pub fn set(&mut self, d: u32, v: V) {
        let fr = self.st.frames.last_mut().unwrap();
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
    fn addr(&mut self, v: &V) -> R<u64> {
        match v.conc() { Some(c) => Ok(c as u64), None => Ok(self.concretize(v, 64)? as u64) }
    }
    fn step(&mut self) -> R<()> {
        self.insts += 1;
        let fr = self.st.frames.last().unwrap();
        let lf = fr.f.clone();
        let ins = &lf.f.blocks[fr.bb as usize].insts[fr.ip as usize];
        match ins {
            Inst::Bin(op, ty, d, a, b) => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                if let (V::C(x), V::C(y), Type::Int(bits)) = (x, y, &**ty) {
                    // fast path
                    let r = match op { BinOp::Add => Some(x.wrapping_add(*y)), BinOp::Sub => Some(x.wrapping_sub(*y)), BinOp::And => Some(x & y), BinOp::Or => Some(x | y), BinOp::Xor => Some(x ^ y), _ => None };
                    if let Some(r) = r { self.set(*d, V::C(mask(r, *bits))); return Ok(()); }
                }
                let (x, y) = (x.clone(), y.clone());
                let r = self.binop(*op, ty, &x, &y)?;
                self.set(*d, r);
            }
            Inst::ICmp(p, ty, d, a, b) => { let (x, y) = (Self::op(fr, a).clone(), Self::op(fr, b).clone()); let r = self.icmp(*p, ty, &x, &y)?; self.set(*d, r); }
            Inst::FCmp(p, ty, d, a, b) => { let (x, y) = (Self::op(fr, a).clone(), Self::op(fr, b).clone()); let r = self.fcmp(*p, ty, &x, &y)?; self.set(*d, r); }
            Inst::FNeg(ty, d, a) => { let x = Self::op(fr, a).clone(); let r = self.fneg(ty, &x)?; self.set(*d, r); }
            Inst::Cast(op, from, to, d, a) => { let x = Self::op(fr, a).clone(); let r = self.cast(*op, from, to, &x)?; self.set(*d, r); }
            Inst::Load(ty, d, p) => { let p = Self::op(fr, p).clone(); let a = self.addr(&p)?; let r = self.load_ty(ty, a)?; self.set(*d, r); }
            Inst::Store(ty, v, p) => {
                let (v, p) = (Self::op(fr, v).clone(), Self::op(fr, p).clone());
                let a = self.addr(&p)?;
                self.store_ty(ty, a, &v)?;
                self.st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Gep(d, b, off, terms) => {
                let bv = Self::op(fr, b).clone();
                let mut conc = bv.conc();
                if let Some(mut c) = conc {
                    c = (c as u64).wrapping_add(*off as u64) as u128;
                    conc = Some(c);
                    for (o, bits, sc) in terms {
                        match Self::op(fr, o).conc() {
                            Some(i) => { let c = conc.unwrap(); conc = Some((c as u64).wrapping_add((sext(i, *bits) as i64).wrapping_mul(*sc) as u64) as u128); }
                            None => { conc = None; break; }
                        }
                    }
                }
                let r = match conc {
                    Some(c) => V::C(c),
                    None => {
                        let ts: Vec<(V, u32, i64)> = terms.iter().map(|(o, b, s)| (Self::op(fr, o).clone(), *b, *s)).collect();
                        let mut e = self.int_e(&bv, 64)?;
                        let k = self.s.ic(*off as i128);
                        e = self.s.add(e, k);
                        for (v, b, sc) in ts {
                            let t = self.int_e(&v, b)?;
                            let t = self.norm(t, b, true)?;
                            let k = self.s.ic(sc as i128);
                            let t = self.s.mul(t, k);
                            e = self.s.add(e, t);
                        }
                        self.lift_i(e, 64)
                    }
                };
                self.set(*d, r);
            }
            Inst::Alloca(d, sz, al, cnt) => {
                let n = match cnt { Some((t, o)) => { let v = Self::op(fr, o).clone(); let b = if let Type::Int(b) = **t { b } else { 64 }; self.concretize(&v, b)? as u64 } None => 1 };
                let al = (*al).max(16);
                let a = (self.st.sp + al - 1) / al * al;
                self.st.sp = a + sz * n + 8;
                // uninitialised: nothing symbolic of an earlier frame is to show through
                self.st.mem.clear_cells(&self.base, a, sz * n);
                self.set(*d, V::C(a as u128));
            }
            Inst::Select(ty, d, ct, c, a, b) => {
                let (c, a, b) = (Self::op(fr, c).clone(), Self::op(fr, a).clone(), Self::op(fr, b).clone());
                let r = match (&**ct, &**ty) {
                    (Type::Vec(n, _), Type::Vec(_, et)) => {
                        let (cs, x, y) = (self.elems(&c, *n), self.elems(&a, *n), self.elems(&b, *n));
                        let mut o = vec![];
                        for i in 0..*n as usize { o.push(self.select(et, &cs[i], &x[i], &y[i])?); }
                        V::agg(o)
                    }
                    (_, Type::Vec(n, et)) if c.conc().is_none() => {
                        let (x, y) = (self.elems(&a, *n), self.elems(&b, *n));
                        let mut o = vec![];
                        for i in 0..*n as usize { o.push(self.select(et, &c, &x[i], &y[i])?); }
                        V::agg(o)
                    }
                    _ => self.select(ty, &c, &a, &b)?,
                };
                self.set(*d, r);
            }
            Inst::ExtractValue(d, _, a, idx) => {
                let mut v = Self::op(fr, a).clone();
                for i in idx { v = match v { V::A(x) => x[*i as usize].clone(), _ => V::U }; }
                self.set(*d, v);
            }
            Inst::InsertValue(d, t, a, _, v, idx) => {
                let (a, v) = (Self::op(fr, a).clone(), Self::op(fr, v).clone());
                let r = insert(t, &a, &v, idx);
                self.set(*d, r);
            }
            Inst::ExtractElement(d, t, a, i) => {
                let (a, i) = (Self::op(fr, a).clone(), Self::op(fr, i).clone());
                let i = self.concretize(&i, 64)? as usize;
                let x = self.elems(&a, t.nelem());
                self.set(*d, x[i].clone());
            }
            Inst::InsertElement(d, t, a, v, i) => {
                let (a, v, i) = (Self::op(fr, a).clone(), Self::op(fr, v).clone(), Self::op(fr, i).clone());
                let i = self.concretize(&i, 64)? as usize;
                let mut x = self.elems(&a, t.nelem());
                x[i] = v;
                self.set(*d, V::agg(x));
            }
            Inst::Shuffle(d, t, a, b, m) => {
                let (a, b) = (Self::op(fr, a).clone(), Self::op(fr, b).clone());
                let n = t.nelem();
                let (x, y) = (self.elems(&a, n), self.elems(&b, n));
                let o = m.iter().map(|&i| if i < 0 { V::U } else if (i as u64) < n { x[i as usize].clone() } else { y[i as usize - n as usize].clone() }).collect();
                self.set(*d, V::agg(o));
            }
            Inst::Freeze(_, d, a) => { let v = Self::op(fr, a).clone(); self.set(*d, v); }
            Inst::AtomicRmw(op, t, d, p, v) => {
                let (p, v) = (Self::op(fr, p).clone(), Self::op(fr, v).clone());
                let a = self.addr(&p)?;
                let old = self.load_ty(t, a)?;
                let bits = match **t { Type::Int(b) => b, _ => 64 };
                let it = Type::Int(bits);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binop(BinOp::Add, &it, &old, &v)?,
                    "sub" => self.binop(BinOp::Sub, &it, &old, &v)?,
                    "and" => self.binop(BinOp::And, &it, &old, &v)?,
                    "or" => self.binop(BinOp::Or, &it, &old, &v)?,
                    "xor" => self.binop(BinOp::Xor, &it, &old, &v)?,
                    "umax" | "max" | "umin" | "min" => {
                        let pr = match op.as_str() { "umax" => Pred::Ugt, "max" => Pred::Sgt, "umin" => Pred::Ult, _ => Pred::Slt };
                        let c = self.icmp(pr, &it, &old, &v)?;
                        self.select(&it, &c, &old, &v)?
                    }
                    o => return Err(Stop::Unsup(format!("atomicrmw {o}"))),
                };
                self.store_ty(t, a, &new)?;
                self.set(*d, old);
            }
            Inst::CmpXchg(t, d, p, c, n) => {
                let (p, c, n) = (Self::op(fr, p).clone(), Self::op(fr, c).clone(), Self::op(fr, n).clone());
                let a = self.addr(&p)?;
                let old = self.load_ty(t, a)?;
                let bits = match **t { Type::Int(b) => b, _ => 64 };
                let eq = self.icmp(Pred::Eq, &Type::Int(bits), &old, &c)?;
                let eqb = match eq.conc() { Some(x) => x == 1, None => { let e = self.bool_e(&eq)?; self.decide(e)? } };
                if eqb { self.store_ty(t, a, &n)?; }
                self.set(*d, V::agg(vec![old, V::C(eqb as u128)]));
            }
            Inst::Fence => self.st.frames.last_mut().unwrap().ip += 1,
            Inst::Br(l) => self.jump(*l),
            Inst::CondBr(c, l1, l2) => {
                let c = Self::op(fr, c).clone();
                let b = match c.conc() { Some(x) => x & 1 == 1, None => { let e = self.bool_e(&c)?; self.decide(e)? } };
                self.jump(if b { *l1 } else { *l2 });
            }
            Inst::Switch(t, v, d, cs) => {
                let v = Self::op(fr, v).clone();
                let bits = match **t { Type::Int(b) => b, _ => 64 };
                let mut tgt = *d;
                match v.conc() {
                    Some(x) => { for (c, l) in cs { if let Const::Int(k) = c { if *k == x { tgt = *l; break; } } } }
                    None => {
                        for (c, l) in cs {
                            if let Const::Int(k) = c {
                                let q = self.icmp(Pred::Eq, &Type::Int(bits), &v, &V::C(*k))?;
                                let b = match q.conc() { Some(x) => x == 1, None => { let e = self.bool_e(&q)?; self.decide(e)? } };
                                if b { tgt = *l; break; }
                            }
                        }
                    }
                }
                self.jump(tgt);
            }
            Inst::Ret(_, o) => {
                let v = o.as_ref().map(|o| Self::op(fr, o).clone());
                return self.do_ret(v);
            }
            Inst::Unreachable => return Err(Stop::Unsup("reached unreachable".into())),
            Inst::Unsupported(s) => return Err(Stop::Unsup(format!("instruction {s}"))),
            Inst::Call { dst, ret, callee, args, normal, asm } => {
                if let Some(a) = asm {
                    if a.contains("cpuid") || a.contains("xgetbv") {
                        let n = ret.nelem().max(1);
                        let v = if ret.nelem() > 0 { V::agg(vec![V::C(0); n as usize]) } else { V::C(0) };
                        self.finish_call(*dst, Some(v), *normal);
                        return Ok(());
                    }
                    // black_box style barriers: pass through
                    let v = args.first().map(|(_, o)| Self::op(fr, o).clone());
                    self.finish_call(*dst, v, *normal);
                    return Ok(());
                }
                let cv = Self::op(fr, callee).clone();
                let av: Vec<V> = args.iter().map(|(_, o)| Self::op(fr, o).clone()).collect();
                let ca = self.addr(&cv)?;
                if ca < FBASE || (ca - FBASE) / 16 >= self.fns.len() as u64 { return Err(Stop::Unsup(format!("call of non-function {ca:#x}"))); }
                let fi = ((ca - FBASE) / 16) as usize;
                let stub = self.fns[fi].stub;
                let defined = matches!(self.fns[fi].kind, FnKind::Defined(_));
                if !defined || stub.is_some() {
                    let name = self.fns[fi].name.clone();
                    if let Some(res) = self.builtin(&name, stub, &av, args, ret)? {
                        self.finish_call(*dst, res, *normal);
                        return Ok(());
                    }
                    if !defined { return Err(Stop::Unsup(format!("external function {name}"))); }
                }
                *self.called.entry(fi).or_default() += 1;
                let cf = self.get_func(fi);
                if self.st.frames.len() > 3000 { return Err(Stop::Unsup("stack overflow".into())); }
                let mut regs = vec![V::U; cf.f.nregs as usize];
                let sp = self.st.sp;
                for (i, v) in av.into_iter().enumerate() {
                    if i >= cf.f.params.len() { break; }
                    if let Some(bt) = cf.f.params[i].1.clone() {
                        let n = bt.size();
                        let a = (self.st.sp + 63) / 64 * 64;
                        self.st.sp = a + n;
                        let s = v.conc().unwrap_or(0) as u64;
                        self.memcpy(a, s, n)?;
                        regs[i] = V::C(a as u128);
                    } else {
                        regs[i] = v;
                    }
                }
                self.st.frames.push(Frame { f: cf, bb: 0, ip: 0, regs, sp, ret: *dst, normal: *normal });
            }
        }
        Ok(())
    }
    pub fn finish_call(&mut self, dst: Option<u32>, v: Option<V>, normal: Option<u32>) {
        let fr = self.st.frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (dst, v) { fr.regs[d as usize] = v; }
        match normal { Some(l) => self.jump(l), None => fr.ip += 1 }
    }
    fn do_ret(&mut self, v: Option<V>) -> R<()> {
        let fr = self.st.frames.pop().unwrap();
        self.st.sp = fr.sp;
        if self.st.frames.is_empty() { return Err(Stop::Done); }
        self.finish_call(fr.ret, v, fr.normal);
        Ok(())
    }
}

fn insert(t: &Type, a: &V, v: &V, idx: &[u32]) -> V {
    if idx.is_empty() { return v.clone(); }
    let n = t.nelem();
    let mut x = match a { V::A(x) => x.to_vec(), _ => vec![V::U; n as usize] };
    let (_, et) = t.field_off(idx[0] as u64);
    x[idx[0] as usize] = insert(&et, &x[idx[0] as usize], v, &idx[1..]);
    V::agg(x)
}

pub fn short(n: &str) -> String {
    // crude demangling of v0 names: keep the identifier segments
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if let Ok(l) = n[i..j].parse::<usize>() {
                let mut st = j;
                if st < b.len() && b[st] == b'_' { st += 1; }
                if l >= 2 && st + l <= b.len() && b[st..st + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && (b[st].is_ascii_alphabetic() || b[st] == b'_') {
                    out.push(n[st..st + l].to_string());
                    i = st + l;
                    continue;
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() { return n.to_string(); }
    let k = out.len().saturating_sub(5);
    out[k..].join("::")
}
