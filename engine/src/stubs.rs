//! Models of externals, compiler intrinsics and the harness API.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::ops::{f, fb};

pub fn weak_null(n: &str) -> bool {
    matches!(n, "statx" | "gettid" | "__pthread_get_minstack" | "copy_file_range" | "getrandom" | "__dso_handle" | "posix_spawn_file_actions_addchdir_np" | "pidfd_getpid" | "pidfd_spawnp")
}
pub fn stub_for(n: &str) -> Option<Stub> {
    if n.starts_with("vp_") { return Some(Stub::Vp); }
    if n.starts_with("_R") || n.starts_with("_ZN") {
        if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("9panicking11begin_panic") { return Some(Stub::Panic); }
        if n.contains("5alloc18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("7raw_vec12handle_error") { return Some(Stub::Panic); }
        if n.contains("core6option13expect_failed") || n.contains("core6option13unwrap_failed") || n.contains("core6result13unwrap_failed") || n.contains("core4cell22panic_already") { return Some(Stub::Panic); }
        if n.starts_with("_RNvX") && n.contains("8hifitime") && n.contains("core3fmt") && n.ends_with("3fmt") && !n.contains("core3fmtR") && !n.contains("6option") { return Some(Stub::TimeFmt); }
        if n.contains("core3fmt5float") { return Some(Stub::FloatFmt); }
        if n.contains("detect_and_initialize") { return Some(Stub::Cpuid); }
        if n.contains("std7process5abort") || n.contains("std7process4exit") { return Some(Stub::Panic); }
        if n.contains("3std2io5stdio6__print") || n.contains("3std2io5stdio7__eprint") || n.contains("5stdio7__print") || n.contains("5stdio6_print") || n.contains("5stdio7_eprint") { return Some(Stub::Skip); }
    }
    None
}

impl Exec {
    fn symbolic_in(&self, a: u64, n: u64) -> bool { !self.st.mem.cells(&self.base, a, n).is_empty() }

    /// Ok(None): not handled, execute the body.  Ok(Some(v)): handled with result v.
    pub fn builtin(&mut self, name: &str, stub: Option<Stub>, a: &[V], args: &[(Ty, Opnd)], ret: &Ty) -> R<Option<Option<V>>> {
        match stub {
            Some(Stub::Panic) => return Err(Stop::Panic(self.panic_site(name))),
            Some(Stub::FloatFmt) => {
                // only when the float being formatted is symbolic: the text is not modelled
                if let Some(p) = a.first().and_then(|v| v.conc()) {
                    if p > 4096 && p < 1 << 48 && self.symbolic_in(p as u64, 8) { return Ok(Some(Some(V::C(0)))); }
                }
                for (i, v) in a.iter().enumerate() { if let (V::S(_), Type::F64) = (v, &*args[i].0) { return Ok(Some(Some(V::C(0)))); } }
                return Ok(None);
            }
            Some(Stub::TimeFmt) => {
                // an epoch or a duration: likewise
                if let Some(p) = a.first().and_then(|v| v.conc()) { if p > 4096 && p < 1 << 48 && self.symbolic_in(p as u64, 16) { return Ok(Some(Some(V::C(0)))); } }
                return Ok(None);
            }
            Some(Stub::Zero) | Some(Stub::Skip) => return Ok(Some(Some(V::C(0)))),
            Some(Stub::Cpuid) => {
                let n = ret.nelem();
                return Ok(Some(Some(if n > 0 { V::agg(vec![V::C(1 << 63); n as usize]) } else { V::C(1 << 63) })));
            }
            Some(Stub::Vp) => return self.vp(name, a).map(Some),
            None => {}
        }
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(n, a, args, ret).map(Some); }
        let c = |i: usize| -> u64 { a[i].conc().unwrap_or(0) as u64 };
        let r = match name {
            "malloc" => { let n = self.concretize(&a[0], 64)? as u64; V::C(self.malloc(n, 16) as u128) }
            "calloc" => { let n = self.concretize(&a[0], 64)? as u64 * self.concretize(&a[1], 64)? as u64; let p = self.malloc(n, 16); self.memset(p, 0, n)?; V::C(p as u128) }
            "realloc" => {
                let n = self.concretize(&a[1], 64)? as u64;
                let old = c(0);
                let p = self.malloc(n, 16);
                if old != 0 { let os = self.msize(old).min(n); self.memcpy(p, old, os)?; self.mfree(old); }
                V::C(p as u128)
            }
            "posix_memalign" => { let (al, n) = (c(1), self.concretize(&a[2], 64)? as u64); let p = self.malloc(n, al); self.store_n(c(0), 8, &V::C(p as u128))?; V::C(0) }
            "aligned_alloc" => { let p = self.malloc(c(1), c(0)); V::C(p as u128) }
            "free" => { self.mfree(c(0)); return Ok(Some(None)); }
            "bcmp" | "memcmp" => {
                let n = self.concretize(&a[2], 64)? as u64;
                self.memcmp(c(0), c(1), n, name == "bcmp")?
            }
            "memcpy" | "memmove" => { let n = self.concretize(&a[2], 64)? as u64; self.memcpy(c(0), c(1), n)?; a[0].clone() }
            "memset" => { let n = self.concretize(&a[2], 64)? as u64; self.memset(c(0), c(1) as u8, n)?; a[0].clone() }
            "strlen" => { let mut n = 0; while self.load_n(c(0) + n, 1)?.conc() != Some(0) { n += 1; } V::C(n as u128) }
            "write" => a[2].clone(),
            "writev" => V::C(0),
            "getenv" | "secure_getenv" | "isatty" => V::C(0),
            "abort" | "exit" | "_exit" => return Err(Stop::Panic(self.panic_site(name))),
            "syscall" => match c(0) {
                318 => { let (p, n) = (c(1), c(2)); self.memset(p, 0x5a, n)?; V::C(n as u128) }
                _ => V::C(0),
            },
            "getrandom" => { self.memset(c(0), 0x5a, c(1))?; V::C(c(1) as u128) }
            "clock_gettime" => { self.st.clock += 1_000_000; let t = self.st.clock; self.store_n(c(1), 8, &V::C((t / 1_000_000_000) as u128))?; self.store_n(c(1) + 8, 8, &V::C((t % 1_000_000_000) as u128))?; V::C(0) }
            "pthread_self" | "gettid" | "getpid" => V::C(4242),
            "sysconf" => V::C(if c(0) == 84 { 1 } else { 4096 }),
            "sched_getaffinity" => V::C(mask(u128::MAX, 32)),
            "sched_yield" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "sigaltstack" | "mprotect" | "munmap" | "signal" | "sigaction" | "pthread_setname_np" | "prctl" | "atexit" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "poll" | "nanosleep" | "usleep" => V::C(0),
            "pthread_getspecific" => V::C(0),
            "__errno_location" => { let p = GMUT - 4096; V::C(p as u128) }
            "open" | "open64" | "openat" | "stat64" | "fstat64" | "readlink" | "realpath" | "read" => { self.store_n(GMUT - 4096, 4, &V::C(2))?; V::C(mask(u128::MAX, 64)) }
            "close" => V::C(0),
            "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "exp" | "exp2" | "log" | "log10" | "log2" | "sinh" | "cosh" | "tanh" | "cbrt" | "expm1" | "log1p" | "asinh" | "acosh" | "atanh" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "rint" | "fabs" => self.funary(name, &a[0])?,
            "pow" | "atan2" | "hypot" | "fmod" | "fmin" | "fmax" | "copysign" => self.fbinary(name, &a[0], &a[1])?,
            "fma" => { let m = self.fbin(BinOp::FMul, &a[0], &a[1])?; self.fbin(BinOp::FAdd, &m, &a[2])? }
            "sincos" => { let s = self.funary("sin", &a[0])?; let co = self.funary("cos", &a[0])?; self.store_n(c(1), 8, &s)?; self.store_n(c(2), 8, &co)?; return Ok(Some(None)); }
            _ => return Ok(None),
        };
        Ok(Some(Some(r)))
    }
    fn panic_site(&self, name: &str) -> String {
        let fr = self.st.frames.iter().rev().map(|f| short(&f.f.f.name)).take(3).collect::<Vec<_>>().join(" < ");
        format!("{} in {}", short(name), fr)
    }
    fn memcmp(&mut self, p: u64, q: u64, n: u64, eq_only: bool) -> R<V> {
        if n == 0 { return Ok(V::C(0)); }
        if !self.symbolic_in(p, n) && !self.symbolic_in(q, n) {
            let (x, y) = (self.st.mem.read_bytes(&self.base, p, n), self.st.mem.read_bytes(&self.base, q, n));
            let r: i32 = match x.cmp(&y) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
            return Ok(V::C(r as u32 as u128));
        }
        if eq_only {
            let mut acc = self.s.bc(true);
            let mut i = 0;
            while i < n {
                let l = if n - i >= 8 { 8 } else { 1 };
                let (x, y) = (self.load_n(p + i, l)?, self.load_n(q + i, l)?);
                let e = self.icmp(Pred::Eq, &Type::Int(l as u32 * 8), &x, &y)?;
                let e = self.bool_e(&e)?;
                acc = self.s.and(acc, e);
                i += l;
            }
            let (z, o) = (self.s.ic(0), self.s.ic(1));
            let r = self.s.ite(acc, z, o);
            return Ok(self.lift_i(r, 32));
        }
        for i in 0..n {
            let (x, y) = (self.load_n(p + i, 1)?, self.load_n(q + i, 1)?);
            let e = self.icmp(Pred::Eq, &Type::Int(8), &x, &y)?;
            let e = self.bool_e(&e)?;
            if !self.decide(e)? {
                let l = self.icmp(Pred::Ult, &Type::Int(8), &x, &y)?;
                let l = self.bool_e(&l)?;
                return Ok(V::C(if self.decide(l)? { u32::MAX as u128 } else { 1 }));
            }
        }
        Ok(V::C(0))
    }

    fn vp(&mut self, name: &str, a: &[V]) -> R<Option<V>> {
        let id = |i: usize| a[i].conc().unwrap() as u32;
        match name {
            "vp_f64" => { let e = self.s.var_r(id(0), f(a[1].conc().unwrap()), f(a[2].conc().unwrap())); Ok(Some(V::S(e))) }
            "vp_i64" => { let e = self.s.var_i(id(0), a[1].conc().unwrap() as i64 as i128, a[2].conc().unwrap() as i64 as i128); Ok(Some(V::S(e))) }
            "vp_assume" => { let c = self.bool_e(&a[0])?; self.assume(c)?; Ok(None) }
            "vp_check" => { let c = self.bool_e(&a[0])?; self.check(c, id(1))?; Ok(None) }
            "vp_cover" => { if self.st.mask != 0 { *self.covers.entry(id(0)).or_default() += 1; } Ok(None) }
            "vp_fix_i64" => { let c = self.concretize(&a[0], 64)?; Ok(Some(V::C(c))) }
            "vp_decide" => { let c = self.bool_e(&a[0])?; let b = self.decide(c)?; Ok(Some(V::C(b as u128))) }
            "vp_trace" => {
                if self.verbose {
                    match &a[1] { V::S(e) => { let (l, h) = if self.s.sort(*e) == Sort::R { self.s.riv(*e) } else { (0.0, 0.0) }; eprintln!("TRACE {} = {} iv [{l}, {h}] mask {:x}", id(0), self.s.show(*e, 5), self.st.mask) } v => eprintln!("TRACE {} = {:?}", id(0), v.conc().map(f)) }
                }
                Ok(None)
            }
            "vp_end" => Err(Stop::Exit),
            _ => Err(Stop::Unsup(format!("harness call {name}"))),
        }
    }

    fn intrinsic(&mut self, n: &str, a: &[V], args: &[(Ty, Opnd)], ret: &Ty) -> R<Option<V>> {
        let head = n.split('.').next().unwrap();
        // vector: apply lanewise
        if let Type::Vec(k, et) = &**ret {
            if matches!(head, "fabs" | "sqrt" | "smax" | "smin" | "umax" | "umin" | "fma" | "fmuladd" | "minnum" | "maxnum" | "abs" | "floor" | "ceil" | "round" | "trunc" | "usub" | "uadd" | "ctpop" | "fshl" | "fshr" | "bswap" | "copysign" | "sin" | "cos" | "powi" | "minimumnum" | "maximumnum") {
                let mut o = vec![];
                for i in 0..*k as usize {
                    let ea: Vec<V> = a.iter().enumerate().map(|(j, v)| if let Type::Vec(..) = *args[j].0 { self.elems(v, *k)[i].clone() } else { v.clone() }).collect();
                    let eargs: Vec<(Ty, Opnd)> = args.iter().map(|(t, o)| (if let Type::Vec(_, e) = &**t { e.clone() } else { t.clone() }, o.clone())).collect();
                    o.push(self.intrinsic(n, &ea, &eargs, et)?.unwrap());
                }
                return Ok(Some(V::agg(o)));
            }
        }
        let bits = match &**ret { Type::Int(b) => *b, _ => 64 };
        let abits = match args.first().map(|x| &*x.0) { Some(Type::Int(b)) => *b, _ => 64 };
        let it = Type::Int(abits);
        let r = match head {
            "memcpy" | "memmove" => { let len = self.concretize(&a[2], 64)? as u64; let (d, s) = (self.concretize(&a[0], 64)?, self.concretize(&a[1], 64)?); self.memcpy(d as u64, s as u64, len)?; return Ok(None); }
            "memset" => {
                let len = self.concretize(&a[2], 64)? as u64;
                let d = self.concretize(&a[0], 64)? as u64;
                let v = self.concretize(&a[1], 8)?;
                self.memset(d, v as u8, len)?;
                return Ok(None);
            }
            "threadlocal" => a[0].clone(),
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Panic(self.panic_site("trap"))),
            "is" if n.starts_with("is.constant") => V::C(0),
            "is" if n.starts_with("is.fpclass") => self.fpclass(&a[0], a[1].conc().unwrap() as u32)?,
            "expect" => a[0].clone(),
            "launder" | "strip" | "ssa" | "ptrmask" if n.starts_with("launder") || n.starts_with("strip") || n.starts_with("ssa") => a[0].clone(),
            "sideeffect" | "donothing" | "pseudoprobe" => return Ok(None),
            "stacksave" => V::C(self.st.sp as u128),
            "stackrestore" => return Ok(None),
            "objectsize" => V::C(mask(u128::MAX, bits)),
            "load" if n.starts_with("load.relative") => return Err(Stop::Unsup("load.relative".into())),
            "smax" | "smin" | "umax" | "umin" => {
                let p = match head { "smax" => Pred::Sgt, "smin" => Pred::Slt, "umax" => Pred::Ugt, _ => Pred::Ult };
                let c = self.icmp(p, &it, &a[0], &a[1])?;
                self.select(&it, &c, &a[0], &a[1])?
            }
            "abs" => {
                let z = V::C(0);
                let c = self.icmp(Pred::Slt, &it, &a[0], &z)?;
                let m = self.binop(BinOp::Sub, &it, &z, &a[0])?;
                self.select(&it, &c, &m, &a[0])?
            }
            "ucmp" | "scmp" => {
                let (l, e) = if head == "ucmp" { (self.icmp(Pred::Ult, &it, &a[0], &a[1])?, self.icmp(Pred::Eq, &it, &a[0], &a[1])?) } else { (self.icmp(Pred::Slt, &it, &a[0], &a[1])?, self.icmp(Pred::Eq, &it, &a[0], &a[1])?) };
                let rt = Type::Int(bits);
                let x = self.select(&rt, &e, &V::C(0), &V::C(1))?;
                self.select(&rt, &l, &V::C(mask(u128::MAX, bits)), &x)?
            }
            "sadd" | "ssub" | "smul" | "uadd" | "usub" | "umul" => {
                let sg = head.starts_with('s');
                let op = match &head[1..] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
                let satu = n.contains(".sat.");
                if let (Some(x), Some(y)) = (a[0].conc(), a[1].conc()) {
                    let (res, of) = arith(op, sg, abits, x, y);
                    if satu {
                        let lim = if sg {
                            let neg = match op { BinOp::Sub | BinOp::Add => sext(x, abits) < 0, _ => (sext(x, abits) < 0) != (sext(y, abits) < 0) };
                            if neg { mask(1u128 << (abits - 1), abits) } else { mask(u128::MAX, abits - 1) }
                        } else if op == BinOp::Sub { 0 } else { mask(u128::MAX, abits) };
                        V::C(if of { lim } else { res })
                    } else { V::agg(vec![V::C(res), V::C(of as u128)]) }
                } else {
                    let x = self.int_e(&a[0], abits)?;
                    let y = self.int_e(&a[1], abits)?;
                    let x = self.norm(x, abits, sg)?;
                    let y = self.norm(y, abits, sg)?;
                    let e = match op { BinOp::Add => self.s.add(x, y), BinOp::Sub => self.s.sub(x, y), _ => self.s.mul(x, y) };
                    let (lo, hi) = if abits >= 127 { (i128::MIN, i128::MAX) } else if sg { (-(1i128 << (abits - 1)), (1i128 << (abits - 1)) - 1) } else { (0, (1i128 << abits) - 1) };
                    if abits >= 127 {
                        // unbounded model of 128-bit arithmetic; unsigned subtraction may still underflow
                        let of = if !sg { let z = self.s.ic(0); self.s.lt(e, z) } else { self.s.bc(false) };
                        if satu { let z = self.s.ic(0); let r = self.s.ite(of, z, e); self.lift_i(r, abits) } else { V::agg(vec![self.lift_i(e, abits), self.lift(of)]) }
                    } else {
                        let (l, h) = (self.s.ic(lo), self.s.ic(hi));
                        let under = self.s.lt(e, l);
                        let over = self.s.lt(h, e);
                        if satu {
                            let t = self.s.ite(over, h, e);
                            let r = self.s.ite(under, l, t);
                            self.lift_i(r, abits)
                        } else {
                            let of = self.s.or(under, over);
                            V::agg(vec![self.lift_i(e, abits), self.lift(of)])
                        }
                    }
                }
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                let x = if let V::S(e) = &a[0] { if self.s.sort(*e) == Sort::R { return Err(Stop::Unsup(format!("{head} of float bits"))); } self.concretize(&a[0], abits)? } else { self.concretize(&a[0], abits)? };
                V::C(match head {
                    "ctpop" => x.count_ones() as u128,
                    "ctlz" => (x.leading_zeros() - (128 - abits)) as u128,
                    "cttz" => x.trailing_zeros().min(abits) as u128,
                    "bswap" => x.swap_bytes() >> (128 - abits),
                    _ => x.reverse_bits() >> (128 - abits),
                })
            }
            "fshl" | "fshr" => {
                if let (Some(x), Some(y), Some(s)) = (a[0].conc(), a[1].conc(), a[2].conc()) {
                    let s = (s % abits as u128) as u32;
                    let r = if head == "fshl" { if s == 0 { x } else { (x << s) | (y >> (abits - s)) } } else if s == 0 { y } else { (x << (abits - s)) | (y >> s) };
                    V::C(mask(r, abits))
                } else {
                    let s = self.concretize(&a[2], abits)? % abits as u128;
                    if s == 0 { if head == "fshl" { a[0].clone() } else { a[1].clone() } } else {
                        let (ls, rs) = if head == "fshl" { (s, abits as u128 - s) } else { (abits as u128 - s, s) };
                        let x = self.binop(BinOp::Shl, &it, &a[0], &V::C(ls))?;
                        let y = self.binop(BinOp::LShr, &it, &a[1], &V::C(rs))?;
                        self.binop(BinOp::Or, &it, &x, &y)?
                    }
                }
            }
            "fptosi" | "fptoui" => self.fptoi_sat(&a[0], bits, head == "fptosi")?,
            "powi" => { let k = self.concretize(&a[1], 32)?; self.powi(&a[0], k as u32 as i32)? }
            "fma" | "fmuladd" => { let m = self.fbin(BinOp::FMul, &a[0], &a[1])?; self.fbin(BinOp::FAdd, &m, &a[2])? }
            "pow" | "minnum" | "maxnum" | "minimum" | "maximum" | "copysign" | "minimumnum" | "maximumnum" | "atan2" => {
                if **ret == Type::F32 { return Err(Stop::Unsup("f32 intrinsic".into())); }
                self.fbinary(head, &a[0], &a[1])?
            }
            "sqrt" | "fabs" | "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log10" | "log2" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" => {
                if **ret == Type::F32 {
                    let x = f32::from_bits(a[0].conc().ok_or_else(|| Stop::Unsup("f32".into()))? as u32);
                    let r = match head { "fabs" => x.abs(), "sqrt" => x.sqrt(), "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "round" => x.round(), _ => return Err(Stop::Unsup("f32 fn".into())) };
                    V::C(r.to_bits() as u128)
                } else { self.funary(head, &a[0])? }
            }
            "sincos" => { let s = self.funary("sin", &a[0])?; let c = self.funary("cos", &a[0])?; V::agg(vec![s, c]) }
            "vector" => {
                // reductions
                let k = args[args.len() - 1].0.nelem();
                let et = match &*args[args.len() - 1].0 { Type::Vec(_, e) => e.clone(), _ => return Err(Stop::Unsup(n.into())) };
                let x = self.elems(&a[a.len() - 1], k);
                let what = n.split('.').nth(2).unwrap_or("");
                let op = match what { "add" => BinOp::Add, "mul" => BinOp::Mul, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "fadd" => BinOp::FAdd, "fmul" => BinOp::FMul, _ => return Err(Stop::Unsup(n.into())) };
                let mut acc = if a.len() == 2 { self.binop(op, &et, &a[0], &x[0])? } else { x[0].clone() };
                for v in &x[1..] { acc = self.binop(op, &et, &acc, v)?; }
                acc
            }
            "x86" => match n {
                "x86.sse2.pause" => return Ok(None),
                "x86.sse2.pmovmskb.128" => { let x = self.elems(&a[0], 16); let mut r = 0; for (i, v) in x.iter().enumerate() { r |= (self.concretize(v, 8)? >> 7 & 1) << i; } V::C(r) }
                _ => return Err(Stop::Unsup(format!("intrinsic {n}"))),
            },
            _ => return Err(Stop::Unsup(format!("intrinsic {n}"))),
        };
        Ok(Some(r))
    }
    fn fpclass(&mut self, v: &V, m: u32) -> R<V> {
        // bits: snan 1, qnan 2, -inf 4, -norm 8, -sub 16, -0 32, +0 64, +sub 128, +norm 256, +inf 512
        if let Some(c) = v.conc() {
            let x = f(c);
            use std::num::FpCategory::*;
            let b = match (x.classify(), x.is_sign_negative()) { (Nan, _) => 3, (Infinite, true) => 4, (Infinite, false) => 512, (Normal, true) => 8, (Normal, false) => 256, (Subnormal, true) => 16, (Subnormal, false) => 128, (Zero, true) => 32, (Zero, false) => 64 };
            return Ok(V::C((m & b != 0) as u128));
        }
        let e = self.real_e(v)?;
        let z = self.s.rc(0.0);
        let neg = self.s.bc(m & 8 != 0);
        let zer = self.s.bc(m & 64 != 0);
        let pos = self.s.bc(m & 256 != 0);
        let lt = self.s.lt(e, z);
        let eq = self.s.eq(e, z);
        let t = self.s.ite(eq, zer, pos);
        let r = self.s.ite(lt, neg, t);
        Ok(self.lift(r))
    }
}

fn arith(op: BinOp, sg: bool, bits: u32, x: u128, y: u128) -> (u128, bool) {
    if sg {
        let (a, b) = (sext(x, bits), sext(y, bits));
        let r = match op { BinOp::Add => a.checked_add(b), BinOp::Sub => a.checked_sub(b), _ => a.checked_mul(b) };
        let w = match op { BinOp::Add => a.wrapping_add(b), BinOp::Sub => a.wrapping_sub(b), _ => a.wrapping_mul(b) };
        let of = match r { None => true, Some(v) => bits < 128 && sext(v as u128, bits) != v };
        (mask(w as u128, bits), of)
    } else {
        let r = match op { BinOp::Add => x.checked_add(y), BinOp::Sub => x.checked_sub(y), _ => x.checked_mul(y) };
        let w = match op { BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), _ => x.wrapping_mul(y) };
        let of = match r { None => true, Some(v) => mask(v, bits) != v };
        (mask(w, bits), of)
    }
}
#[allow(dead_code)]
fn unused() -> V { fb(0.0) }
