//! Parser for LLVM IR text (the whole-program, post-LTO module rustc emits) into a compact form.
//! Function bodies and global initialisers are parsed on demand.
use rustc_hash::FxHashMap as HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Type {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Type>),
    Vec(u64, Rc<Type>),
    Struct(Vec<Rc<Type>>, bool),
    Other,
}
pub type Ty = Rc<Type>;

impl Type {
    pub fn size(&self) -> u64 {
        match self {
            Type::Void | Type::Other => 0,
            Type::Int(b) => {
                let by = (*b as u64 + 7) / 8;
                if by <= 1 { 1 } else if by <= 2 { 2 } else if by <= 4 { 4 } else if by <= 8 { 8 } else { (by + 15) / 16 * 16 }
            }
            Type::F32 => 4,
            Type::F64 | Type::Ptr => 8,
            Type::Arr(n, t) => n * t.size(),
            Type::Vec(n, t) => match **t {
                Type::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Type::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += f.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    /// number of bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Type::Int(b) => (*b as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Type::Arr(_, t) => t.align(),
            Type::Struct(fs, packed) => {
                if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) }
            }
            Type::Vec(..) => self.size().max(1).next_power_of_two(),
            _ => self.size().max(1),
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Type::Arr(_, t) | Type::Vec(_, t) => (i * t.size(), t.clone()),
            Type::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field_off")
            }
            _ => panic!("field_off on scalar {:?}", self),
        }
    }
    pub fn nelem(&self) -> u64 {
        match self {
            Type::Arr(n, _) | Type::Vec(n, _) => *n,
            Type::Struct(fs, _) => fs.len() as u64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    F(u64), // bits of f64 or f32
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Gep(Ty, Box<(Ty, Const)>, Vec<(Ty, Const)>),
    Cast(String, Box<(Ty, Const)>, Ty),
    Bin(String, Ty, Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(u32), // index into Func::consts
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, PtrToInt, IntToPtr, Bitcast }

/// Operand after resolution by the executor (generic so the parser stays independent)
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, u32, Opnd, Opnd),
    ICmp(Pred, Ty, u32, Opnd, Opnd),
    FCmp(FPred, Ty, u32, Opnd, Opnd),
    FNeg(Ty, u32, Opnd),
    Cast(CastOp, Ty, Ty, u32, Opnd),
    Load(Ty, u32, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, u32, i64)>), // base, const offset, (index, index bits, scale)
    Alloca(u32, u64, u64, Option<(Ty, Opnd)>),
    Call { dst: Option<u32>, ret: Ty, callee: Opnd, args: Vec<(Ty, Opnd)>, normal: Option<u32>, asm: Option<String> },
    Select(Ty, u32, Ty, Opnd, Opnd, Opnd), // val type, dst, cond type, c, a, b
    ExtractValue(u32, Ty, Opnd, Vec<u32>),
    InsertValue(u32, Ty, Opnd, Ty, Opnd, Vec<u32>),
    ExtractElement(u32, Ty, Opnd, Opnd),
    InsertElement(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Ty, Opnd, Opnd, Vec<i32>),
    Freeze(Ty, u32, Opnd),
    AtomicRmw(String, Ty, u32, Opnd, Opnd),
    CmpXchg(Ty, u32, Opnd, Opnd, Opnd),
    Fence,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(Const, u32)>),
    Ret(Ty, Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(Ty, u32, Vec<(Opnd, u32)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, Option<Ty>)>, // byval type
    pub nregs: u32,
    pub consts: Vec<(Ty, Const)>,
    pub blocks: Vec<Block>,
}

#[derive(Clone, Debug)]
pub struct GlobalDef {
    pub ty: Ty,
    pub constant: bool,
    pub tls: bool,
    pub init: Option<Const>,
    pub align: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String), // identifiers, keywords, types like i32
    Local(String),
    Global(String),
    Meta(String),
    Attr,
    Num(String),
    Str(Vec<u8>),
    P(char),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}
impl<'a> Lex<'a> {
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p = st;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&unesc(&self.s[st..self.p])).into_owned();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) {
                self.p += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn next(&mut self) -> T {
        loop {
            if self.p >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'/' if self.s.get(self.p + 1) == Some(&b'*') => {
                    self.p += 2;
                    while self.p + 1 < self.s.len() && !(self.s[self.p] == b'*' && self.s[self.p + 1] == b'/') { self.p += 1; }
                    self.p += 2;
                }
                b'%' => {
                    self.p += 1;
                    return T::Local(self.name());
                }
                b'@' => {
                    self.p += 1;
                    return T::Global(self.name());
                }
                b'!' => {
                    self.p += 1;
                    if self.p < self.s.len() && (is_id(self.s[self.p])) {
                        return T::Meta(self.name());
                    }
                    return T::P('!');
                }
                b'#' => {
                    self.p += 1;
                    self.name();
                    return T::Attr;
                }
                b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                    self.p += 2;
                    let st = self.p;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                    let r = unesc(&self.s[st..self.p]);
                    self.p += 1;
                    return T::Str(r);
                }
                b'"' => {
                    let n = self.name();
                    return T::Str(n.into_bytes());
                }
                b'.' if self.s[self.p..].starts_with(b"...") => {
                    self.p += 3;
                    return T::Dots;
                }
                b'-' | b'+' | b'0'..=b'9' => {
                    let st = self.p;
                    self.p += 1;
                    while self.p < self.s.len() && (is_id(self.s[self.p]) || ((self.s[self.p] == b'+') && self.s[self.p - 1] == b'e')) {
                        self.p += 1;
                    }
                    return T::Num(String::from_utf8_lossy(&self.s[st..self.p]).into_owned());
                }
                _ if is_id(c) => {
                    let n = self.name();
                    return T::Word(n);
                }
                _ => {
                    self.p += 1;
                    return T::P(c as char);
                }
            }
        }
    }
    fn peek(&mut self) -> T {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn expect(&mut self, c: char) {
        let p = self.p;
        let t = self.next();
        if t != T::P(c) {
            let e = (p + 200).min(self.s.len());
            panic!("expected {:?} got {:?} at: {}", c, t, String::from_utf8_lossy(&self.s[p.saturating_sub(120)..e]));
        }
    }
    fn accept(&mut self, c: char) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn accept_word(&mut self, w: &str) -> bool {
        if let T::Word(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn skip_line(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                T::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub func_pos: HashMap<String, (usize, usize)>, // define line start, end
    pub declared: HashMap<String, ()>,
    pub global_pos: HashMap<String, (usize, usize)>,
    pub alias: HashMap<String, String>,
    pub named_types: HashMap<String, (usize, usize)>,
}

const PARAM_SKIP_PAREN: &[&str] = &["captures", "dereferenceable", "dereferenceable_or_null", "range", "initializes", "memory", "allocsize", "nofpclass", "vscale_range", "elementtype", "dead_on_return", "sret", "align", "inalloca", "preallocated", "byref", "allockind"];

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
        let mut m = Module { text: Rc::new(Vec::new()), func_pos: Default::default(), declared: Default::default(), global_pos: Default::default(), alias: Default::default(), named_types: Default::default() };
        let mut i = 0;
        let n = text.len();
        let eol = |i: usize| -> usize { memchr(&text, b'\n', i).unwrap_or(n) };
        while i < n {
            let e = eol(i);
            let c = text[i];
            if c == b'd' && text[i..].starts_with(b"define ") {
                // find end "\n}\n"
                let mut j = e + 1;
                loop {
                    let e2 = eol(j);
                    if text[j] == b'}' && e2 == j + 1 {
                        break;
                    }
                    j = e2 + 1;
                }
                let at = (i..e).find(|&k| text[k] == b'@').unwrap();
                let mut lx = Lex { s: &text, p: at + 1 };
                let name = lx.name();
                m.func_pos.insert(name, (i, j + 1));
                i = j + 2;
                continue;
            } else if c == b'd' && text[i..].starts_with(b"declare ") {
                let at = (i..e).find(|&k| text[k] == b'@').unwrap();
                let mut lx = Lex { s: &text, p: at + 1 };
                let name = lx.name();
                m.declared.insert(name, ());
            } else if c == b'@' {
                let mut lx = Lex { s: &text, p: i + 1 };
                let name = lx.name();
                let line = &text[lx.p..e];
                let head = &line[..line.len().min(200)];
                if find(head, b" alias ").map_or(false, |k| find(head, b"global ").map_or(true, |g| k < g) && find(head, b"constant ").map_or(true, |g| k < g)) {
                    // @x = ... alias ty, ptr @y
                    let k = line.iter().rposition(|&c| c == b'@').unwrap();
                    let mut l2 = Lex { s: line, p: k + 1 };
                    let tgt = l2.name();
                    m.alias.insert(name, tgt);
                } else {
                    m.global_pos.insert(name, (i, e));
                }
            } else if c == b'%' {
                let mut lx = Lex { s: &text, p: i + 1 };
                let name = lx.name();
                m.named_types.insert(name, (lx.p, e));
            }
            i = e + 1;
        }
        m.text = Rc::new(text);
        m
    }

    fn ty(&self, lx: &mut Lex) -> Ty {
        let base = match lx.next() {
            T::Word(w) => match w.as_str() {
                "void" => Type::Void,
                "double" => Type::F64,
                "float" => Type::F32,
                "ptr" => {
                    if lx.accept_word("addrspace") {
                        lx.skip_parens();
                    }
                    Type::Ptr
                }
                "label" | "metadata" | "token" | "half" | "bfloat" | "x86_fp80" | "fp128" => Type::Other,
                w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Type::Int(w[1..].parse().unwrap()),
                w => panic!("type word {w} at {}", String::from_utf8_lossy(&lx.s[lx.p.saturating_sub(100)..(lx.p + 100).min(lx.s.len())])),
            },
            T::P('[') => {
                let n = match lx.next() { T::Num(n) => n.parse().unwrap(), t => panic!("arr {t:?}") };
                lx.next(); // x
                let t = self.ty(lx);
                lx.expect(']');
                Type::Arr(n, t)
            }
            T::P('<') => {
                if lx.peek() == T::P('{') {
                    lx.next();
                    let fs = self.fields(lx);
                    lx.expect('>');
                    Type::Struct(fs, true)
                } else {
                    let n = match lx.next() { T::Num(n) => n.parse().unwrap(), t => panic!("vec {t:?}") };
                    lx.next();
                    let t = self.ty(lx);
                    lx.expect('>');
                    Type::Vec(n, t)
                }
            }
            T::P('{') => Type::Struct(self.fields(lx), false),
            T::Local(n) => {
                let &(p, e) = self.named_types.get(&n).unwrap_or_else(|| panic!("named type {n}"));
                let text = self.text.clone();
                let mut l2 = Lex { s: &text[..e], p };
                l2.next(); // =
                l2.next(); // type
                if l2.accept_word("opaque") { Type::Other } else { (*self.ty(&mut l2)).clone() }
            }
            t => panic!("type {t:?} at {}", String::from_utf8_lossy(&lx.s[lx.p.saturating_sub(100)..(lx.p + 100).min(lx.s.len())])),
        };
        Rc::new(base)
    }
    fn fields(&self, lx: &mut Lex) -> Vec<Ty> {
        let mut fs = vec![];
        if lx.accept('}') {
            return fs;
        }
        loop {
            fs.push(self.ty(lx));
            if !lx.accept(',') {
                lx.expect('}');
                return fs;
            }
        }
    }

    fn konst(&self, lx: &mut Lex, ty: &Ty) -> Const {
        match lx.next() {
            T::Num(n) => parse_num(&n, ty),
            T::Word(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" => Const::Null,
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" | "none" => Const::Zero,
                "splat" => {
                    lx.expect('(');
                    let t = self.ty(lx);
                    let c = self.konst(lx, &t);
                    lx.expect(')');
                    let n = ty.nelem();
                    Const::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
                }
                "getelementptr" => {
                    loop {
                        match lx.peek() {
                            T::Word(_) => {
                                let w = lx.next();
                                if let T::Word(w) = w {
                                    if w == "inrange" {
                                        lx.skip_parens();
                                    }
                                }
                            }
                            _ => break,
                        }
                    }
                    lx.expect('(');
                    let t = self.ty(lx);
                    let mut v = vec![];
                    while lx.accept(',') {
                        let t = self.ty(lx);
                        let c = self.konst(lx, &t);
                        v.push((t, c));
                    }
                    lx.expect(')');
                    let b = v.remove(0);
                    Const::Gep(t, Box::new(b), v)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" | "addrspacecast" => {
                    lx.expect('(');
                    let t = self.ty(lx);
                    let c = self.konst(lx, &t);
                    lx.next(); // to
                    let t2 = self.ty(lx);
                    lx.expect(')');
                    Const::Cast(w, Box::new((t, c)), t2)
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    while let T::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect('(');
                    let t = self.ty(lx);
                    let a = self.konst(lx, &t);
                    lx.expect(',');
                    let t2 = self.ty(lx);
                    let b = self.konst(lx, &t2);
                    lx.expect(')');
                    Const::Bin(w, t, Box::new(a), Box::new(b))
                }
                w if w.starts_with("f0x") => parse_num(&w[1..], ty),
                w if w == "inf" || w == "nan" || w == "qnan" || w == "pinf" || w == "ninf" => {
                    let v = match w { "inf" | "pinf" => f64::INFINITY, "ninf" => f64::NEG_INFINITY, _ => f64::NAN };
                    if **ty == Type::F32 { Const::F((v as f32).to_bits() as u64) } else { Const::F(v.to_bits()) }
                }
                w => panic!("const word {w} at {}", String::from_utf8_lossy(&lx.s[lx.p.saturating_sub(100)..(lx.p + 60).min(lx.s.len())])),
            },
            T::Global(g) => Const::Global(g),
            T::Str(b) => Const::Bytes(b),
            T::P('[') => Const::Agg(self.clist(lx, ']')),
            T::P('{') => Const::Agg(self.clist(lx, '}')),
            T::P('<') => {
                if lx.accept('{') {
                    let r = self.clist(lx, '}');
                    lx.expect('>');
                    Const::Agg(r)
                } else {
                    Const::Agg(self.clist(lx, '>'))
                }
            }
            t => panic!("const {t:?} at {}", String::from_utf8_lossy(&lx.s[lx.p.saturating_sub(100)..(lx.p + 60).min(lx.s.len())])),
        }
    }
    fn clist(&self, lx: &mut Lex, end: char) -> Vec<(Ty, Const)> {
        let mut v = vec![];
        if lx.accept(end) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            let c = self.konst(lx, &t);
            v.push((t, c));
            if !lx.accept(',') {
                lx.expect(end);
                return v;
            }
        }
    }

    pub fn global(&self, name: &str) -> Option<GlobalDef> {
        let &(s, e) = self.global_pos.get(name)?;
        let text = self.text.clone();
        let mut lx = Lex { s: &text[..e], p: s + 1 };
        lx.name();
        lx.expect('=');
        let mut tls = false;
        let mut external = false;
        let constant;
        loop {
            match lx.next() {
                T::Word(w) => match w.as_str() {
                    "global" => { constant = false; break; }
                    "constant" => { constant = true; break; }
                    "thread_local" => {
                        tls = true;
                        if lx.peek() == T::P('(') { lx.skip_parens(); }
                    }
                    "external" | "extern_weak" => external = true,
                    "addrspace" => lx.skip_parens(),
                    _ => {}
                },
                t => panic!("global {name}: {t:?}"),
            }
        }
        let ty = self.ty(&mut lx);
        let init = if external { None } else { Some(self.konst(&mut lx, &ty)) };
        let mut align = ty.align();
        while lx.accept(',') {
            if lx.accept_word("align") {
                if let T::Num(n) = lx.next() { align = n.parse().unwrap(); }
            } else {
                break;
            }
        }
        Some(GlobalDef { ty, constant, tls, init, align })
    }

    fn skip_attrs(&self, lx: &mut Lex) -> Option<Ty> {
        let mut byval = None;
        loop {
            let p = lx.p;
            match lx.next() {
                T::Word(w) => {
                    if w == "byval" {
                        lx.expect('(');
                        byval = Some(self.ty(lx));
                        lx.expect(')');
                    } else if w == "align" {
                        if lx.peek() == T::P('(') { lx.skip_parens(); } else { lx.next(); }
                    } else if PARAM_SKIP_PAREN.contains(&w.as_str()) {
                        if lx.peek() == T::P('(') { lx.skip_parens(); }
                    } else if is_attr_word(&w) {
                    } else {
                        lx.p = p;
                        return byval;
                    }
                }
                T::Str(_) => {
                    if lx.accept('=') { lx.next(); }
                }
                _ => {
                    lx.p = p;
                    return byval;
                }
            }
        }
    }

    pub fn func(&self, name: &str) -> Option<Func> {
        let &(s, e) = self.func_pos.get(name)?;
        let text = self.text.clone();
        let mut lx = Lex { s: &text[..e], p: s };
        // header: find the '@', the return type is irrelevant here
        loop {
            if let T::Global(_) = lx.next() { break; }
        }
        lx.expect('(');
        let mut fp = FP { regs: Default::default(), blocks: Default::default(), consts: vec![] };
        let mut params = vec![];
        if !lx.accept(')') {
            loop {
                if lx.peek() == T::Dots { lx.next(); lx.expect(')'); break; }
                let t = self.ty(&mut lx);
                let bv = self.skip_attrs(&mut lx);
                let nm = match lx.peek() { T::Local(n) => { lx.next(); n } _ => format!("{}", params.len()) };
                fp.reg(&nm);
                params.push((t, bv));
                if !lx.accept(',') { lx.expect(')'); break; }
            }
        }
        let np = params.len();
        // to body
        while lx.s[lx.p] != b'\n' { lx.p += 1; }
        lx.p += 1;
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            // block label?
            while lx.p < lx.s.len() && (lx.s[lx.p] == b'\n' || lx.s[lx.p] == b' ' ) { lx.p += 1; }
            if lx.p >= lx.s.len() || lx.s[lx.p] == b'}' { break; }
            if lx.s[lx.p] == b';' || lx.s[lx.p] == b'#' { lx.skip_line(); continue; }
            let ls = lx.p;
            // label if at column 0 (previous char newline)
            if lx.s[ls - 1] == b'\n' {
                let n = lx.name();
                if lx.s[lx.p] != b':' { panic!("label? {} in {}", n, name); }
                lx.skip_line();
                if let Some(b) = cur.take() { blocks.push(b); }
                let id = fp.block(&n);
                cur = Some((id, Block::default()));
                continue;
            }
            if cur.is_none() {
                // unnamed entry block gets number = number of params
                let id = fp.block(&format!("{}", np));
                cur = Some((id, Block::default()));
            }
            let b = &mut cur.as_mut().unwrap().1;
            let st = lx.p;
            self.inst(&mut lx, &mut fp, b);
            let _ = st;
            // finish statement line
            lx.skip_line();
        }
        if let Some(b) = cur.take() { blocks.push(b); }
        let nb = fp.blocks.len();
        let mut out: Vec<Block> = (0..nb).map(|_| Block::default()).collect();
        for (id, b) in blocks { out[id as usize] = b; }
        Some(Func { name: name.to_string(), params, nregs: fp.regs.len() as u32, consts: fp.consts, blocks: out })
    }

    fn opnd(&self, lx: &mut Lex, fp: &mut FP, ty: &Ty) -> Opnd {
        match lx.peek() {
            T::Local(n) => {
                lx.next();
                Opnd::Reg(fp.reg(&n))
            }
            _ => { let c = self.konst(lx, ty); fp.konst(ty, c) }
        }
    }
    fn tyop(&self, lx: &mut Lex, fp: &mut FP) -> (Ty, Opnd) {
        let t = self.ty(lx);
        let o = self.opnd(lx, fp, &t);
        (t, o)
    }
    fn label(&self, lx: &mut Lex, fp: &mut FP) -> u32 {
        match lx.next() {
            T::Word(w) if w == "label" => {}
            t => panic!("label {t:?}"),
        }
        match lx.next() {
            T::Local(n) => fp.block(&n),
            t => panic!("label {t:?}"),
        }
    }

    fn inst(&self, lx: &mut Lex, fp: &mut FP, b: &mut Block) {
        let mut dst = None;
        let start = lx.p;
        if let T::Local(n) = lx.peek() {
            lx.next();
            lx.expect('=');
            dst = Some(fp.reg(&n));
        }
        let mut op = match lx.next() { T::Word(w) => w, t => panic!("inst {t:?}") };
        while op == "tail" || op == "musttail" || op == "notail" {
            op = match lx.next() { T::Word(w) => w, t => panic!("inst {t:?}") };
        }
        let flags = |lx: &mut Lex| loop {
            match lx.peek() {
                T::Word(w) if matches!(w.as_str(), "nsw" | "nuw" | "exact" | "disjoint" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "nneg" | "inbounds" | "nusw" | "samesign" | "volatile" | "atomic" | "weak") => {
                    lx.next();
                }
                T::Word(w) if w == "inrange" => {
                    lx.next();
                    lx.skip_parens();
                }
                _ => break,
            }
        };
        use BinOp::*;
        let binop = match op.as_str() {
            "add" => Some(Add), "sub" => Some(Sub), "mul" => Some(Mul), "udiv" => Some(UDiv), "sdiv" => Some(SDiv), "urem" => Some(URem), "srem" => Some(SRem),
            "shl" => Some(Shl), "lshr" => Some(LShr), "ashr" => Some(AShr), "and" => Some(And), "or" => Some(Or), "xor" => Some(Xor),
            "fadd" => Some(FAdd), "fsub" => Some(FSub), "fmul" => Some(FMul), "fdiv" => Some(FDiv), "frem" => Some(FRem),
            _ => None,
        };
        if let Some(bo) = binop {
            flags(lx);
            let (t, a) = self.tyop(lx, fp);
            lx.expect(',');
            let c = self.opnd(lx, fp, &t);
            b.insts.push(Inst::Bin(bo, t, dst.unwrap(), a, c));
            return;
        }
        let castop = match op.as_str() {
            "trunc" => Some(CastOp::Trunc), "zext" => Some(CastOp::ZExt), "sext" => Some(CastOp::SExt), "fptoui" => Some(CastOp::FPToUI), "fptosi" => Some(CastOp::FPToSI),
            "uitofp" => Some(CastOp::UIToFP), "sitofp" => Some(CastOp::SIToFP), "fptrunc" => Some(CastOp::FPTrunc), "fpext" => Some(CastOp::FPExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt), "inttoptr" => Some(CastOp::IntToPtr), "bitcast" | "addrspacecast" => Some(CastOp::Bitcast),
            _ => None,
        };
        if let Some(co) = castop {
            flags(lx);
            let (t, a) = self.tyop(lx, fp);
            lx.next(); // to
            let t2 = self.ty(lx);
            b.insts.push(Inst::Cast(co, t, t2, dst.unwrap(), a));
            return;
        }
        match op.as_str() {
            "icmp" => {
                flags(lx);
                let p = match lx.next() { T::Word(w) => w, t => panic!("{t:?}") };
                let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, p => panic!("{p}") };
                flags(lx);
                let (t, a) = self.tyop(lx, fp);
                lx.expect(',');
                let c = self.opnd(lx, fp, &t);
                b.insts.push(Inst::ICmp(p, t, dst.unwrap(), a, c));
            }
            "fcmp" => {
                flags(lx);
                let p = match lx.next() { T::Word(w) => w, t => panic!("{t:?}") };
                use FPred as F;
                let p = match p.as_str() { "false" => F::False, "oeq" => F::Oeq, "ogt" => F::Ogt, "oge" => F::Oge, "olt" => F::Olt, "ole" => F::Ole, "one" => F::One, "ord" => F::Ord, "ueq" => F::Ueq, "ugt" => F::Ugt, "uge" => F::Uge, "ult" => F::Ult, "ule" => F::Ule, "une" => F::Une, "uno" => F::Uno, "true" => F::True, p => panic!("{p}") };
                let (t, a) = self.tyop(lx, fp);
                lx.expect(',');
                let c = self.opnd(lx, fp, &t);
                b.insts.push(Inst::FCmp(p, t, dst.unwrap(), a, c));
            }
            "fneg" => {
                flags(lx);
                let (t, a) = self.tyop(lx, fp);
                b.insts.push(Inst::FNeg(t, dst.unwrap(), a));
            }
            "freeze" => {
                let (t, a) = self.tyop(lx, fp);
                b.insts.push(Inst::Freeze(t, dst.unwrap(), a));
            }
            "load" => {
                flags(lx);
                let t = self.ty(lx);
                lx.expect(',');
                let (_, p) = self.tyop(lx, fp);
                b.insts.push(Inst::Load(t, dst.unwrap(), p));
            }
            "store" => {
                flags(lx);
                let (t, v) = self.tyop(lx, fp);
                lx.expect(',');
                let (_, p) = self.tyop(lx, fp);
                b.insts.push(Inst::Store(t, v, p));
            }
            "getelementptr" => {
                flags(lx);
                let mut t = self.ty(lx);
                lx.expect(',');
                let (_, base) = self.tyop(lx, fp);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut first = true;
                while lx.accept(',') {
                    if let T::Meta(_) = lx.peek() { break; }
                    let (it, io) = self.tyop(lx, fp);
                    let bits = if let Type::Int(b) = *it { b } else { 64 };
                    let cst = match &io { Opnd::K(k) => match &fp.consts[*k as usize].1 { Const::Int(v) => Some(sext(*v, bits) as i64), Const::Zero => Some(0), _ => None }, _ => None };
                    if first {
                        first = false;
                        match cst {
                            Some(c) => off += c * t.size() as i64,
                            None => terms.push((io, bits, t.size() as i64)),
                        }
                    } else {
                        match &*t.clone() {
                            Type::Struct(..) => {
                                let (o, nt) = t.field_off(cst.unwrap() as u64);
                                off += o as i64;
                                t = nt;
                            }
                            Type::Arr(_, e) | Type::Vec(_, e) => {
                                match cst {
                                    Some(c) => off += c * e.size() as i64,
                                    None => terms.push((io, bits, e.size() as i64)),
                                }
                                t = e.clone();
                            }
                            x => panic!("gep into {x:?}"),
                        }
                    }
                }
                b.insts.push(Inst::Gep(dst.unwrap(), base, off, terms));
            }
            "alloca" => {
                flags(lx);
                let t = self.ty(lx);
                let mut cnt = None;
                let mut al = t.align();
                while lx.accept(',') {
                    match lx.peek() {
                        T::Word(w) if w == "align" => {
                            lx.next();
                            if let T::Num(n) = lx.next() { al = n.parse().unwrap(); }
                        }
                        T::Meta(_) => break,
                        _ => cnt = Some(self.tyop(lx, fp)),
                    }
                }
                b.insts.push(Inst::Alloca(dst.unwrap(), t.size(), al, cnt));
            }
            "phi" => {
                flags(lx);
                let t = self.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.expect('[');
                    let o = self.opnd(lx, fp, &t);
                    lx.expect(',');
                    let l = match lx.next() { T::Local(n) => fp.block(&n), t => panic!("{t:?}") };
                    lx.expect(']');
                    inc.push((o, l));
                    let p = lx.p;
                    if lx.accept(',') {
                        if lx.peek() != T::P('[') { lx.p = p; break; }
                    } else {
                        break;
                    }
                }
                b.phis.push((t, dst.unwrap(), inc));
            }
            "select" => {
                flags(lx);
                let (ct, c) = self.tyop(lx, fp);
                lx.expect(',');
                let (t, a) = self.tyop(lx, fp);
                lx.expect(',');
                let (_, d) = self.tyop(lx, fp);
                b.insts.push(Inst::Select(t, dst.unwrap(), ct, c, a, d));
            }
            "extractvalue" => {
                let (t, a) = self.tyop(lx, fp);
                let idx = self.idxs(lx);
                b.insts.push(Inst::ExtractValue(dst.unwrap(), t, a, idx));
            }
            "insertvalue" => {
                let (t, a) = self.tyop(lx, fp);
                lx.expect(',');
                let (t2, v) = self.tyop(lx, fp);
                let idx = self.idxs(lx);
                b.insts.push(Inst::InsertValue(dst.unwrap(), t, a, t2, v, idx));
            }
            "extractelement" => {
                let (t, a) = self.tyop(lx, fp);
                lx.expect(',');
                let (_, i) = self.tyop(lx, fp);
                b.insts.push(Inst::ExtractElement(dst.unwrap(), t, a, i));
            }
            "insertelement" => {
                let (t, a) = self.tyop(lx, fp);
                lx.expect(',');
                let (_, v) = self.tyop(lx, fp);
                lx.expect(',');
                let (_, i) = self.tyop(lx, fp);
                b.insts.push(Inst::InsertElement(dst.unwrap(), t, a, v, i));
            }
            "shufflevector" => {
                let (t, a) = self.tyop(lx, fp);
                lx.expect(',');
                let (_, c) = self.tyop(lx, fp);
                lx.expect(',');
                let mt = self.ty(lx);
                let mk = self.konst(lx, &mt);
                let n = mt.nelem();
                let mask: Vec<i32> = match mk {
                    Const::Agg(v) => v.iter().map(|(_, c)| match c { Const::Int(i) => *i as i32, _ => -1 }).collect(),
                    Const::Zero => vec![0; n as usize],
                    _ => vec![-1; n as usize],
                };
                b.insts.push(Inst::Shuffle(dst.unwrap(), t, a, c, mask));
            }
            "atomicrmw" => {
                flags(lx);
                let o = match lx.next() { T::Word(w) => w, t => panic!("{t:?}") };
                let (_, p) = self.tyop(lx, fp);
                lx.expect(',');
                let (t, v) = self.tyop(lx, fp);
                b.insts.push(Inst::AtomicRmw(o, t, dst.unwrap(), p, v));
            }
            "cmpxchg" => {
                flags(lx);
                let (_, p) = self.tyop(lx, fp);
                lx.expect(',');
                let (t, c) = self.tyop(lx, fp);
                lx.expect(',');
                let (_, n) = self.tyop(lx, fp);
                b.insts.push(Inst::CmpXchg(t, dst.unwrap(), p, c, n));
            }
            "fence" => b.insts.push(Inst::Fence),
            "br" => {
                if let T::Word(w) = lx.peek() {
                    if w == "label" {
                        let l = self.label(lx, fp);
                        b.insts.push(Inst::Br(l));
                        return;
                    }
                }
                let (_, c) = self.tyop(lx, fp);
                lx.expect(',');
                let l1 = self.label(lx, fp);
                lx.expect(',');
                let l2 = self.label(lx, fp);
                b.insts.push(Inst::CondBr(c, l1, l2));
            }
            "switch" => {
                let (t, v) = self.tyop(lx, fp);
                lx.expect(',');
                let d = self.label(lx, fp);
                lx.expect('[');
                let mut cs = vec![];
                while !lx.accept(']') {
                    let ct = self.ty(lx);
                    let c = self.konst(lx, &ct);
                    lx.expect(',');
                    let l = self.label(lx, fp);
                    cs.push((c, l));
                }
                b.insts.push(Inst::Switch(t, v, d, cs));
            }
            "ret" => {
                let t = self.ty(lx);
                if *t == Type::Void {
                    b.insts.push(Inst::Ret(t, None));
                } else {
                    let o = self.opnd(lx, fp, &t);
                    b.insts.push(Inst::Ret(t, Some(o)));
                }
            }
            "unreachable" => b.insts.push(Inst::Unreachable),
            "resume" | "landingpad" | "cleanupret" | "catchret" => {
                // exceptional control flow: never reached (panic = abort); swallow multi-line landingpads
                b.insts.push(Inst::Unsupported(op.clone()));
                if op == "landingpad" {
                    lx.skip_line();
                    loop {
                        let p = lx.p;
                        match lx.peek() {
                            T::Word(w) if w == "cleanup" || w == "catch" || w == "filter" => { lx.next(); lx.skip_line(); }
                            _ => { lx.p = p; break; }
                        }
                    }
                    // step back before the newline so that skip_line is harmless
                    lx.p -= 1;
                    while lx.s[lx.p] != b'\n' { lx.p -= 1; }
                }
            }
            "call" | "invoke" => {
                flags(lx);
                // calling convention & ret attrs
                loop {
                    match lx.peek() {
                        T::Word(w) if w.ends_with("cc") => {
                            lx.next();
                            if w == "cc" { lx.next(); }
                        }
                        _ => break,
                    }
                }
                self.skip_attrs(lx);
                flags(lx);
                let ret = self.ty(lx);
                // function type for varargs: ret (args...) callee
                if lx.peek() == T::P('(') { lx.skip_parens(); }
                let mut asm = None;
                let callee = match lx.peek() {
                    T::Word(w) if w == "asm" => {
                        let mut txt = String::new();
                        while lx.peek() != T::P('(') {
                            if let T::Str(s) = lx.next() { txt.push_str(&String::from_utf8_lossy(&s)); txt.push('|'); }
                        }
                        asm = Some(txt);
                        fp.konst(&Rc::new(Type::Ptr), Const::Null)
                    }
                    _ => self.opnd(lx, fp, &Rc::new(Type::Ptr)),
                };
                lx.expect('(');
                let mut args = vec![];
                if !lx.accept(')') {
                    loop {
                        let t = self.ty(lx);
                        if *t == Type::Other {
                            // metadata argument
                            let mut d = 0;
                            loop {
                                match lx.peek() {
                                    T::P('(') => { d += 1; lx.next(); }
                                    T::P(')') if d == 0 => break,
                                    T::P(')') => { d -= 1; lx.next(); }
                                    T::P(',') if d == 0 => break,
                                    _ => { lx.next(); }
                                }
                            }
                        } else {
                            self.skip_attrs(lx);
                            let o = self.opnd(lx, fp, &t);
                            args.push((t, o));
                        }
                        if !lx.accept(',') { lx.expect(')'); break; }
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    loop {
                        match lx.peek() {
                            T::Word(w) if w == "to" => { lx.next(); break; }
                            T::Eof => panic!("invoke"),
                            _ => { lx.next(); }
                        }
                    }
                    normal = Some(self.label(lx, fp));
                    lx.next(); // unwind
                    self.label(lx, fp);
                }
                if let Some(Const::Global(g)) = (match &callee { Opnd::K(k) => Some(&fp.consts[*k as usize].1), _ => None }) {
                    if asm.is_none() && (g.starts_with("llvm.lifetime") || g.starts_with("llvm.experimental.noalias") || g.starts_with("llvm.dbg") || g == "llvm.assume" || g.starts_with("llvm.invariant") || g.starts_with("llvm.prefetch")) {
                        return;
                    }
                }
                b.insts.push(Inst::Call { dst, ret, callee, args, normal, asm });
            }
            _ => {
                let e = (start + 120).min(lx.s.len());
                b.insts.push(Inst::Unsupported(String::from_utf8_lossy(&lx.s[start..e]).into_owned()));
            }
        }
    }
    fn idxs(&self, lx: &mut Lex) -> Vec<u32> {
        let mut v = vec![];
        loop {
            let p = lx.p;
            if !lx.accept(',') { break; }
            match lx.next() {
                T::Num(n) => v.push(n.parse().unwrap()),
                _ => { lx.p = p; break; }
            }
        }
        v
    }
}

struct FP {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    consts: Vec<(Ty, Const)>,
}
impl FP {
    fn konst(&mut self, t: &Ty, c: Const) -> Opnd {
        self.consts.push((t.clone(), c));
        Opnd::K(self.consts.len() as u32 - 1)
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let i = self.regs.len() as u32;
        self.regs.insert(n.to_string(), i);
        i
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) { return *r; }
        let i = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), i);
        i
    }
}

fn is_attr_word(w: &str) -> bool {
    matches!(w, "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "inreg" | "returned" | "nest" | "swiftself" | "swifterror" | "immarg" | "nocapture" | "writable" | "dead_on_unwind" | "allocptr" | "allocalign" | "noext" | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "internal" | "private" | "hidden" | "noreturn" | "nounwind")
}

pub fn sext(v: u128, bits: u32) -> i128 {
    if bits >= 128 { return v as i128; }
    let s = 128 - bits;
    ((v << s) as i128) >> s
}

fn parse_num(n: &str, ty: &Ty) -> Const {
    match **ty {
        Type::F64 | Type::F32 => {
            let f = if n.ends_with("nan") { f64::NAN } else if let Some(h) = n.strip_prefix("f0x") {
                if **ty == Type::F32 { return Const::F(u64::from_str_radix(h, 16).unwrap()); }
                f64::from_bits(u64::from_str_radix(h, 16).unwrap())
            } else if let Some(h) = n.strip_prefix("0x") {
                let h = h.trim_start_matches(|c: char| matches!(c, 'H' | 'K' | 'L' | 'M' | 'R'));
                f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("hex float {n}")))
            } else {
                n.parse::<f64>().unwrap_or_else(|_| panic!("float {n}"))
            };
            if **ty == Type::F32 { Const::F((f as f32).to_bits() as u64) } else { Const::F(f.to_bits()) }
        }
        Type::Int(bits) => {
            let v: u128 = if let Some(h) = n.strip_prefix("u0x") { u128::from_str_radix(h, 16).unwrap() } else if n.starts_with('-') { n.parse::<i128>().unwrap() as u128 } else { n.parse::<u128>().unwrap_or_else(|_| panic!("int {n}")) };
            Const::Int(mask(v, bits))
        }
        _ => Const::Int(n.parse::<i128>().unwrap_or(0) as u128),
    }
}
pub fn mask(v: u128, bits: u32) -> u128 {
    if bits >= 128 { v } else { v & ((1u128 << bits) - 1) }
}
fn memchr(t: &[u8], c: u8, i: usize) -> Option<usize> {
    t[i..].iter().position(|&x| x == c).map(|k| k + i)
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
