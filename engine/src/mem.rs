//! Paged, copy-on-write byte memory with an overlay of symbolic cells.
use crate::expr::*;
use rustc_hash::FxHashMap as HashMap;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PG: u64 = 4096;

#[derive(Clone)]
pub struct Page {
    pub b: Box<[u8; PG as usize]>,
    pub sym: BTreeMap<u16, (Id, u8)>,
}
impl Page {
    pub fn new() -> Page { Page { b: Box::new([0; PG as usize]), sym: BTreeMap::new() } }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub pages: HashMap<u64, Rc<Page>>,
}

/// A piece of memory contents: concrete bytes with symbolic cells at offsets.
pub struct Chunk {
    pub bytes: Vec<u8>,
    pub cells: Vec<(u64, Id, u8)>,
}

impl Mem {
    pub fn page<'a>(&'a self, base: &'a Mem, pn: u64) -> Option<&'a Rc<Page>> {
        self.pages.get(&pn).or_else(|| base.pages.get(&pn))
    }
    pub fn page_mut(&mut self, base: &Mem, pn: u64) -> &mut Page {
        let e = self.pages.entry(pn).or_insert_with(|| base.pages.get(&pn).cloned().unwrap_or_else(|| Rc::new(Page::new())));
        Rc::make_mut(e)
    }
    /// plain concrete read when no symbolic cell overlaps
    pub fn read_conc(&self, base: &Mem, a: u64, n: u64) -> Option<u128> {
        let pn = a / PG;
        let o = (a % PG) as usize;
        if o as u64 + n <= PG {
            match self.page(base, pn) {
                None => Some(0),
                Some(p) => {
                    if !p.sym.is_empty() && overlap(&p.sym, o as i64, n as i64) { return None; }
                    let mut r = [0u8; 16];
                    r[..n as usize].copy_from_slice(&p.b[o..o + n as usize]);
                    Some(u128::from_le_bytes(r))
                }
            }
        } else {
            let n1 = PG - o as u64;
            let lo = self.read_conc(base, a, n1)?;
            let hi = self.read_conc(base, a + n1, n - n1)?;
            Some(lo | hi << (8 * n1))
        }
    }
    pub fn exact_cell(&self, base: &Mem, a: u64, n: u64) -> Option<Id> {
        let p = self.page(base, a / PG)?;
        match p.sym.get(&((a % PG) as u16)) {
            Some(&(e, l)) if l as u64 == n => Some(e),
            _ => None,
        }
    }
    pub fn read_bytes(&self, base: &Mem, a: u64, n: u64) -> Vec<u8> {
        let mut v = Vec::with_capacity(n as usize);
        let mut x = a;
        let end = a + n;
        while x < end {
            let o = (x % PG) as usize;
            let k = (PG - o as u64).min(end - x) as usize;
            match self.page(base, x / PG) {
                None => v.resize(v.len() + k, 0),
                Some(p) => v.extend_from_slice(&p.b[o..o + k]),
            }
            x += k as u64;
        }
        v
    }
    /// symbolic cells overlapping [a, a+n): absolute address, id, len
    pub fn cells(&self, base: &Mem, a: u64, n: u64) -> Vec<(u64, Id, u8)> {
        let mut v = vec![];
        if n == 0 { return v; }
        let mut pn = a / PG;
        let last = (a + n - 1) / PG;
        while pn <= last {
            if let Some(p) = self.page(base, pn) {
                for (&o, &(e, l)) in p.sym.iter() {
                    let ca = pn * PG + o as u64;
                    if ca < a + n && ca + l as u64 > a { v.push((ca, e, l)); }
                }
            }
            pn += 1;
        }
        v
    }
    /// remove cells overlapping [a, a+n); partially covered ones are re-inserted bytewise by the caller
    pub fn clear_cells(&mut self, base: &Mem, a: u64, n: u64) -> Vec<(u64, Id, u8)> {
        if n == 0 { return vec![]; }
        let mut any = false;
        let mut pn = a / PG;
        let last = (a + n - 1) / PG;
        while pn <= last {
            if let Some(p) = self.page(base, pn) { if !p.sym.is_empty() { any = true; } }
            pn += 1;
        }
        if !any { return vec![]; }
        let cs = self.cells(base, a, n);
        for &(ca, _, _) in &cs {
            self.page_mut(base, ca / PG).sym.remove(&((ca % PG) as u16));
        }
        cs.into_iter().filter(|&(ca, _, l)| ca < a || ca + l as u64 > a + n).collect()
    }
    pub fn write_bytes(&mut self, base: &Mem, a: u64, d: &[u8]) {
        let mut x = a;
        let mut i = 0;
        while i < d.len() {
            let o = (x % PG) as usize;
            let k = (PG as usize - o).min(d.len() - i);
            let p = self.page_mut(base, x / PG);
            p.b[o..o + k].copy_from_slice(&d[i..i + k]);
            x += k as u64;
            i += k;
        }
    }
    pub fn put_cell(&mut self, base: &Mem, a: u64, e: Id, n: u8) {
        assert!((a % PG) + n as u64 <= PG, "symbolic cell across a page");
        self.page_mut(base, a / PG).sym.insert((a % PG) as u16, (e, n));
    }
}

fn overlap(s: &BTreeMap<u16, (Id, u8)>, o: i64, n: i64) -> bool {
    let lo = (o - 16).max(0) as u16;
    for (&k, &(_, l)) in s.range(lo..) {
        if k as i64 >= o + n { break; }
        if k as i64 + l as i64 > o { return true; }
    }
    false
}
