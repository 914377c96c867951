//! Text-pipe interface to SMT solvers (z3 / cvc5), one fresh context per query.
use crate::expr::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

pub enum Res {
    Sat(Vec<(u32, String)>), // var index -> text value
    Unsat,
    Unknown(String),
}

pub struct Proc {
    child: Child,
    inp: ChildStdin,
    rx: Receiver<String>,
}
/// one external solver process
struct Member { cmd: Vec<String>, proc: Option<Proc>, wins: u64 }
enum Poll { Wait, Dead, Done(Vec<String>) }
impl Member {
    fn ensure(&mut self) {
        if self.proc.is_some() { return; }
        let mut child = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("cannot start solver {}: {e}", self.cmd[0]));
        let inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l { Ok(l) => { if tx.send(l).is_err() { break; } } Err(_) => break }
            }
        });
        self.proc = Some(Proc { child, inp, rx });
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.proc.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    fn send(&mut self, body: &str, ms: u64) -> bool {
        self.ensure();
        let mut q = String::new();
        if self.cmd[0].contains("cvc5") {
            q.push_str("(reset)\n(set-logic ALL)\n(set-option :produce-models true)\n");
        } else {
            q.push_str(&format!("(reset)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n", ms));
        }
        q.push_str(body);
        q.push_str("(check-sat)\n(echo \"@@done\")\n");
        let p = self.proc.as_mut().unwrap();
        !(p.inp.write_all(q.as_bytes()).is_err() || p.inp.flush().is_err())
    }
    fn poll(&mut self, buf: &mut Vec<String>, ms: u64) -> Poll {
        let p = match self.proc.as_mut() { Some(p) => p, None => return Poll::Dead };
        let end = Instant::now() + Duration::from_millis(ms);
        loop {
            let now = Instant::now();
            let left = if now >= end { Duration::from_millis(0) } else { end - now };
            match p.rx.recv_timeout(left) {
                Ok(l) => { if l.contains("@@done") { return Poll::Done(std::mem::take(buf)); } buf.push(l); }
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => return Poll::Wait,
                Err(_) => return Poll::Dead,
            }
        }
    }
    fn model(&mut self, vars: &[u32]) -> Vec<(u32, String)> {
        if vars.is_empty() { return vec![]; }
        let names: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
        let q = format!("(get-value ({}))\n(echo \"@@done\")\n", names.join(" "));
        {
            let p = self.proc.as_mut().unwrap();
            if p.inp.write_all(q.as_bytes()).is_err() || p.inp.flush().is_err() { self.kill(); return vec![]; }
        }
        let mut buf = vec![];
        match self.poll(&mut buf, 3000) { Poll::Done(ls) => parse_model(&ls.join(" ")), _ => { self.kill(); vec![] } }
    }
}

/// A portfolio: the first solver gets every query, the others join after `lag` ms; first definite answer wins.
pub struct Solver {
    members: Vec<Member>,
    pub lag: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub dump: Option<String>,
    dumped: u64,
}

impl Solver {
    pub fn new(cmds: &[&[&str]]) -> Solver {
        Solver { members: cmds.iter().map(|c| Member { cmd: c.iter().map(|s| s.to_string()).collect(), proc: None, wins: 0 }).collect(), lag: 200, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, dump: None, dumped: 0 }
    }
    pub fn wins(&self) -> String { self.members.iter().map(|m| format!("{}:{}", m.cmd[0], m.wins)).collect::<Vec<_>>().join(" ") }
    /// body: declarations and assertions; vars: names to read back on sat
    pub fn query(&mut self, body: &str, vars: &[u32], ms: u64) -> Res {
        self.queries += 1;
        if let Some(d) = &self.dump {
            self.dumped += 1;
            let _ = std::fs::write(format!("{}/{}.smt2", d, self.dumped), format!("{}(check-sat)\n", body));
        }
        let t0 = Instant::now();
        let n = self.members.len();
        let mut started = vec![false; n];
        let mut out = vec![false; n];
        let mut bufs: Vec<Vec<String>> = vec![vec![]; n];
        let mut why = String::new();
        started[0] = true;
        if !self.members[0].send(body, ms) { self.members[0].kill(); out[0] = true; }
        let hard = Duration::from_millis(ms + 1500);
        let mut won = None;
        'race: loop {
            let el = t0.elapsed();
            if el > hard { break; }
            if el.as_millis() as u64 >= self.lag.min(ms / 2) || out[0] {
                for i in 1..n { if !started[i] { started[i] = true; if !self.members[i].send(body, ms) { self.members[i].kill(); out[i] = true; } } }
            }
            if (0..n).all(|i| started[i] && out[i]) { break; }
            for i in 0..n {
                if !started[i] || out[i] { continue; }
                let w = if i == 0 && n > 1 && !started[1] { self.lag.min(ms / 2) } else { 4 };
                match self.members[i].poll(&mut bufs[i], w) {
                    Poll::Wait => {}
                    Poll::Dead => { self.members[i].kill(); out[i] = true; }
                    Poll::Done(lines) => {
                        if lines.iter().any(|l| l == "unsat") && !lines.iter().any(|l| l.contains("(error")) { won = Some((i, false)); break 'race; }
                        if lines.iter().any(|l| l == "sat") && !lines.iter().any(|l| l.contains("(error")) { won = Some((i, true)); break 'race; }
                        out[i] = true;
                        why.push_str(&lines.join(" "));
                    }
                }
            }
        }
        let res = match won {
            Some((i, s)) => { self.members[i].wins += 1; if s { Res::Sat(self.members[i].model(vars)) } else { Res::Unsat } }
            None => Res::Unknown(why),
        };
        for i in 0..n { if started[i] && !out[i] && won.map(|w| w.0) != Some(i) { self.members[i].kill(); } }
        let el = t0.elapsed().as_secs_f64();
        self.time += el;
        if self.dump.is_some() && el > 0.7 { eprintln!("slow query {}: {:.2}s {} by {}", self.dumped, el, match &res { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }, won.map(|w| self.members[w.0].cmd[0].clone()).unwrap_or_default()); }
        match &res { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown(_) => self.unknown += 1 }
        res
    }
    fn kill(&mut self) { for m in &mut self.members { m.kill(); } }
}
impl Drop for Solver {
    fn drop(&mut self) { self.kill(); }
}

#[derive(Debug)]
enum SX { A(String), L(Vec<SX>) }
fn psx(s: &[u8], p: &mut usize) -> Option<SX> {
    while *p < s.len() && s[*p].is_ascii_whitespace() { *p += 1; }
    if *p >= s.len() { return None; }
    if s[*p] == b'(' {
        *p += 1;
        let mut v = vec![];
        loop {
            while *p < s.len() && s[*p].is_ascii_whitespace() { *p += 1; }
            if *p >= s.len() { return Some(SX::L(v)); }
            if s[*p] == b')' { *p += 1; return Some(SX::L(v)); }
            v.push(psx(s, p)?);
        }
    }
    let st = *p;
    while *p < s.len() && !s[*p].is_ascii_whitespace() && s[*p] != b'(' && s[*p] != b')' { *p += 1; }
    Some(SX::A(String::from_utf8_lossy(&s[st..*p]).into_owned()))
}
fn num(x: &SX) -> Option<f64> {
    match x {
        SX::A(a) => a.trim_end_matches('?').parse().ok(),
        SX::L(v) => match v.first()? {
            SX::A(o) if o == "-" && v.len() == 2 => Some(-num(&v[1])?),
            SX::A(o) if o == "-" => Some(num(&v[1])? - num(&v[2])?),
            SX::A(o) if o == "/" => Some(num(&v[1])? / num(&v[2])?),
            SX::A(o) if o == "to_real" => num(&v[1]),
            SX::A(o) if o == "+" => Some(num(&v[1])? + num(&v[2])?),
            SX::A(o) if o == "*" => Some(num(&v[1])? * num(&v[2])?),
            _ => None,
        },
    }
}
fn intstr(x: &SX) -> Option<String> {
    match x {
        SX::A(a) if a.bytes().all(|c| c.is_ascii_digit()) => Some(a.clone()),
        SX::L(v) if v.len() == 2 => {
            if let (SX::A(o), Some(s)) = (&v[0], intstr(&v[1])) { if o == "-" { return Some(format!("-{}", s)); } }
            None
        }
        _ => None,
    }
}
fn parse_model(s: &str) -> Vec<(u32, String)> {
    let mut p = 0;
    let mut out = vec![];
    if let Some(SX::L(v)) = psx(s.as_bytes(), &mut p) {
        for e in v {
            if let SX::L(kv) = e {
                if kv.len() == 2 {
                    if let SX::A(n) = &kv[0] {
                        if let Ok(i) = n.trim_start_matches('v').parse::<u32>() {
                            if let Some(s) = intstr(&kv[1]) { out.push((i, s)); }
                            else if let Some(f) = num(&kv[1]) { out.push((i, format!("{:e}", f))); }
                        }
                    }
                }
            }
        }
    }
    out
}

/// Keep only the constraints transitively sharing variables with the goal.
pub fn slice(store: &mut Store, pc: &[Id], goal: Id) -> Vec<Id> {
    let mut cur: Vec<u64> = store.vars_of(goal).to_vec();
    let sets: Vec<_> = pc.iter().map(|&p| store.vars_of(p)).collect();
    let mut inc = vec![false; pc.len()];
    loop {
        let mut ch = false;
        for i in 0..pc.len() {
            if inc[i] { continue; }
            let s = &sets[i];
            if s.iter().zip(cur.iter()).any(|(a, b)| a & b != 0) {
                inc[i] = true;
                ch = true;
                if cur.len() < s.len() { cur.resize(s.len(), 0); }
                for (k, b) in s.iter().enumerate() { cur[k] |= b; }
            }
        }
        if !ch { break; }
    }
    let mut r: Vec<Id> = (0..pc.len()).filter(|&i| inc[i]).map(|i| pc[i]).collect();
    r.push(goal);
    r
}
