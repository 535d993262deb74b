//! SMT back ends: one persistent z3 for cheap feasibility questions, and a portfolio of
//! solvers for the deciding queries.
use crate::big::Big;
use crate::term::*;
use std::collections::{BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

pub type Model = HashMap<String, Big>;

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown(String),
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    rx: Receiver<String>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Solver {
    proc_: Option<Proc>,
    cache: HashMap<Vec<B>, Res>,
    models: Vec<Rc<Model>>,
    pub dir: String,
    pub feas_ms: u64,
    pub final_s: u64,
    pub n_feas: u64,
    pub n_final: u64,
    pub n_unknown_feas: u64,
    pub n_guessed: u64,
    seed: u64,
    pub guesses: usize,
    pub quick: String,
    pub t_feas: Duration,
    pub t_final: Duration,
    pub by: HashMap<String, u64>,
    seq: u64,
    pub keep: bool,
}

fn parse_vals(s: &str) -> HashMap<String, Big> {
    // tokens of ((v1 5) (v2 (- 3)) (b1 true))
    let mut out = HashMap::new();
    let toks: Vec<String> = s
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|x| x.to_string())
        .collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        let t = &toks[i];
        let c = t.chars().next().unwrap();
        if (c == 'v' || c == 'b') && t.len() > 1 && t[1..].chars().all(|c| c.is_ascii_digit()) {
            let v = &toks[i + 1];
            if v == "true" {
                out.insert(t.clone(), Big::one());
            } else if v == "false" {
                out.insert(t.clone(), Big::zero());
            } else if v == "(" && toks.get(i + 2).map_or(false, |x| x == "-") {
                if let Some(b) = Big::parse(&toks[i + 3]) {
                    out.insert(t.clone(), b.neg());
                }
            } else if let Some(b) = Big::parse(v) {
                out.insert(t.clone(), b);
            }
        }
        i += 1;
    }
    out
}

impl Solver {
    pub fn new(dir: &str) -> Solver {
        std::fs::create_dir_all(dir).ok();
        Solver {
            proc_: None,
            cache: HashMap::new(),
            models: vec![],
            dir: dir.to_string(),
            feas_ms: 1500,
            final_s: 60,
            n_feas: 0,
            n_final: 0,
            n_unknown_feas: 0,
            n_guessed: 0,
            seed: 0x9e3779b97f4a7c15,
            guesses: std::env::var("MIRSYM_GUESS").ok().and_then(|s| s.parse().ok()).unwrap_or(150),
            quick: std::env::var("MIRSYM_QUICK").unwrap_or("/usr/local/bin/z3-new".into()),
            t_feas: Duration::ZERO,
            t_final: Duration::ZERO,
            by: HashMap::new(),
            seq: 0,
            keep: false,
        }
    }
    fn start(&mut self) {
        let mut child = Command::new(&self.quick)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3");
        let inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            loop {
                let mut l = String::new();
                match r.read_line(&mut l) {
                    Ok(0) | Err(_) => break,
                    _ => {
                        if tx.send(l.trim_end().to_string()).is_err() {
                            break;
                        }
                    }
                }
            }
        });
        self.proc_ = Some(Proc { child, inp, rx });
    }
    /// run text on the persistent z3; collects lines until the end marker
    fn talk(&mut self, text: &str, limit: Duration) -> Option<Vec<String>> {
        if self.proc_.is_none() {
            self.start();
        }
        let p = self.proc_.as_mut().unwrap();
        let dead = p
            .inp
            .write_all(text.as_bytes())
            .and_then(|_| p.inp.write_all(b"\n(echo \"@@end\")\n"))
            .and_then(|_| p.inp.flush())
            .is_err();
        if dead {
            self.proc_ = None;
            return None;
        }
        let t0 = Instant::now();
        let mut v = vec![];
        loop {
            let left = limit.checked_sub(t0.elapsed()).unwrap_or(Duration::ZERO);
            match p.rx.recv_timeout(left) {
                Ok(l) if l == "@@end" => return Some(v),
                Ok(l) => v.push(l),
                Err(_) => {
                    self.proc_ = None;
                    return None;
                }
            }
        }
    }
    fn model_from(ar: &Arena, asserts: &[B], vals: HashMap<String, Big>, iv: &[(String, String)], bv: &[(String, String)]) -> Option<Rc<Model>> {
        let mut m = Model::new();
        for (s, n) in iv.iter().chain(bv) {
            m.insert(n.clone(), vals.get(s)?.clone());
        }
        let mut memo = HashMap::new();
        for &a in asserts {
            if ar.beval(a, &m, &mut memo) != Some(true) {
                return None;
            }
        }
        Some(Rc::new(m))
    }
    fn quick_z3(&mut self, ar: &Arena, asserts: &[B], ms: u64) -> Res {
        let (text, iv, bv) = ar.smt(asserts);
        let q = format!("(reset)\n(set-option :timeout {})\n{}(check-sat)", ms, text);
        let Some(r) = self.talk(&q, Duration::from_millis(ms * 2 + 2000)) else {
            return Res::Unknown("z3 timeout".into());
        };
        let last = r.last().cloned().unwrap_or_default();
        if r.iter().any(|l| l.contains("(error")) {
            return Res::Unknown(format!("z3 error: {:?}", r));
        }
        match last.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                let names: Vec<&str> = iv.iter().chain(bv.iter()).map(|x| x.0.as_str()).collect();
                let vals = if names.is_empty() {
                    HashMap::new()
                } else {
                    match self.talk(
                        &format!("(get-value ({}))", names.join(" ")),
                        Duration::from_secs(5),
                    ) {
                        Some(l) => parse_vals(&l.join(" ")),
                        None => HashMap::new(),
                    }
                };
                match Self::model_from(ar, asserts, vals, &iv, &bv) {
                    Some(m) => Res::Sat(m),
                    None => Res::Unknown("model does not evaluate".into()),
                }
            }
            o => Res::Unknown(format!("z3: {}", o)),
        }
    }
    fn cached(&mut self, ar: &Arena, key: &Vec<B>) -> Option<Res> {
        if let Some(r) = self.cache.get(key) {
            return Some(r.clone());
        }
        for i in (0..self.models.len()).rev() {
            let m = self.models[i].clone();
            let mut memo = HashMap::new();
            if key.iter().all(|&a| ar.beval(a, &m, &mut memo) == Some(true)) {
                // restrict to what matters is done by the caller
                return Some(Res::Sat(m));
            }
        }
        None
    }
    fn rnd(&mut self) -> u64 {
        self.seed ^= self.seed << 13;
        self.seed ^= self.seed >> 7;
        self.seed ^= self.seed << 17;
        self.seed
    }
    /// A model by local search, to spare the solver questions that are easily satisfiable.
    /// Only answers "satisfiable", with a model that has been evaluated.
    fn guess(&mut self, ar: &Arena, asserts: &[B], trials: usize) -> Option<Rc<Model>> {
        let vars = ar.vars(asserts);
        if vars.is_empty() {
            return None;
        }
        let score = |m: &Model| {
            let mut memo = HashMap::new();
            asserts.iter().filter(|&&a| ar.beval(a, m, &mut memo) != Some(true)).count()
        };
        let hit = |m: Model, s: &mut Solver| {
            s.n_guessed += 1;
            Some(Rc::new(m))
        };
        let mut base: Vec<Rc<Model>> = self.models.iter().rev().take(4).cloned().collect();
        base.push(Rc::new(Model::new()));
        let mut best: Option<(usize, Model)> = None;
        for b in base {
            let m: Model = vars
                .iter()
                .map(|(n, lo, hi)| {
                    let v = b.get(n).cloned().unwrap_or(lo.clone());
                    let bad = v < *lo || hi.as_ref().map_or(false, |h| v > *h);
                    (n.clone(), if bad { lo.clone() } else { v })
                })
                .collect();
            let c = score(&m);
            if c == 0 {
                return hit(m, self);
            }
            if best.as_ref().map_or(true, |(x, _)| c < *x) {
                best = Some((c, m));
            }
        }
        let (mut bc, mut bm) = best.unwrap();
        for t in 0..trials {
            let mut m = if t % 40 == 39 { Model::new() } else { bm.clone() };
            let all = t % 40 == 39;
            let k = if all { vars.len() } else { 1 + (self.rnd() % 2) as usize };
            for j in 0..k {
                let i = if all { j } else { (self.rnd() % vars.len() as u64) as usize };
                let (n, lo, hi) = &vars[i];
                let cap = hi.as_ref().map_or(200, |h| h.bits());
                let r = self.rnd();
                let old = m.get(n).cloned().unwrap_or(lo.clone());
                let v = match r % 10 {
                    0 => lo.clone(),
                    1 => hi.clone().unwrap_or(Big::pow2(128)),
                    2 => old.add(&Big::one()),
                    3 => old.sub(&Big::one()),
                    4 => old.mul(&Big::from(1 + (r >> 8) as u128 % 1000)),
                    5 => old.div_floor(&Big::from(1 + (r >> 8) as u128 % 1000)),
                    6 => m.get(&vars[(r >> 8) as usize % vars.len()].0).cloned().unwrap_or_default(),
                    7 => Big::from(10u128.pow((r >> 8) as u32 % 38)),
                    _ => {
                        let bits = ((r >> 8) % (cap as u64 + 1)) as u32;
                        let x = Big::from(self.rnd() as u128).mul(&Big::from(self.rnd() as u128)).add(&Big::from(self.rnd() as u128));
                        x.rem_floor(&Big::pow2(bits))
                    }
                };
                let v = if v < *lo { lo.clone() } else { v };
                let v = match hi {
                    Some(h) if v > *h => h.clone(),
                    _ => v,
                };
                m.insert(n.clone(), v);
            }
            let c = score(&m);
            if c == 0 {
                return hit(m, self);
            }
            if c <= bc {
                bc = c;
                bm = m;
            }
        }
        None
    }
    fn remember(&mut self, key: Vec<B>, r: &Res) {
        if let Res::Sat(m) = r {
            self.models.push(m.clone());
            if self.models.len() > 24 {
                self.models.remove(0);
            }
        }
        self.cache.insert(key, r.clone());
    }
    /// Cheap satisfiability (slice already taken by the caller).
    pub fn feasible(&mut self, ar: &Arena, asserts: &[B]) -> Res {
        let mut key: Vec<B> = asserts.to_vec();
        key.sort_unstable();
        key.dedup();
        if key.contains(&FALSE) {
            return Res::Unsat;
        }
        if let Some(r) = self.cached(ar, &key) {
            return r;
        }
        let t0 = Instant::now();
        if let Some(m) = self.guess(ar, &key, self.guesses) {
            self.t_feas += t0.elapsed();
            let r = Res::Sat(m);
            self.remember(key, &r);
            return r;
        }
        self.n_feas += 1;
        let r = self.quick_z3(ar, &key, self.feas_ms);
        self.t_feas += t0.elapsed();
        if let Res::Unknown(_) = r {
            self.n_unknown_feas += 1;
        }
        self.remember(key, &r);
        r
    }
    /// Deciding query: portfolio, first definitive answer wins.
    pub fn decide(&mut self, ar: &Arena, asserts: &[B]) -> Res {
        let mut key: Vec<B> = asserts.to_vec();
        key.sort_unstable();
        key.dedup();
        if key.contains(&FALSE) {
            return Res::Unsat;
        }
        match self.cached(ar, &key) {
            Some(Res::Unknown(_)) | None => {}
            Some(r) => return r,
        }
        let t0 = Instant::now();
        self.n_final += 1;
        if let Some(m) = self.guess(ar, &key, 4 * self.guesses) {
            self.t_final += t0.elapsed();
            *self.by.entry("search".into()).or_insert(0) += 1;
            let r = Res::Sat(m);
            self.remember(key, &r);
            return r;
        }
        let ms = self.feas_ms.min(1500);
        let mut r = self.quick_z3(ar, &key, ms);
        if !matches!(r, Res::Unknown(_)) {
            *self.by.entry("z3".into()).or_insert(0) += 1;
        } else {
            r = self.portfolio(ar, &key);
        }
        self.t_final += t0.elapsed();
        self.remember(key, &r);
        r
    }
    fn portfolio(&mut self, ar: &Arena, key: &[B]) -> Res {
        let (text, iv, bv) = ar.smt(key);
        self.seq += 1;
        let names: Vec<&str> = iv.iter().chain(bv.iter()).map(|x| x.0.as_str()).collect();
        let gv = if names.is_empty() { String::new() } else { format!("(get-value ({}))\n", names.join(" ")) };
        let body = format!("(set-logic ALL)\n(set-option :produce-models true)\n{}(check-sat)\n{}", text, gv);
        let file = format!("{}/q{}_{}.smt2", self.dir, std::process::id(), self.seq);
        std::fs::write(&file, &body).expect("write query");
        let lim = self.final_s;
        let cmds: Vec<(String, Vec<String>)> = vec![
            ("z3".into(), vec!["/usr/bin/z3".into(), format!("-T:{}", lim), file.clone()]),
            ("z3-new".into(), vec!["/usr/local/bin/z3-new".into(), format!("-T:{}", lim), file.clone()]),
            ("cvc5".into(), vec!["/usr/bin/cvc5".into(), format!("--tlimit={}", lim * 1000), "--nl-ext-tplanes".into(), file.clone()]),
            ("z3-new-nlsat".into(), vec!["/usr/local/bin/z3-new".into(), format!("-T:{}", lim), "smt.arith.solver=2".into(), "smt.random_seed=7".into(), file.clone()]),
        ];
        let (tx, rx) = channel();
        let mut kids = vec![];
        for (name, c) in cmds {
            let mut child = match Command::new(&c[0]).args(&c[1..]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                Ok(c) => c,
                Err(_) => continue,
            };
            let mut out = child.stdout.take().unwrap();
            let tx = tx.clone();
            std::thread::spawn(move || {
                let mut s = String::new();
                let _ = out.read_to_string(&mut s);
                let _ = tx.send((name, s));
            });
            kids.push(child);
        }
        drop(tx);
        let t0 = Instant::now();
        let mut res = Res::Unknown(format!("no answer within {} s ({})", lim, file));
        loop {
            let left = Duration::from_secs(lim + 3).checked_sub(t0.elapsed()).unwrap_or(Duration::ZERO);
            let Ok((name, s)) = rx.recv_timeout(left) else { break };
            let first = s.lines().next().unwrap_or("").trim().to_string();
            if first == "unsat" {
                *self.by.entry(name).or_insert(0) += 1;
                res = Res::Unsat;
                break;
            }
            if first == "sat" && !s.contains("(error") {
                let vals = parse_vals(&s[first.len()..]);
                if let Some(m) = Self::model_from(ar, key, vals, &iv, &bv) {
                    *self.by.entry(name).or_insert(0) += 1;
                    res = Res::Sat(m);
                    break;
                }
            }
        }
        for mut k in kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        if !self.keep && !matches!(res, Res::Unknown(_)) {
            let _ = std::fs::remove_file(&file);
        }
        res
    }
}

/// The subset of `path` connected (by shared variables) to `seed`.
pub fn slice(ar: &mut Arena, path: &[B], seed: &[B]) -> Vec<B> {
    let mut vars: BTreeSet<u32> = BTreeSet::new();
    for &s in seed {
        vars.extend(ar.bsupport(s).iter().copied());
    }
    let sup: Vec<_> = path.iter().map(|&b| ar.bsupport(b)).collect();
    let mut used = vec![false; path.len()];
    loop {
        let mut ch = false;
        for i in 0..path.len() {
            if !used[i] && sup[i].iter().any(|v| vars.contains(v)) {
                used[i] = true;
                vars.extend(sup[i].iter().copied());
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut r: Vec<B> = path.iter().zip(&used).filter(|(_, u)| **u).map(|(b, _)| *b).collect();
    r.extend_from_slice(seed);
    r
}
