//! Symbolic interpreter: memory, path state, decisions, instruction semantics.
use crate::expr::*;
use crate::ir::*;
use crate::parse::{sx, Parser};
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// empty, or one expression id (0 = concrete byte) per byte
    pub sym: Vec<u32>,
    pub ro: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub v: u64,
    pub forced: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocs: Vec<u32>,
}

#[derive(Clone, Default)]
pub struct Pc {
    pub dom: Vec<[u64; 4]>,
    pub widths: Vec<u8>,
    pub multi: Vec<Id>,
    pub mmask: u128,
    pub model: Vec<u64>,
    pub known: Vec<(Id, u64)>,
}

pub struct TraceNode {
    d: Dec,
    prev: Trace,
}
pub type Trace = Option<Rc<TraceNode>>;

const CH: usize = 64;

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Vec<u32>,
    next: u32,
    gover: Rc<HashMap<u32, Rc<Obj>>>,
    pub pc: Pc,
    pub obs: Vec<(Val, u32)>,
    pub trace: Trace,
    pub tlen: usize,
    idec: Vec<Dec>,
    idec_done: bool,
    pending: Rc<Vec<Dec>>,
    ppos: usize,
    pub steps: u64,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    Violation { kind: &'static str, label: String },
    Unsupported(String),
    Limit(String),
    Deadline,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub inst: usize,
    pub kind: &'static str,
    pub label: String,
    pub values: Vec<(u32, u64)>,
    pub obs: Vec<u64>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub inst: usize,
    pub values: Vec<(u32, u64)>,
    pub obs: Vec<u64>,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub violated: u64,
    pub unsupported: HashMap<String, u64>,
    pub limits: HashMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub decisions: u64,
    pub asserts_const: u64,
    pub asserts_smt: u64,
    pub asserts_unknown: u64,
    pub q_model: u64,
    pub asserts_domain: u64,
    pub q_domain: u64,
    pub q_cache: u64,
    pub q_z3: u64,
    pub q_z3_sat: u64,
    pub q_z3_unsat: u64,
    pub q_z3_unknown: u64,
    pub z3_ns: u64,
    pub truncated: u64,
    pub items: u64,
    pub reached: HashMap<String, u64>,
    pub maxvars: u64,
    pub audited: u64,
    pub audit_bad: u64,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.infeasible += o.infeasible;
        self.violated += o.violated;
        for (k, v) in &o.unsupported {
            *self.unsupported.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.limits {
            *self.limits.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.reached {
            *self.reached.entry(k.clone()).or_default() += v;
        }
        self.steps += o.steps;
        self.forks += o.forks;
        self.decisions += o.decisions;
        self.asserts_const += o.asserts_const;
        self.asserts_smt += o.asserts_smt;
        self.asserts_unknown += o.asserts_unknown;
        self.q_model += o.q_model;
        self.asserts_domain += o.asserts_domain;
        self.q_domain += o.q_domain;
        self.q_cache += o.q_cache;
        self.q_z3 += o.q_z3;
        self.q_z3_sat += o.q_z3_sat;
        self.q_z3_unsat += o.q_z3_unsat;
        self.q_z3_unknown += o.q_z3_unknown;
        self.z3_ns += o.z3_ns;
        self.truncated += o.truncated;
        self.items += o.items;
        self.audited += o.audited;
        self.audit_bad += o.audit_bad;
        self.maxvars = self.maxvars.max(o.maxvars);
    }
}

pub type X<T> = Result<T, Stop>;

fn unsup<T>(m: impl Into<String>) -> X<T> {
    Err(Stop::Unsupported(m.into()))
}

pub struct Worker<'m> {
    pub m: &'m Module,
    pub a: Arena,
    pub z: Z3,
    pub fork_stack: Vec<State>,
    pub st: Stats,
    pub qcache: FxMap<u128, (Res, Vec<(u32, u64)>)>,
    pub fcount: Vec<u64>,
    pub deadline: Instant,
    pub stop: Arc<AtomicBool>,
    pub max_steps: u64,
    pub max_values: usize,
    pub inst: usize,
    pub violations: Vec<Violation>,
    pub vcount: HashMap<(usize, String), u32>,
    pub audit_every: u64,
    audit_ctr: u64,
    hbase: u32,
    full: [u64; 4],
}

fn domfull(w: u32) -> [u64; 4] {
    let mut d = [0u64; 4];
    for v in 0..(1u32 << w) {
        d[(v >> 6) as usize] |= 1 << (v & 63);
    }
    d
}
fn dom_first(d: &[u64; 4]) -> u64 {
    for i in 0..4 {
        if d[i] != 0 {
            return i as u64 * 64 + d[i].trailing_zeros() as u64;
        }
    }
    0
}
fn dom_last(d: &[u64; 4]) -> u64 {
    for i in (0..4).rev() {
        if d[i] != 0 {
            return i as u64 * 64 + 63 - d[i].leading_zeros() as u64;
        }
    }
    0
}
fn dom_empty(d: &[u64; 4]) -> bool {
    d[0] | d[1] | d[2] | d[3] == 0
}
fn dom_has(d: &[u64; 4], v: u64) -> bool {
    v < 256 && d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
fn dom_and(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn dom_count(d: &[u64; 4]) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}

fn bin64(op: Bin, w: u32, a: u64, b: u64) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let r = match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Bin::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bin::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                0
            } else {
                x.wrapping_div(y) as u64
            }
        }
        Bin::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        Bin::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Bin::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Bin::AShr => {
            let x = sx(a, w);
            (x >> b.min(63)) as u64
        }
    };
    r & m
}
fn to_o(op: Bin) -> O {
    match op {
        Bin::Add => O::Add,
        Bin::Sub => O::Sub,
        Bin::Mul => O::Mul,
        Bin::UDiv => O::UDiv,
        Bin::SDiv => O::SDiv,
        Bin::URem => O::URem,
        Bin::SRem => O::SRem,
        Bin::Shl => O::Shl,
        Bin::LShr => O::LShr,
        Bin::AShr => O::AShr,
        Bin::And => O::And,
        Bin::Or => O::Or,
        Bin::Xor => O::Xor,
    }
}
fn icmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
    }
}

enum Flow {
    Next,
    Jump,
}

impl<'m> Worker<'m> {
    pub fn new(m: &'m Module, z3_timeout: u32, deadline: Instant, stop: Arc<AtomicBool>) -> Self {
        Worker {
            m,
            a: Arena::new(),
            z: Z3::new(z3_timeout),
            fork_stack: vec![],
            st: Stats::default(),
            qcache: FxMap::default(),
            fcount: vec![0; m.globals.len()],
            deadline,
            stop,
            max_steps: 200_000_000,
            max_values: 2048,
            inst: 0,
            violations: vec![],
            vcount: HashMap::new(),
            audit_every: std::env::var("SYMX_AUDIT").ok().and_then(|x| x.parse().ok()).unwrap_or(4000),
            audit_ctr: 0,
            hbase: m.globals.len() as u32 + 1,
            full: domfull(8),
        }
    }
    pub fn reset_arena(&mut self) {
        self.a = Arena::new();
        self.z = Z3::new(15_000);
        self.qcache.clear();
    }

    // ---------------------------------------------------------------- values
    pub fn ex(&mut self, v: &Val, w: u32) -> Id {
        match v {
            Val::C(c) => self.a.cst(w, *c as u128),
            Val::W(c) => self.a.cst(w, **c),
            Val::E(e) => *e,
            Val::U => self.a.cst(w, 0),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn vl(&self, id: Id) -> Val {
        match self.a.as_const(id) {
            Some(k) => Parser::mkint(self.a.w(id), k),
            None => Val::E(id),
        }
    }
    #[inline]
    fn op(&self, s: &State, o: Op) -> Val {
        match o {
            Op::R(r) => s.cur.regs[r as usize].clone(),
            Op::C(c) => Val::C(c),
            Op::K(k) => self.m.consts[k as usize].clone(),
        }
    }

    // ---------------------------------------------------------------- solver glue
    fn mask_iter(mut m: u128) -> impl Iterator<Item = u32> {
        std::iter::from_fn(move || {
            if m == 0 {
                None
            } else {
                let i = m.trailing_zeros();
                m &= m - 1;
                Some(i)
            }
        })
    }
    fn unary(&self, pc: &Pc, c: Id) -> Option<u32> {
        let m = self.a.mask[c as usize];
        if m.count_ones() == 1 {
            let v = m.trailing_zeros();
            if pc.widths[v as usize] <= 8 {
                return Some(v);
            }
        }
        None
    }
    /// Split a constraint into conjuncts.
    fn conj(&mut self, c: Id, out: &mut Vec<Id>) {
        let n = self.a.nodes[c as usize];
        match n.op {
            O::And => {
                self.conj(n.a, out);
                self.conj(n.b, out);
            }
            O::Not => {
                let i = self.a.nodes[n.a as usize];
                if i.op == O::Or {
                    let (x, y) = (self.a.not(i.a), self.a.not(i.b));
                    self.conj(x, out);
                    self.conj(y, out);
                } else {
                    out.push(c);
                }
            }
            _ => out.push(c),
        }
    }
    pub fn add(&mut self, pc: &mut Pc, c: Id) -> bool {
        let mut cs = vec![];
        self.conj(c, &mut cs);
        for c in cs {
            match self.a.as_const(c) {
                Some(0) => return false,
                Some(_) => continue,
                None => {}
            }
            if let Some(v) = self.unary(pc, c) {
                let t = self.a.truth(c, v, pc.widths[v as usize] as u32);
                let d = dom_and(&pc.dom[v as usize], &t);
                pc.dom[v as usize] = d;
                if dom_empty(&d) {
                    return false;
                }
            } else if !pc.multi.iter().rev().take(400).any(|x| *x == c) {
                pc.multi.push(c);
                pc.mmask |= self.a.mask[c as usize];
            }
        }
        true
    }
    fn model_ok(&mut self, pc: &Pc, model: &[u64], mask: u128) -> bool {
        for v in Self::mask_iter(mask) {
            if pc.widths[v as usize] <= 8 && !dom_has(&pc.dom[v as usize], model[v as usize]) {
                return false;
            }
        }
        self.a.new_eval();
        for i in 0..pc.multi.len() {
            let c = pc.multi[i];
            if self.a.mask[c as usize] & mask != 0 && self.a.ev(c, model) == 0 {
                return false;
            }
        }
        true
    }
    /// Try to satisfy `c` by local repair of the model. Returns Unsat only when exact.
    fn repair(&mut self, pc: &Pc, c: Id, depth: u32) -> (Res, Vec<u64>) {
        let mut cs = vec![];
        self.conj(c, &mut cs);
        let mut model = pc.model.clone();
        let mut touched = 0u128;
        let mut cur: HashMap<u32, [u64; 4]> = HashMap::new();
        let mut rest: Vec<Id> = vec![];
        for &k in &cs {
            match self.a.as_const(k) {
                Some(0) => return (Res::Unsat, vec![]),
                Some(_) => continue,
                None => {}
            }
            if let Some(v) = self.unary(pc, k) {
                let t = self.a.truth(k, v, pc.widths[v as usize] as u32);
                let d = cur.entry(v).or_insert(pc.dom[v as usize]);
                *d = dom_and(d, &t);
                if dom_empty(d) {
                    return (Res::Unsat, vec![]);
                }
                touched |= 1u128 << v;
            } else {
                rest.push(k);
            }
        }
        for (v, d) in &cur {
            if !dom_has(d, model[*v as usize]) {
                model[*v as usize] = dom_first(d);
            }
        }
        if rest.is_empty() && touched & pc.mmask == 0 {
            return (Res::Sat, model);
        }
        let all_ok = |s: &mut Self, model: &[u64], touched: u128| -> bool {
            s.a.new_eval();
            for &k in &rest {
                if s.a.ev(k, model) == 0 {
                    return false;
                }
            }
            s.model_ok(pc, model, touched)
        };
        if all_ok(self, &model, touched) {
            return (Res::Sat, model);
        }
        // vary one constrained variable at a time
        if rest.is_empty() && cur.len() == 1 {
            let (v, d) = cur.iter().next().map(|(v, d)| (*v, *d)).unwrap();
            let mut n = 0;
            for x in 0..256u64 {
                if dom_has(&d, x) {
                    model[v as usize] = x;
                    if all_ok(self, &model, touched) {
                        return (Res::Sat, model);
                    }
                    n += 1;
                    if n >= 12 {
                        break;
                    }
                }
            }
        }
        // disjunctions: try each side
        if depth < 3 && rest.len() == 1 {
            let k = rest[0];
            let n = self.a.nodes[k as usize];
            let parts = match n.op {
                O::Or => Some((n.a, n.b)),
                O::Not => {
                    let i = self.a.nodes[n.a as usize];
                    if i.op == O::And {
                        Some((self.a.not(i.a), self.a.not(i.b)))
                    } else {
                        None
                    }
                }
                _ => None,
            };
            if let Some((x, y)) = parts {
                let others: Vec<Id> = cs.iter().copied().filter(|z| *z != k).collect();
                for p in [x, y] {
                    let mut q = p;
                    for o in &others {
                        q = self.a.and(q, *o);
                    }
                    let (r, m) = self.repair(pc, q, depth + 1);
                    if r == Res::Sat {
                        return (r, m);
                    }
                }
            }
        }
        (Res::Unknown, vec![])
    }
    /// Replace what the domains of single variables decide by constants.
    fn simp(&mut self, pc: &Pc, id: Id, memo: &mut FxMap<Id, Id>) -> Id {
        if let Some(r) = memo.get(&id) {
            return *r;
        }
        let mask = self.a.mask[id as usize];
        if mask == 0 {
            return id;
        }
        let mut r = id;
        let mut done = false;
        if mask.count_ones() == 1 {
            let v = mask.trailing_zeros();
            if pc.widths[v as usize] <= 8 {
                let d = pc.dom[v as usize];
                if self.a.w(id) == 1 {
                    let t = self.a.truth(id, v, pc.widths[v as usize] as u32);
                    let yes = dom_and(&d, &t);
                    if dom_empty(&yes) {
                        r = self.a.fls();
                        done = true;
                    } else if yes == d {
                        r = self.a.tru();
                        done = true;
                    }
                } else if dom_count(&d) == 1 {
                    let mut m = pc.model.clone();
                    m[v as usize] = dom_first(&d);
                    let x = self.a.eval(id, &m);
                    let w = self.a.w(id);
                    r = self.a.cst(w, x);
                    done = true;
                }
            }
        }
        if !done {
            let ch = self.a.children(id);
            let mut k = [None; 3];
            let mut same = true;
            for i in 0..3 {
                if let Some(c) = ch[i] {
                    let n = self.simp(pc, c, memo);
                    same &= n == c;
                    k[i] = Some(n);
                }
            }
            if !same {
                r = self.a.rebuild(id, k);
            }
        }
        memo.insert(id, r);
        r
    }
    /// Is `c` satisfiable together with the path condition?
    pub fn check(&mut self, pc: &Pc, c: Id, need_z3: bool) -> (Res, Vec<u64>) {
        let before = self.st.q_z3 + self.st.q_cache;
        let r = self.check_inner(pc, c, need_z3);
        if self.st.q_z3 + self.st.q_cache == before && self.a.as_const(c).is_none() {
            // a verdict of the built-in procedures: have Z3 confirm a sample of them
            self.audit_ctr += 1;
            if self.audit_ctr >= self.audit_every {
                self.audit_ctr = 0;
                let mut seen = FxMap::default();
                if !self.a.has_fp(c, &mut seen) {
                    let (q, _) = self.z3(pc, c, true);
                    if q != Res::Unknown {
                        self.st.audited += 1;
                        if q != r.0 {
                            self.st.audit_bad += 1;
                            eprintln!("AUDIT MISMATCH: built-in {:?}, z3 {:?}: {}", r.0, q, self.a.show(c, 8));
                        }
                    }
                }
            }
        }
        r
    }
    fn check_inner(&mut self, pc: &Pc, c: Id, need_z3: bool) -> (Res, Vec<u64>) {
        match self.a.as_const(c) {
            Some(0) => return (Res::Unsat, vec![]),
            Some(_) => return (Res::Sat, pc.model.clone()),
            None => {}
        }
        if self.a.eval(c, &pc.model) != 0 {
            self.st.q_model += 1;
            return (Res::Sat, pc.model.clone());
        }
        let (r, m) = self.repair(pc, c, 0);
        match r {
            Res::Sat => {
                self.st.q_domain += 1;
                return (r, m);
            }
            Res::Unsat if !need_z3 => {
                self.st.q_domain += 1;
                return (r, m);
            }
            _ => {}
        }
        if !need_z3 {
            let mut memo = FxMap::default();
            let dom = |v: u32, w: u32| -> (u128, u128) {
                if w <= 8 {
                    let d = &pc.dom[v as usize];
                    (dom_first(d) as u128, dom_last(d) as u128)
                } else {
                    (0, ones(w))
                }
            };
            if self.a.range(c, &dom, &mut memo).1 == 0 {
                self.st.q_domain += 1;
                return (Res::Unsat, vec![]);
            }
        }
        self.z3(pc, c, need_z3)
    }
    /// Exhaustive search when the variables involved have very few values left.
    fn small(&mut self, pc: &Pc, cs: &[Id], mask: u128) -> Option<(Res, Vec<u64>)> {
        let mut vs: Vec<(u32, Vec<u64>)> = vec![];
        for v in Self::mask_iter(mask) {
            if pc.widths[v as usize] > 8 {
                return None;
            }
            let d = pc.dom[v as usize];
            vs.push((v, (0..256).filter(|x| dom_has(&d, *x)).collect()));
        }
        let mut seen = FxMap::default();
        let fp = cs.iter().any(|c| self.a.has_fp(*c, &mut seen));
        let mut fuel = if fp { 40_000u32 } else { 6_000 };
        // the variables in order, each constraint as soon as its last variable has a value
        let mut at: Vec<Vec<Id>> = vec![vec![]; vs.len()];
        for c in cs {
            let m = self.a.mask[*c as usize];
            match (0..vs.len()).rev().find(|k| m >> vs[*k].0 & 1 != 0) {
                Some(k) => at[k].push(*c),
                None => return None,
            }
        }
        let mut model = pc.model.clone();
        let mut ix = vec![0usize; vs.len()];
        let mut k = 0usize;
        loop {
            if ix[k] == vs[k].1.len() {
                ix[k] = 0;
                if k == 0 {
                    return Some((Res::Unsat, vec![]));
                }
                k -= 1;
                ix[k] += 1;
                continue;
            }
            model[vs[k].0 as usize] = vs[k].1[ix[k]];
            if !at[k].is_empty() {
                self.a.new_eval();
                let mut ok = true;
                for c in &at[k] {
                    if fuel == 0 {
                        return None;
                    }
                    fuel -= 1;
                    if self.a.ev(*c, &model) == 0 {
                        ok = false;
                        break;
                    }
                }
                if !ok {
                    ix[k] += 1;
                    continue;
                }
            }
            if k + 1 == vs.len() {
                return Some((Res::Sat, model));
            }
            k += 1;
            ix[k] = 0;
        }
    }
    fn z3(&mut self, pc: &Pc, c: Id, need_z3: bool) -> (Res, Vec<u64>) {
        // slice
        let mut mask = self.a.mask[c as usize];
        let mut used = vec![false; pc.multi.len()];
        loop {
            let mut ch = false;
            for (i, &k) in pc.multi.iter().enumerate() {
                if !used[i] && self.a.mask[k as usize] & mask != 0 {
                    used[i] = true;
                    let nm = mask | self.a.mask[k as usize];
                    if nm != mask {
                        mask = nm;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<Id> = pc.multi.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, k)| *k).collect();
        cs.push(c);
        if !need_z3 {
            if let Some((r, m)) = self.small(pc, &cs, mask) {
                self.st.q_domain += 1;
                return (r, m);
            }
        }
        let mut doms = vec![];
        let mut want = vec![];
        for v in Self::mask_iter(mask) {
            let w = pc.widths[v as usize] as u32;
            want.push((v, w));
            if w <= 8 && pc.dom[v as usize] != domfull(w) {
                doms.push((v, w, pc.dom[v as usize]));
            }
        }
        // cache
        let mut h1 = Fx::default();
        let mut h2 = Fx::default();
        use std::hash::Hasher;
        h2.write_u64(0x9e37_79b9_7f4a_7c15);
        let mut sorted = cs.clone();
        sorted.sort_unstable();
        for k in &sorted {
            h1.write_u32(*k);
            h2.write_u64((*k as u64).wrapping_mul(0xff51_afd7_ed55_8ccd));
        }
        for (v, w, d) in &doms {
            for x in [*v as u64, *w as u64, d[0], d[1], d[2], d[3]] {
                h1.write_u64(x);
                h2.write_u64(x.wrapping_mul(0xc4ce_b9fe_1a85_ec53) ^ 0x55);
            }
        }
        let key = ((h1.finish() as u128) << 64) | h2.finish() as u128;
        if let Some((r, vs)) = self.qcache.get(&key) {
            self.st.q_cache += 1;
            let mut model = pc.model.clone();
            if *r == Res::Sat {
                for (v, x) in vs {
                    model[*v as usize] = *x;
                }
            }
            return (*r, model);
        }
        let t = Instant::now();
        let (r, vals) = self.z.check(&mut self.a, &cs, &doms, &want);
        let el = t.elapsed();
        self.st.z3_ns += el.as_nanos() as u64;
        self.st.q_z3 += 1;
        match r {
            Res::Sat => self.st.q_z3_sat += 1,
            Res::Unsat => self.st.q_z3_unsat += 1,
            Res::Unknown => self.st.q_z3_unknown += 1,
        }
        if std::env::var_os("SYMX_SLOW").is_some() && el.as_millis() > 30 {
            eprintln!("slow query {} ms {:?} ncs={} ndom={} c={}", el.as_millis(), r, cs.len(), doms.len(), self.a.show(c, 6));
        }
        let vs: Vec<(u32, u64)> = want.iter().zip(vals.iter()).map(|((v, _), x)| (*v, *x)).collect();
        let mut model = pc.model.clone();
        for (v, x) in &vs {
            model[*v as usize] = *x;
        }
        if self.qcache.len() > 200_000 {
            self.qcache.clear();
        }
        if r != Res::Unknown {
            self.qcache.insert(key, (r, vs));
        }
        (r, model)
    }

    // ---------------------------------------------------------------- decisions
    fn fork(&mut self, s: &State, d: Dec, model: Vec<u64>) {
        let mut c = s.clone();
        let mut p = s.idec.clone();
        p.push(d);
        debug_assert!(s.ppos >= s.pending.len());
        c.pending = Rc::new(p);
        c.ppos = 0;
        c.idec.clear();
        c.pc.model = model;
        self.st.forks += 1;
        self.fork_stack.push(c);
    }
    fn pop_pending(&self, s: &mut State) -> Option<Dec> {
        if s.ppos < s.pending.len() {
            let d = s.pending[s.ppos];
            s.ppos += 1;
            Some(d)
        } else {
            None
        }
    }
    fn ensure_model(&mut self, s: &mut State, c: Id) -> X<()> {
        // after adding c: make sure the model satisfies it
        if self.a.eval(c, &s.pc.model) == 0 {
            let (r, m) = self.check(&s.pc, c, false);
            match r {
                Res::Sat => s.pc.model = m,
                Res::Unsat => return Err(Stop::Infeasible),
                Res::Unknown => {}
            }
        }
        Ok(())
    }
    fn decide(&mut self, s: &mut State, c: Id) -> X<bool> {
        if let Some(k) = self.a.as_const(c) {
            return Ok(k != 0);
        }
        if let Some((_, v)) = s.pc.known.iter().rev().find(|(i, _)| *i == c) {
            return Ok(*v != 0);
        }
        self.st.decisions += 1;
        let nc = self.a.not(c);
        if let Some(d) = self.pop_pending(s) {
            let b = d.v != 0;
            s.idec.push(d);
            if !d.forced {
                let k = if b { c } else { nc };
                self.ensure_model(s, k)?;
                if !self.add(&mut s.pc, k) {
                    return Err(Stop::Infeasible);
                }
            }
            return Ok(b);
        }
        let mv = self.a.eval(c, &s.pc.model) != 0;
        let other = if mv { nc } else { c };
        let (r, m) = self.check(&s.pc, other, false);
        match r {
            Res::Unsat => {
                s.idec.push(Dec { v: mv as u64, forced: true });
                Ok(mv)
            }
            Res::Sat => {
                self.fork(s, Dec { v: !mv as u64, forced: false }, m);
                let k = if mv { c } else { nc };
                s.idec.push(Dec { v: mv as u64, forced: false });
                self.add(&mut s.pc, k);
                Ok(mv)
            }
            Res::Unknown => {
                *self.st.limits.entry("solver unknown at branch".into()).or_default() += 1;
                let k = if mv { c } else { nc };
                s.idec.push(Dec { v: mv as u64, forced: false });
                self.add(&mut s.pc, k);
                Ok(mv)
            }
        }
    }
    /// Enumerate feasible values of an expression.
    fn values(&mut self, s: &State, e: Id) -> X<Vec<(u64, Vec<u64>)>> {
        let w = self.a.w(e);
        let mut out: Vec<(u64, Vec<u64>)> = vec![];
        if let Some(v) = self.unary(&s.pc, e) {
            let d = s.pc.dom[v as usize];
            let exact = s.pc.mmask >> v & 1 == 0;
            let mut m = s.pc.model.clone();
            let mut groups: Vec<(u64, Vec<u64>)> = vec![];
            let mut gi: HashMap<u64, usize> = HashMap::new();
            for x in 0..256u64 {
                if dom_has(&d, x) {
                    m[v as usize] = x;
                    let y = self.a.eval(e, &m) as u64;
                    match gi.get(&y) {
                        Some(&i) => groups[i].1.push(x),
                        None => {
                            gi.insert(y, groups.len());
                            groups.push((y, vec![x]));
                        }
                    }
                }
            }
            let mx = s.pc.model[v as usize];
            for (y, xs) in groups {
                if exact {
                    m[v as usize] = if xs.contains(&mx) { mx } else { xs[0] };
                    out.push((y, m.clone()));
                } else {
                    let k = self.a.cst(w, y as u128);
                    let c = self.a.eq(e, k);
                    let (r, mm) = self.check(&s.pc, c, false);
                    if r != Res::Unsat {
                        out.push((y, mm));
                    }
                }
            }
            self.st.q_domain += 1;
            return Ok(out);
        }
        let mut pc = s.pc.clone();
        loop {
            let y = self.a.eval(e, &pc.model) as u64;
            out.push((y, pc.model.clone()));
            if out.len() > self.max_values {
                return Err(Stop::Limit(format!("more than {} values for a {}-bit address/size/length", self.max_values, w)));
            }
            let k = self.a.cst(w, y as u128);
            let c = self.a.eq(e, k);
            let nc = self.a.not(c);
            let (r, m) = self.check(&pc, nc, false);
            match r {
                Res::Unsat => return Ok(out),
                Res::Unknown => return Err(Stop::Limit("solver unknown at value enumeration".into())),
                Res::Sat => {
                    self.add(&mut pc, nc);
                    pc.model = m;
                }
            }
        }
    }
    pub fn conc(&mut self, s: &mut State, v: &Val, _w: u32) -> X<u64> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::U => return Ok(0),
            Val::E(e) => *e,
            Val::W(x) => return if **x >> 64 == 0 { Ok(**x as u64) } else { unsup("wide value as address") },
            Val::A(_) => return unsup("aggregate as scalar"),
        };
        let w = self.a.w(e);
        if w > 64 {
            return unsup("concretize wide value");
        }
        if let Some((_, v)) = s.pc.known.iter().rev().find(|(i, _)| *i == e) {
            return Ok(*v);
        }
        self.st.decisions += 1;
        if let Some(d) = self.pop_pending(s) {
            s.idec.push(d);
            if !d.forced {
                let k = self.a.cst(w, d.v as u128);
                let c = self.a.eq(e, k);
                self.ensure_model(s, c)?;
                if !self.add(&mut s.pc, c) {
                    return Err(Stop::Infeasible);
                }
            }
            s.pc.known.push((e, d.v));
            return Ok(d.v);
        }
        let vals = self.values(s, e)?;
        if vals.is_empty() {
            return Err(Stop::Infeasible);
        }
        let mv = self.a.eval(e, &s.pc.model) as u64;
        if vals.len() == 1 {
            s.idec.push(Dec { v: mv, forced: true });
            s.pc.known.push((e, mv));
            return Ok(mv);
        }
        for (y, m) in vals {
            if y != mv {
                self.fork(s, Dec { v: y, forced: false }, m);
            }
        }
        s.idec.push(Dec { v: mv, forced: false });
        let k = self.a.cst(w, mv as u128);
        let c = self.a.eq(e, k);
        self.add(&mut s.pc, c);
        s.pc.known.push((e, mv));
        Ok(mv)
    }

    // ---------------------------------------------------------------- memory
    fn new_obj(&self, s: &mut State, size: u64) -> u64 {
        let id = s.free.pop().unwrap_or_else(|| {
            let i = s.next;
            s.next += 1;
            i
        });
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: vec![], ro: false });
        let (c, k) = (id as usize / CH, id as usize % CH);
        while s.chunks.len() <= c {
            s.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut s.chunks[c])[k] = Some(o);
        ((id + self.hbase + 1) as u64) << BASE_SHIFT
    }
    fn free_obj(&self, s: &mut State, addr: u64) -> X<()> {
        let id = addr >> BASE_SHIFT;
        if id <= self.hbase as u64 || addr & 0xffff_ffff != 0 {
            return Err(Stop::Violation { kind: "memory", label: format!("bad free {addr:#x}") });
        }
        let id = (id - self.hbase as u64 - 1) as u32;
        let (c, k) = (id as usize / CH, id as usize % CH);
        if c >= s.chunks.len() || s.chunks[c][k].is_none() {
            return Err(Stop::Violation { kind: "memory", label: "double free".into() });
        }
        Rc::make_mut(&mut s.chunks[c])[k] = None;
        s.free.push(id);
        Ok(())
    }
    fn oob<T>(&self, what: &str, addr: u64, n: u64) -> X<T> {
        Err(Stop::Violation { kind: "memory", label: format!("out-of-bounds {what} at {addr:#x} size {n}") })
    }
    fn obj_size(&self, s: &State, addr: u64) -> Option<u64> {
        let id = addr >> BASE_SHIFT;
        if id == 0 {
            return None;
        }
        if id < self.hbase as u64 {
            let g = (id - 1) as u32;
            if let Some(o) = s.gover.get(&g) {
                return Some(o.data.len() as u64);
            }
            return self.m.globals[g as usize].data.as_ref().map(|d| d.len() as u64);
        }
        if id == self.hbase as u64 {
            return None;
        }
        let id = (id - self.hbase as u64 - 1) as usize;
        s.chunks.get(id / CH).and_then(|c| c[id % CH].as_ref()).map(|o| o.data.len() as u64)
    }
    /// Run `f` on the bytes and symbolic overlay of the object.
    fn rd<'a>(&'a self, s: &'a State, addr: u64, n: u64) -> X<(&'a [u8], &'a [u32])> {
        let id = addr >> BASE_SHIFT;
        let off = (addr & 0xffff_ffff) as usize;
        let n = n as usize;
        if id == 0 {
            return self.oob("read", addr, n as u64);
        }
        let (d, sy): (&[u8], &[u32]) = if id < self.hbase as u64 {
            let g = (id - 1) as u32;
            match s.gover.get(&g) {
                Some(o) => (&o.data, &o.sym),
                None => match &self.m.globals[g as usize].data {
                    Some(d) => (d, &[]),
                    None => return unsup(format!("read of external global {}", self.m.globals[g as usize].name)),
                },
            }
        } else if id == self.hbase as u64 {
            return self.oob("read", addr, n as u64);
        } else {
            let i = (id - self.hbase as u64 - 1) as usize;
            match s.chunks.get(i / CH).and_then(|c| c[i % CH].as_ref()) {
                Some(o) => (&o.data, &o.sym),
                None => return self.oob("read of freed memory", addr, n as u64),
            }
        };
        if off + n > d.len() {
            return self.oob("read", addr, n as u64);
        }
        Ok((&d[off..off + n], if sy.is_empty() { sy } else { &sy[off..off + n] }))
    }
    fn wr<'a>(&self, s: &'a mut State, addr: u64, n: u64) -> X<(&'a mut Obj, usize)> {
        let id = addr >> BASE_SHIFT;
        let off = (addr & 0xffff_ffff) as usize;
        if id == 0 || id == self.hbase as u64 {
            return self.oob("write", addr, n);
        }
        let o = if id < self.hbase as u64 {
            let g = (id - 1) as u32;
            if !s.gover.contains_key(&g) {
                let gl = &self.m.globals[g as usize];
                match &gl.data {
                    Some(d) if !gl.constant => {
                        let o = Obj { data: d.to_vec(), sym: vec![], ro: false };
                        Rc::make_mut(&mut s.gover).insert(g, Rc::new(o));
                    }
                    _ => return self.oob("write to constant", addr, n),
                }
            }
            Rc::make_mut(Rc::make_mut(&mut s.gover).get_mut(&g).unwrap())
        } else {
            let i = (id - self.hbase as u64 - 1) as usize;
            if i / CH >= s.chunks.len() {
                return self.oob("write", addr, n);
            }
            match Rc::make_mut(&mut s.chunks[i / CH])[i % CH].as_mut() {
                Some(o) => Rc::make_mut(o),
                None => return self.oob("write to freed memory", addr, n),
            }
        };
        if off + n as usize > o.data.len() {
            return self.oob("write", addr, n);
        }
        Ok((o, off))
    }
    fn load_int(&mut self, s: &State, addr: u64, w: u32) -> X<Val> {
        let n = w.div_ceil(8) as u64;
        let (d, sy) = self.rd(s, addr, n)?;
        if sy.is_empty() || sy.iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(d);
                let mut v = u64::from_le_bytes(b);
                if w < 64 {
                    v &= (1 << w) - 1;
                }
                return Ok(Val::C(v));
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(d);
            return Ok(Parser::mkint(w, u128::from_le_bytes(b)));
        }
        let bytes: Vec<(u8, u32)> = d.iter().copied().zip(sy.iter().copied()).collect();
        let mut acc: Option<Id> = None;
        for (b, e) in bytes.into_iter().rev() {
            let x = if e == 0 { self.a.cst(8, b as u128) } else { e };
            acc = Some(match acc {
                None => x,
                Some(h) => self.a.concat(h, x),
            });
        }
        let mut r = acc.unwrap();
        if self.a.w(r) > w {
            r = self.a.extract(r, 0, w);
        }
        Ok(self.vl(r))
    }
    fn store_int(&mut self, s: &mut State, addr: u64, w: u32, v: &Val) -> X<()> {
        let n = w.div_ceil(8);
        match v {
            Val::C(_) | Val::W(_) | Val::U => {
                let b = match v {
                    Val::C(c) => (*c as u128).to_le_bytes(),
                    Val::W(c) => c.to_le_bytes(),
                    _ => [0; 16],
                };
                let (o, off) = self.wr(s, addr, n as u64)?;
                o.data[off..off + n as usize].copy_from_slice(&b[..n as usize]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n as usize].fill(0);
                }
                Ok(())
            }
            Val::E(e) => {
                let mut e = *e;
                if self.a.w(e) < n * 8 {
                    e = self.a.zext(e, n * 8);
                }
                let parts: Vec<Id> = (0..n).map(|i| self.a.extract(e, i * 8, 8)).collect();
                let cs: Vec<Option<u128>> = parts.iter().map(|p| self.a.as_const(*p)).collect();
                let (o, off) = self.wr(s, addr, n as u64)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n as usize {
                    match cs[i] {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = 0;
                        }
                        None => {
                            o.data[off + i] = 0;
                            o.sym[off + i] = parts[i];
                        }
                    }
                }
                Ok(())
            }
            Val::A(_) => unsup("store aggregate as int"),
        }
    }
    fn load(&mut self, s: &State, addr: u64, ty: TyId) -> X<Val> {
        let m = self.m;
        match &m.types.list[ty as usize] {
            Ty::Int(w) => self.load_int(s, addr, *w),
            Ty::Ptr | Ty::F64 => self.load_int(s, addr, 64),
            Ty::F32 => self.load_int(s, addr, 32),
            Ty::Arr(n, e) => {
                let sz = m.types.size[*e as usize];
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(s, addr + i * sz, *e)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::Vec(n, e) => {
                let w = m.types.width(*e);
                if w % 8 != 0 {
                    if w != 1 || n % 8 != 0 || *n > 64 {
                        return unsup("load of bit vector");
                    }
                    let whole = self.load_int(s, addr, *n as u32)?;
                    let e = self.ex(&whole, *n as u32);
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..*n as u32 {
                        let b = self.a.extract(e, i, 1);
                        v.push(self.vl(b));
                    }
                    return Ok(Val::A(Arc::new(v)));
                }
                let sz = w as u64 / 8;
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    v.push(self.load_int(s, addr + i * sz, w)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = Vec::with_capacity(fs.len());
                for i in 0..fs.len() {
                    let (o, t) = m.types.field_off(ty, i as u64);
                    v.push(self.load(s, addr + o, t)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            t => unsup(format!("load of {t:?}")),
        }
    }
    fn store(&mut self, s: &mut State, addr: u64, ty: TyId, v: &Val) -> X<()> {
        let m = self.m;
        match &m.types.list[ty as usize] {
            Ty::Int(w) => self.store_int(s, addr, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(s, addr, 64, v),
            Ty::F32 => self.store_int(s, addr, 32, v),
            Ty::Arr(n, e) => {
                let sz = m.types.size[*e as usize];
                for i in 0..*n {
                    let x = elem(v, i as usize);
                    self.store(s, addr + i * sz, *e, &x)?;
                }
                Ok(())
            }
            Ty::Vec(n, e) => {
                let w = m.types.width(*e);
                if w % 8 != 0 {
                    if w != 1 || n % 8 != 0 || *n > 64 {
                        return unsup("store of bit vector");
                    }
                    let mut acc: Option<Id> = None;
                    for i in 0..*n as usize {
                        let x = elem(v, i);
                        let b = self.ex(&x, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(l) => self.a.concat(b, l),
                        });
                    }
                    let whole = self.vl(acc.unwrap());
                    return self.store_int(s, addr, *n as u32, &whole);
                }
                let sz = w as u64 / 8;
                for i in 0..*n as u64 {
                    let x = elem(v, i as usize);
                    self.store_int(s, addr + i * sz, w, &x)?;
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                for i in 0..fs.len() {
                    let (o, t) = m.types.field_off(ty, i as u64);
                    let x = elem(v, i);
                    self.store(s, addr + o, t, &x)?;
                }
                Ok(())
            }
            t => unsup(format!("store of {t:?}")),
        }
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (d, sy) = self.rd(s, src, n)?;
        let (d, sy) = (d.to_vec(), sy.to_vec());
        let (o, off) = self.wr(s, dst, n)?;
        let n = n as usize;
        o.data[off..off + n].copy_from_slice(&d);
        if sy.iter().any(|x| *x != 0) {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[off..off + n].copy_from_slice(&sy);
        } else if !o.sym.is_empty() {
            o.sym[off..off + n].fill(0);
        }
        Ok(())
    }
    pub fn read_bytes(&self, s: &State, addr: u64, n: u64) -> Option<Vec<u8>> {
        if n == 0 {
            return Some(vec![]);
        }
        self.rd(s, addr, n).ok().map(|(d, _)| d.to_vec())
    }
    fn str_at(&self, s: &State, p: &Val, l: &Val) -> String {
        match (p, l) {
            (Val::C(p), Val::C(l)) if *l < 4096 => self.read_bytes(s, *p, *l).map_or("?".into(), |b| String::from_utf8_lossy(&b).into_owned()),
            _ => "?".into(),
        }
    }

    /// Symbolic-address load from concrete memory as a lookup table.
    fn try_table(&mut self, s: &State, e: Id, w: u32) -> Option<Val> {
        if w > 64 {
            return None;
        }
        let n = self.a.nodes[e as usize];
        if n.op != O::Add {
            return None;
        }
        let k = self.a.as_const(n.b)? as u64;
        let x = n.a;
        let base = k >> BASE_SHIFT << BASE_SHIFT;
        let off = k & 0xffff_ffff;
        let size = self.obj_size(s, base)?;
        let nb = w.div_ceil(8) as u64;
        if size < nb || size > 65536 {
            return None;
        }
        let (d, sy) = self.rd(s, base, size).ok()?;
        if sy.iter().any(|x| *x != 0) {
            return None;
        }
        let d = d.to_vec();
        let last = size - nb;
        // index expression in bytes
        let (mut ix, mut stride) = (x, 1u64);
        {
            // strip shifts: zext(concat(h, 0_k)) or concat(h, 0_k)
            let mut nn = self.a.nodes[x as usize];
            if nn.op == O::ZExt {
                nn = self.a.nodes[nn.a as usize];
            }
            if nn.op == O::Concat && self.a.as_const(nn.b) == Some(0) {
                let k = self.a.w(nn.b);
                ix = nn.a;
                stride = 1 << k;
            }
        }
        let max = self.a.umax[ix as usize];
        let maxidx = if off > last { return None } else { (last - off) / stride };
        if max > maxidx as u128 {
            let wi = self.a.w(ix);
            if (maxidx as u128) < ones(wi) {
                let k = self.a.cst(wi, maxidx as u128);
                let c = self.a.ult(k, ix);
                let (r, _) = self.check(&s.pc, c, false);
                if r != Res::Unsat {
                    return None;
                }
            }
        }
        let cnt = (maxidx as u128 + 1).min(max + 1) as u64;
        if cnt > 8192 {
            return None;
        }
        let t: Vec<u64> = (0..cnt)
            .map(|i| {
                let p = (off + i * stride) as usize;
                let mut b = [0u8; 8];
                b[..nb as usize].copy_from_slice(&d[p..p + nb as usize]);
                let v = u64::from_le_bytes(b);
                if w < 64 {
                    v & ((1 << w) - 1)
                } else {
                    v
                }
            })
            .collect();
        let r = self.a.table(ix, t, w);
        Some(self.vl(r))
    }

    // ---------------------------------------------------------------- arithmetic
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                return Val::C(bin64(op, w, *x, *y));
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.a.bin(to_o(op), x, y);
        self.vl(r)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                return Val::C(icmp64(p, w, *x, *y) as u64);
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.a.eq(x, y),
            Pred::Ne => {
                let e = self.a.eq(x, y);
                self.a.not(e)
            }
            Pred::Ult => self.a.ult(x, y),
            Pred::Ugt => self.a.ult(y, x),
            Pred::Ule => {
                let e = self.a.ult(y, x);
                self.a.not(e)
            }
            Pred::Uge => {
                let e = self.a.ult(x, y);
                self.a.not(e)
            }
            Pred::Slt => self.a.slt(x, y),
            Pred::Sgt => self.a.slt(y, x),
            Pred::Sle => {
                let e = self.a.slt(y, x);
                self.a.not(e)
            }
            Pred::Sge => {
                let e = self.a.slt(x, y);
                self.a.not(e)
            }
        };
        self.vl(r)
    }
    fn lanes2(&mut self, n: u32, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, &Val, &Val) -> Val) -> Val {
        if n == 0 {
            return f(self, a, b);
        }
        let v = (0..n as usize).map(|i| f(self, &elem(a, i), &elem(b, i))).collect();
        Val::A(Arc::new(v))
    }
    fn fbin(&mut self, op: FBin, w: u32, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let o = match op {
            FBin::Add => O::FAdd,
            FBin::Sub => O::FSub,
            FBin::Mul => O::FMul,
            FBin::Div => O::FDiv,
            FBin::Rem => {
                if let (Some(x), Some(y)) = (self.a.as_const(x), self.a.as_const(y)) {
                    return Val::C((f64::from_bits(x as u64) % f64::from_bits(y as u64)).to_bits());
                }
                O::FDiv
            }
        };
        let r = self.a.fp(o, x, y);
        self.vl(r)
    }
    fn fcmp(&mut self, p: u8, w: u32, a: &Val, b: &Val) -> Val {
        // ["false","oeq","ogt","oge","olt","ole","one","ord","ueq","ugt","uge","ult","ule","une","uno","true"]
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            0 => self.a.fls(),
            1 => self.a.fp(O::FEq, x, y),
            2 => self.a.fp(O::FLt, y, x),
            3 => self.a.fp(O::FLe, y, x),
            4 => self.a.fp(O::FLt, x, y),
            5 => self.a.fp(O::FLe, x, y),
            6 => {
                let p = self.a.fp(O::FLt, x, y);
                let q = self.a.fp(O::FLt, y, x);
                self.a.or(p, q)
            }
            7 => {
                let u = self.a.fp(O::FUno, x, y);
                self.a.not(u)
            }
            8 => {
                let p = self.a.fp(O::FLt, x, y);
                let q = self.a.fp(O::FLt, y, x);
                let r = self.a.or(p, q);
                self.a.not(r)
            }
            9 => {
                let p = self.a.fp(O::FLe, x, y);
                self.a.not(p)
            }
            10 => {
                let p = self.a.fp(O::FLt, x, y);
                self.a.not(p)
            }
            11 => {
                let p = self.a.fp(O::FLe, y, x);
                self.a.not(p)
            }
            12 => {
                let p = self.a.fp(O::FLt, y, x);
                self.a.not(p)
            }
            13 => {
                let p = self.a.fp(O::FEq, x, y);
                self.a.not(p)
            }
            14 => self.a.fp(O::FUno, x, y),
            _ => self.a.tru(),
        };
        self.vl(r)
    }
    fn pieces(&self, v: &Val, ty: TyId) -> X<Vec<(Val, u32)>> {
        match &self.m.types.list[ty as usize] {
            Ty::Vec(n, e) => {
                let w = self.m.types.width(*e);
                Ok((0..*n as usize).map(|i| (elem(v, i), w)).collect())
            }
            _ => {
                let w = self.m.types.width(ty);
                if w == 0 {
                    return unsup("bitcast of aggregate");
                }
                Ok(vec![(v.clone(), w)])
            }
        }
    }
    fn bitcast(&mut self, v: &Val, from: TyId, to: TyId) -> X<Val> {
        if from == to {
            return Ok(v.clone());
        }
        let (fv, tv) = (matches!(self.m.types.list[from as usize], Ty::Vec(..)), matches!(self.m.types.list[to as usize], Ty::Vec(..)));
        if !fv && !tv {
            return Ok(v.clone());
        }
        let mut src: std::collections::VecDeque<(Val, u32)> = self.pieces(v, from)?.into();
        let (n, w) = match &self.m.types.list[to as usize] {
            Ty::Vec(n, e) => (*n, self.m.types.width(*e)),
            _ => (0, self.m.types.width(to)),
        };
        let mut out = vec![];
        for _ in 0..n.max(1) {
            let mut acc: Option<Id> = None;
            let mut have = 0;
            while have < w {
                let (x, xw) = src.pop_front().ok_or_else(|| Stop::Unsupported("bitcast size".into()))?;
                let e = self.ex(&x, xw);
                let take = xw.min(w - have);
                let lo = self.a.extract(e, 0, take);
                if take < xw {
                    let hi = self.a.extract(e, take, xw - take);
                    let hv = self.vl(hi);
                    src.push_front((hv, xw - take));
                }
                acc = Some(match acc {
                    None => lo,
                    Some(l) => self.a.concat(lo, l),
                });
                have += take;
            }
            out.push(self.vl(acc.unwrap()));
        }
        if tv {
            Ok(Val::A(Arc::new(out)))
        } else {
            Ok(out.pop().unwrap())
        }
    }
    fn cast(&mut self, k: Cast, v: &Val, from: TyId, to: TyId) -> X<Val> {
        if k == Cast::BitCast {
            return self.bitcast(v, from, to);
        }
        let (fw, tw, n) = match (&self.m.types.list[from as usize], &self.m.types.list[to as usize]) {
            (Ty::Vec(n, e), Ty::Vec(_, e2)) => (self.m.types.width(*e), self.m.types.width(*e2), *n),
            _ => (self.m.types.width(from), self.m.types.width(to), 0),
        };
        let z = Val::C(0);
        Ok(self.lanes2(n, v, &z, |s, x, _| s.cast1(k, x, fw, tw)))
    }
    fn cast1(&mut self, k: Cast, v: &Val, fw: u32, tw: u32) -> Val {
        if let Val::C(c) = v {
            if fw <= 64 && tw <= 64 {
                match k {
                    Cast::Trunc => return Val::C(if tw == 64 { *c } else { c & ((1 << tw) - 1) }),
                    Cast::ZExt => return Val::C(*c),
                    Cast::SExt => {
                        let s = sx(*c, fw) as u64;
                        return Val::C(if tw == 64 { s } else { s & ((1 << tw) - 1) });
                    }
                    _ => {}
                }
            }
        }
        let e = self.ex(v, fw);
        let r = match k {
            Cast::Trunc => self.a.extract(e, 0, tw),
            Cast::ZExt => self.a.zext(e, tw),
            Cast::SExt => self.a.sext(e, tw),
            Cast::FpToUi => self.a.fcvt(O::FToU, e, tw),
            Cast::FpToSi => self.a.fcvt(O::FToS, e, tw),
            Cast::UiToFp => self.a.fcvt(O::UToF, e, tw),
            Cast::SiToFp => self.a.fcvt(O::SToF, e, tw),
            Cast::FpExt | Cast::FpTrunc => self.a.fcvt(O::FCvt, e, tw),
            Cast::BitCast => e,
        };
        self.vl(r)
    }
    fn ite_val(&mut self, c: Id, a: &Val, b: &Val, ty: TyId) -> X<Val> {
        let w = self.m.types.width(ty);
        if w > 0 {
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            let r = self.a.ite(c, x, y);
            return Ok(self.vl(r));
        }
        match &self.m.types.list[ty as usize] {
            Ty::Vec(n, e) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.ite_val(c, &elem(a, i), &elem(b, i), *e)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            _ => unsup("select of aggregate"),
        }
    }

    // ---------------------------------------------------------------- control
    fn jump(&mut self, s: &mut State, t: &Target) {
        let f = self.m.globals[s.cur.func as usize].func.as_ref().unwrap();
        match t.moves.len() {
            0 => {}
            1 => {
                let (d, o) = t.moves[0];
                s.cur.regs[d as usize] = self.op(s, o);
            }
            _ => {
                let vals: Vec<Val> = t.moves.iter().map(|(_, o)| self.op(s, *o)).collect();
                for ((d, _), v) in t.moves.iter().zip(vals) {
                    s.cur.regs[*d as usize] = v;
                }
            }
        }
        s.cur.ip = f.blocks[t.bb as usize];
    }
    pub fn initial(&self, func: u32, args: &[u64], prefix: Vec<Dec>, model: Vec<u64>) -> State {
        let f = self.m.globals[func as usize].func.as_ref().unwrap();
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, a) in args.iter().enumerate().take(f.nparams as usize) {
            regs[i] = Val::C(*a);
        }
        State {
            cur: Frame { func, ip: 0, regs, allocs: vec![] },
            stack: vec![],
            chunks: vec![],
            free: vec![],
            next: 0,
            gover: Rc::new(HashMap::new()),
            pc: Pc { model, ..Pc::default() },
            obs: vec![],
            trace: None,
            tlen: 0,
            idec: vec![],
            idec_done: true,
            pending: Rc::new(prefix),
            ppos: 0,
            steps: 0,
        }
    }
    /// The full decision list leading to (and pending in) this state.
    pub fn prefix_of(s: &State) -> Vec<Dec> {
        let mut v = vec![];
        let mut t = &s.trace;
        while let Some(n) = t {
            v.push(n.d);
            t = &n.prev;
        }
        v.reverse();
        v.extend(s.pending[s.ppos..].iter().copied());
        v
    }

    pub fn run(&mut self, s: &mut State) -> Stop {
        let mut n = 0u32;
        let r = loop {
            if !s.idec.is_empty() {
                let ds = std::mem::take(&mut s.idec);
                for d in ds {
                    s.trace = Some(Rc::new(TraceNode { d, prev: s.trace.take() }));
                    s.tlen += 1;
                }
            }
            n += 1;
            if n & 0xfff == 0 {
                if self.stop.load(Ordering::Relaxed) || Instant::now() > self.deadline {
                    break Stop::Deadline;
                }
                s.steps += 0x1000;
                if s.steps > self.max_steps {
                    break Stop::Limit("step limit per path".into());
                }
            }
            let m = self.m;
            let f: &Func = m.globals[s.cur.func as usize].func.as_ref().unwrap();
            let inst: &Inst = &f.code[s.cur.ip as usize];
            match self.step(s, inst) {
                Ok(Flow::Next) => s.cur.ip += 1,
                Ok(Flow::Jump) => {}
                Err(e) => break e,
            }
        };
        self.st.steps += n as u64;
        r
    }

    fn set(&self, s: &mut State, dst: u32, v: Val) {
        if dst != u32::MAX {
            s.cur.regs[dst as usize] = v;
        }
    }

    fn step(&mut self, s: &mut State, inst: &Inst) -> X<Flow> {
        match inst {
            Inst::Bin { op, w, lanes, dst, a, b } => {
                let (x, y) = (self.op(s, *a), self.op(s, *b));
                let v = if *lanes == 0 { self.bin(*op, *w, &x, &y) } else { self.lanes2(*lanes, &x, &y, |z, p, q| z.bin(*op, *w, p, q)) };
                s.cur.regs[*dst as usize] = v;
            }
            Inst::ICmp { p, w, lanes, dst, a, b } => {
                let (x, y) = (self.op(s, *a), self.op(s, *b));
                let v = if *lanes == 0 { self.icmp(*p, *w, &x, &y) } else { self.lanes2(*lanes, &x, &y, |z, c, d| z.icmp(*p, *w, c, d)) };
                s.cur.regs[*dst as usize] = v;
            }
            Inst::FBin { op, w, lanes, dst, a, b } => {
                let (x, y) = (self.op(s, *a), self.op(s, *b));
                let v = self.lanes2(*lanes, &x, &y, |z, p, q| z.fbin(*op, *w, p, q));
                s.cur.regs[*dst as usize] = v;
            }
            Inst::FCmp { p, w, lanes, dst, a, b } => {
                let (x, y) = (self.op(s, *a), self.op(s, *b));
                let v = self.lanes2(*lanes, &x, &y, |z, c, d| z.fcmp(*p, *w, c, d));
                s.cur.regs[*dst as usize] = v;
            }
            Inst::FNeg { w, lanes, dst, a } => {
                let x = self.op(s, *a);
                let sign = Val::C(1u64 << (*w - 1));
                let v = self.lanes2(*lanes, &x, &x.clone(), |z, p, _| z.bin(Bin::Xor, *w, p, &sign));
                s.cur.regs[*dst as usize] = v;
            }
            Inst::Cast { k, from, to, dst, a } => {
                let x = self.op(s, *a);
                let v = self.cast(*k, &x, *from, *to)?;
                s.cur.regs[*dst as usize] = v;
            }
            Inst::Select { dst, c, a, b, ty, cvec } => {
                let cv = self.op(s, *c);
                let v = if *cvec {
                    let (x, y) = (self.op(s, *a), self.op(s, *b));
                    let Ty::Vec(n, e) = &self.m.types.list[*ty as usize] else { return unsup("select") };
                    let (n, e) = (*n, *e);
                    let mut out = vec![];
                    for i in 0..n as usize {
                        let ci = elem(&cv, i);
                        let id = self.ex(&ci, 1);
                        out.push(self.ite_val(id, &elem(&x, i), &elem(&y, i), e)?);
                    }
                    Val::A(Arc::new(out))
                } else {
                    match cv {
                        Val::C(k) => self.op(s, if k & 1 == 1 { *a } else { *b }),
                        Val::U => self.op(s, *b),
                        Val::E(e) => {
                            let (x, y) = (self.op(s, *a), self.op(s, *b));
                            let isptr = matches!(self.m.types.list[*ty as usize], Ty::Ptr | Ty::Struct(..) | Ty::Arr(..));
                            if isptr && !same(&x, &y) {
                                if self.decide(s, e)? {
                                    x
                                } else {
                                    y
                                }
                            } else if isptr {
                                x
                            } else {
                                self.ite_val(e, &x, &y, *ty)?
                            }
                        }
                        _ => return unsup("select cond"),
                    }
                };
                s.cur.regs[*dst as usize] = v;
            }
            Inst::Gep { dst, base, off, vars } => {
                let mut v = self.op(s, *base);
                if *off != 0 {
                    v = self.bin(Bin::Add, 64, &v, &Val::C(*off as u64));
                }
                for (o, w, scale) in vars.iter() {
                    let x = self.op(s, *o);
                    let x = if *w < 64 { self.cast1(Cast::SExt, &x, *w, 64) } else { x };
                    let x = if *scale != 1 { self.bin(Bin::Mul, 64, &x, &Val::C(*scale as u64)) } else { x };
                    v = self.bin(Bin::Add, 64, &v, &x);
                }
                s.cur.regs[*dst as usize] = v;
            }
            Inst::Load { dst, p, ty } => {
                let pv = self.op(s, *p);
                if let Val::E(e) = pv {
                    let w = self.m.types.width(*ty);
                    if w > 0 {
                        if let Some(v) = self.try_table(s, e, w) {
                            s.cur.regs[*dst as usize] = v;
                            return Ok(Flow::Next);
                        }
                    }
                }
                let a = self.conc(s, &pv, 64)?;
                let v = self.load(s, a, *ty)?;
                s.cur.regs[*dst as usize] = v;
            }
            Inst::Store { v, p, ty } => {
                let pv = self.op(s, *p);
                let a = self.conc(s, &pv, 64)?;
                let x = self.op(s, *v);
                self.store(s, a, *ty, &x)?;
            }
            Inst::Alloca { dst, size, n } => {
                let nv = self.op(s, *n);
                let n = self.conc(s, &nv, 64)?;
                let p = self.new_obj(s, size * n);
                s.cur.allocs.push(((p >> BASE_SHIFT) - self.hbase as u64 - 1) as u32);
                s.cur.regs[*dst as usize] = Val::C(p);
            }
            Inst::Move { dst, a } => {
                let v = self.op(s, *a);
                s.cur.regs[*dst as usize] = v;
            }
            Inst::ExtractValue { dst, a, idx } => {
                let mut v = self.op(s, *a);
                for i in idx.iter() {
                    v = elem(&v, *i as usize);
                }
                s.cur.regs[*dst as usize] = v;
            }
            Inst::InsertValue { dst, a, v, idx, ty } => {
                let base = self.op(s, *a);
                let x = self.op(s, *v);
                let r = self.insert(&base, *ty, idx, x);
                s.cur.regs[*dst as usize] = r;
            }
            Inst::ExtractElt { dst, a, i } => {
                let iv = self.op(s, *i);
                let i = self.conc(s, &iv, 64)?;
                let v = elem(&self.op(s, *a), i as usize);
                s.cur.regs[*dst as usize] = v;
            }
            Inst::InsertElt { dst, a, v, i, ty } => {
                let iv = self.op(s, *i);
                let i = self.conc(s, &iv, 64)?;
                let base = self.op(s, *a);
                let x = self.op(s, *v);
                let r = self.insert(&base, *ty, &[i as u32], x);
                s.cur.regs[*dst as usize] = r;
            }
            Inst::Shuffle { dst, a, b, mask, n, .. } => {
                let (x, y) = (self.op(s, *a), self.op(s, *b));
                let v = mask
                    .iter()
                    .map(|i| {
                        let i = *i as usize;
                        if i < *n as usize {
                            elem(&x, i)
                        } else {
                            elem(&y, i - *n as usize)
                        }
                    })
                    .collect();
                s.cur.regs[*dst as usize] = Val::A(Arc::new(v));
            }
            Inst::AtomicRmw { op, dst, p, v, ty } => {
                let pv = self.op(s, *p);
                let a = self.conc(s, &pv, 64)?;
                let x = self.op(s, *v);
                let w = self.m.types.width(*ty);
                let old = self.load(s, a, *ty)?;
                let new = match op {
                    0 => x,
                    1 => self.bin(Bin::Add, w, &old, &x),
                    2 => self.bin(Bin::Sub, w, &old, &x),
                    3 => self.bin(Bin::And, w, &old, &x),
                    5 => self.bin(Bin::Or, w, &old, &x),
                    6 => self.bin(Bin::Xor, w, &old, &x),
                    _ => return unsup("atomicrmw"),
                };
                self.store(s, a, *ty, &new)?;
                s.cur.regs[*dst as usize] = old;
            }
            Inst::CmpXchg { dst, p, cmp, new, ty } => {
                let pv = self.op(s, *p);
                let a = self.conc(s, &pv, 64)?;
                let w = self.m.types.width(*ty);
                let old = self.load(s, a, *ty)?;
                let c = self.op(s, *cmp);
                let eq = self.icmp(Pred::Eq, w, &old, &c);
                let e = self.ex(&eq, 1);
                let b = self.decide(s, e)?;
                if b {
                    let x = self.op(s, *new);
                    self.store(s, a, *ty, &x)?;
                }
                s.cur.regs[*dst as usize] = Val::A(Arc::new(vec![old, Val::C(b as u64)]));
            }
            Inst::Nop => {}
            Inst::Br(t) => {
                self.jump(s, t);
                return Ok(Flow::Jump);
            }
            Inst::CondBr { c, t, f } => {
                let cv = self.op(s, *c);
                let b = match cv {
                    Val::C(k) => k & 1 == 1,
                    Val::U => false,
                    Val::E(e) => self.decide(s, e)?,
                    _ => return unsup("branch condition"),
                };
                self.jump(s, if b { t } else { f });
                return Ok(Flow::Jump);
            }
            Inst::Switch { v, w, default, cases, map } => {
                let x = self.op(s, *v);
                let t: &Target = match x {
                    Val::C(k) => match map.get(&k) {
                        Some(&i) => &cases[i as usize].1,
                        None => default,
                    },
                    Val::E(e) => {
                        let i = self.switch(s, e, *w, default, cases)?;
                        if i == u64::MAX {
                            default
                        } else {
                            &cases[i as usize].1
                        }
                    }
                    _ => default,
                };
                self.jump(s, t);
                return Ok(Flow::Jump);
            }
            Inst::Ret(v) => {
                let rv = v.map(|o| self.op(s, o));
                for a in std::mem::take(&mut s.cur.allocs) {
                    let (c, k) = (a as usize / CH, a as usize % CH);
                    Rc::make_mut(&mut s.chunks[c])[k] = None;
                    s.free.push(a);
                }
                let Some(fr) = s.stack.pop() else { return Err(Stop::Done) };
                s.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                let m = self.m;
                let f = m.globals[s.cur.func as usize].func.as_ref().unwrap();
                let Inst::Call { dst, next, .. } = &f.code[s.cur.ip as usize] else { return unsup("ret to non-call") };
                if let Some(v) = rv {
                    self.set(s, *dst, v);
                }
                if let Some(t) = next {
                    self.jump(s, t);
                } else {
                    s.cur.ip += 1;
                }
                return Ok(Flow::Jump);
            }
            Inst::Unreachable => return Err(Stop::Violation { kind: "unreachable", label: "unreachable executed".into() }),
            Inst::Unsupported(m) => return unsup(m.to_string()),
            Inst::Call { dst, ty, callee, args, argtys, next } => {
                let g = match callee {
                    Callee::Direct(g) => *g,
                    Callee::Indirect(o) => {
                        let v = self.op(s, *o);
                        let a = self.conc(s, &v, 64)?;
                        match self.m.func_of_addr(a) {
                            Some(g) => g,
                            None => return Err(Stop::Violation { kind: "memory", label: format!("call of non-function {a:#x}") }),
                        }
                    }
                    Callee::Asm(t) => {
                        if t.starts_with('|') {
                            // empty asm: optimisation barrier
                            if let Some(o) = args.first() {
                                let v = self.op(s, *o);
                                self.set(s, *dst, v);
                            }
                            return Ok(Flow::Next);
                        }
                        return unsup(format!("inline asm {t}"));
                    }
                };
                let gl = &self.m.globals[g as usize];
                self.fcount[g as usize] += 1;
                if gl.builtin != 0 {
                    let av: Vec<Val> = args.iter().map(|o| self.op(s, *o)).collect();
                    let r = self.builtin(s, gl.builtin, &gl.name, &av, argtys, *ty)?;
                    self.set(s, *dst, r);
                    if let Some(t) = next {
                        self.jump(s, t);
                        return Ok(Flow::Jump);
                    }
                    return Ok(Flow::Next);
                }
                let Some(f) = &gl.func else { return unsup(format!("call of external {}", gl.name)) };
                if s.stack.len() > 3000 {
                    return Err(Stop::Violation { kind: "stack", label: "call depth over 3000".into() });
                }
                let mut regs = vec![Val::U; f.nregs as usize];
                for (i, o) in args.iter().enumerate().take(f.nparams as usize) {
                    regs[i] = self.op(s, *o);
                }
                let old = std::mem::replace(&mut s.cur, Frame { func: g, ip: 0, regs, allocs: vec![] });
                s.stack.push(Rc::new(old));
                return Ok(Flow::Jump);
            }
        }
        Ok(Flow::Next)
    }
    fn insert(&self, base: &Val, ty: TyId, idx: &[u32], x: Val) -> Val {
        if idx.is_empty() {
            return x;
        }
        let (n, sub) = match &self.m.types.list[ty as usize] {
            Ty::Struct(fs, _) => (fs.len(), fs[idx[0] as usize]),
            Ty::Arr(n, e) => (*n as usize, *e),
            Ty::Vec(n, e) => (*n as usize, *e),
            _ => (0, 0),
        };
        let mut v: Vec<Val> = (0..n).map(|i| elem(base, i)).collect();
        let i = idx[0] as usize;
        if i >= n {
            return base.clone();
        }
        v[i] = self.insert(&v[i].clone(), sub, &idx[1..], x);
        Val::A(Arc::new(v))
    }
    fn switch(&mut self, s: &mut State, e: Id, w: u32, default: &Target, cases: &[(u64, Target)]) -> X<u64> {
        // conditions grouped by identical target
        let same_t = |a: &Target, b: &Target| a.bb == b.bb && a.moves.len() == b.moves.len() && a.moves.iter().zip(b.moves.iter()).all(|((d1, o1), (d2, o2))| d1 == d2 && same_op(*o1, *o2));
        let mut groups: Vec<(u64, Id)> = vec![];
        let mut any = self.a.fls();
        for (i, (k, t)) in cases.iter().enumerate() {
            let kk = self.a.cst(w, *k as u128);
            let c = self.a.eq(e, kk);
            if self.a.as_const(c) == Some(0) {
                continue;
            }
            if same_t(t, default) {
                continue;
            }
            any = self.a.or(any, c);
            match groups.iter_mut().find(|(j, _)| same_t(&cases[*j as usize].1, t)) {
                Some(g) => g.1 = self.a.or(g.1, c),
                None => groups.push((i as u64, c)),
            }
        }
        let d = self.a.not(any);
        groups.push((u64::MAX, d));
        self.st.decisions += 1;
        if let Some(dd) = self.pop_pending(s) {
            s.idec.push(dd);
            if !dd.forced {
                let c = groups.iter().find(|(i, _)| *i == dd.v).map(|g| g.1).ok_or(Stop::Infeasible)?;
                self.ensure_model(s, c)?;
                if !self.add(&mut s.pc, c) {
                    return Err(Stop::Infeasible);
                }
            }
            return Ok(dd.v);
        }
        let mut cur = None;
        let mut others = vec![];
        for (i, c) in groups {
            if cur.is_none() && self.a.eval(c, &s.pc.model) != 0 {
                cur = Some((i, c));
                continue;
            }
            let (r, m) = self.check(&s.pc, c, false);
            match r {
                Res::Sat => others.push((i, m)),
                Res::Unsat => {}
                Res::Unknown => *self.st.limits.entry("solver unknown at switch".into()).or_default() += 1,
            }
        }
        let Some((i, c)) = cur else { return unsup("switch: model inconsistent") };
        if others.is_empty() {
            s.idec.push(Dec { v: i, forced: true });
            return Ok(i);
        }
        for (j, m) in others {
            self.fork(s, Dec { v: j, forced: false }, m);
        }
        s.idec.push(Dec { v: i, forced: false });
        self.add(&mut s.pc, c);
        Ok(i)
    }

    // ---------------------------------------------------------------- reporting
    pub fn values_of(&self, pc: &Pc, model: &[u64]) -> Vec<(u32, u64)> {
        pc.widths.iter().enumerate().map(|(i, w)| (*w as u32, model.get(i).copied().unwrap_or(0) & ones(*w as u32) as u64)).collect()
    }
    pub fn obs_of(&mut self, s: &State, model: &[u64]) -> Vec<u64> {
        let o = s.obs.clone();
        o.iter()
            .map(|(v, w)| {
                let e = self.ex(v, *w);
                self.a.eval(e, model) as u64
            })
            .collect()
    }
    pub fn violation(&mut self, s: &State, kind: &'static str, label: String, model: &[u64]) {
        self.st.violated += 1;
        let key = (self.inst, format!("{kind}:{label}"));
        let n = self.vcount.entry(key).or_default();
        *n += 1;
        if *n > 3 {
            return;
        }
        let values = self.values_of(&s.pc, model);
        let obs = self.obs_of(s, model);
        let mut stack: Vec<String> = s.stack.iter().map(|f| self.m.globals[f.func as usize].name.clone()).collect();
        stack.push(self.m.globals[s.cur.func as usize].name.clone());
        self.violations.push(Violation { inst: self.inst, kind, label, values, obs, stack });
    }
    pub fn fresh(&mut self, s: &mut State, w: u32) -> X<Val> {
        let i = s.pc.widths.len();
        if i >= 128 {
            return unsup("more than 128 symbolic inputs");
        }
        self.st.maxvars = self.st.maxvars.max(i as u64 + 1);
        s.pc.widths.push(w as u8);
        s.pc.dom.push(if w <= 8 { domfull(w) } else { self.full });
        if s.pc.model.len() <= i {
            s.pc.model.push(0);
        }
        // with a donated model the value is already there
        s.pc.model[i] &= ones(w) as u64;
        let e = self.a.var(i as u32, w);
        let e = if w < 64 { self.a.zext(e, 64) } else { e };
        Ok(Val::E(e))
    }

    fn loc(&self, s: &State, p: &Val) -> String {
        let Val::C(p) = p else { return "?".into() };
        let rd = |o: u64, n: u64| -> u64 {
            match self.read_bytes(s, p + o, n) {
                Some(b) => {
                    let mut x = [0u8; 8];
                    x[..n as usize].copy_from_slice(&b);
                    u64::from_le_bytes(x)
                }
                None => 0,
            }
        };
        let (fp, fl, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
        let mut f = if fl < 500 { self.read_bytes(s, fp, fl).map_or("?".into(), |b| String::from_utf8_lossy(&b).into_owned()) } else { "?".into() };
        f = f.trim_end_matches('\0').to_string();
        format!("{f}:{line}")
    }

    // ---------------------------------------------------------------- builtins
    fn builtin(&mut self, s: &mut State, b: u32, name: &str, a: &[Val], argtys: &[TyId], ty: TyId) -> X<Val> {
        use crate::builtins::*;
        match b {
            NOP => Ok(Val::U),
            ZERO => Ok(Val::C(0)),
            ARG0 => Ok(a[0].clone()),
            ALLOC | ALLOC_ZEROED => {
                let n = self.conc(s, &a[0], 64)?;
                if n > 1 << 26 {
                    return Err(Stop::Limit(format!("allocation of {n} bytes")));
                }
                Ok(Val::C(self.new_obj(s, n)))
            }
            CALLOC => {
                let n = self.conc(s, &a[0], 64)?;
                let k = self.conc(s, &a[1], 64)?;
                if n.saturating_mul(k) > 1 << 26 {
                    return Err(Stop::Limit("allocation".into()));
                }
                Ok(Val::C(self.new_obj(s, n * k)))
            }
            DEALLOC => {
                let p = self.conc(s, &a[0], 64)?;
                if p != 0 {
                    self.free_obj(s, p)?;
                }
                Ok(Val::U)
            }
            REALLOC | CREALLOC => {
                let p = self.conc(s, &a[0], 64)?;
                let n = self.conc(s, &a[if b == REALLOC { 3 } else { 1 }], 64)?;
                if n > 1 << 26 {
                    return Err(Stop::Limit(format!("allocation of {n} bytes")));
                }
                let q = self.new_obj(s, n);
                if p != 0 {
                    let Some(old) = self.obj_size(s, p) else { return self.oob("realloc", p, n) };
                    self.copy(s, q, p, old.min(n))?;
                    self.free_obj(s, p)?;
                }
                Ok(Val::C(q))
            }
            MEMCPY | MEMMOVE => {
                let n = self.conc(s, &a[2], 64)?;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let d = self.conc(s, &a[0], 64)?;
                let r = self.conc(s, &a[1], 64)?;
                self.copy(s, d, r, n)?;
                Ok(Val::C(d))
            }
            MEMSET => {
                let n = self.conc(s, &a[2], 64)?;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let d = self.conc(s, &a[0], 64)?;
                let v = match &a[1] {
                    Val::E(e) if self.a.w(*e) > 8 => {
                        let x = self.a.extract(*e, 0, 8);
                        self.vl(x)
                    }
                    v => v.clone(),
                };
                if let Val::C(c) = v {
                    let (o, off) = self.wr(s, d, n)?;
                    o.data[off..off + n as usize].fill(c as u8);
                    if !o.sym.is_empty() {
                        o.sym[off..off + n as usize].fill(0);
                    }
                } else {
                    for i in 0..n {
                        self.store_int(s, d + i, 8, &v)?;
                    }
                }
                Ok(Val::C(d))
            }
            BCMP | MEMCMP => {
                let n = self.conc(s, &a[2], 64)?;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let p = self.conc(s, &a[0], 64)?;
                let q = self.conc(s, &a[1], 64)?;
                let (d1, s1) = self.rd(s, p, n)?;
                let (d1, s1) = (d1.to_vec(), s1.to_vec());
                let (d2, s2) = self.rd(s, q, n)?;
                let (d2, s2) = (d2.to_vec(), s2.to_vec());
                let get = |w: &mut Self, d: &[u8], sy: &[u32], i: usize| -> Id {
                    if sy.is_empty() || sy[i] == 0 {
                        w.a.cst(8, d[i] as u128)
                    } else {
                        sy[i]
                    }
                };
                let n = n as usize;
                if b == BCMP {
                    let mut all = self.a.tru();
                    for i in 0..n {
                        let (x, y) = (get(self, &d1, &s1, i), get(self, &d2, &s2, i));
                        let e = self.a.eq(x, y);
                        all = self.a.and(all, e);
                        if self.a.as_const(all) == Some(0) {
                            break;
                        }
                    }
                    let (z, o) = (self.a.cst(32, 0), self.a.cst(32, 1));
                    let r = self.a.ite(all, z, o);
                    Ok(self.vl(r))
                } else {
                    // find first concretely different position
                    let mut r = self.a.cst(32, 0);
                    let mut end = n;
                    for i in 0..n {
                        let (x, y) = (get(self, &d1, &s1, i), get(self, &d2, &s2, i));
                        if let (Some(p), Some(q)) = (self.a.as_const(x), self.a.as_const(y)) {
                            if p != q {
                                r = self.a.cst(32, if p < q { u128::MAX } else { 1 });
                                end = i;
                                break;
                            }
                        }
                    }
                    for i in (0..end).rev() {
                        let (x, y) = (get(self, &d1, &s1, i), get(self, &d2, &s2, i));
                        let e = self.a.eq(x, y);
                        let l = self.a.ult(x, y);
                        let (m, o) = (self.a.cst(32, u128::MAX), self.a.cst(32, 1));
                        let d = self.a.ite(l, m, o);
                        r = self.a.ite(e, r, d);
                    }
                    Ok(self.vl(r))
                }
            }
            STRLEN => {
                let p = self.conc(s, &a[0], 64)?;
                let mut i = 0;
                loop {
                    let v = self.load_int(s, p + i, 8)?;
                    let c = self.conc(s, &v, 8)?;
                    if c == 0 {
                        return Ok(Val::C(i));
                    }
                    i += 1;
                }
            }
            GETRANDOM => {
                let n = self.conc(s, &a[1], 64)?;
                Ok(Val::C(n))
            }
            RANDKEYS => Ok(Val::A(Arc::new(vec![Val::C(1), Val::C(2)]))),
            PANIC => {
                let l = self.loc(s, a.last().unwrap_or(&Val::U));
                Err(Stop::Violation { kind: "panic", label: l })
            }
            ABORT => Err(Stop::Violation { kind: "panic", label: format!("abort in {name}") }),
            TRAP => Err(Stop::Violation { kind: "panic", label: "trap".into() }),
            SX_SYM => {
                let w = self.conc(s, &a[0], 32)?;
                self.fresh(s, w as u32)
            }
            SX_ASSUME => {
                let c = self.ex(&a[0], 1);
                match self.a.as_const(c) {
                    Some(0) => return Err(Stop::Infeasible),
                    Some(_) => return Ok(Val::U),
                    None => {}
                }
                if self.a.eval(c, &s.pc.model) == 0 {
                    let (r, m) = self.check(&s.pc, c, false);
                    match r {
                        Res::Sat => s.pc.model = m,
                        Res::Unsat => return Err(Stop::Infeasible),
                        Res::Unknown => return Err(Stop::Limit("solver unknown at assume".into())),
                    }
                }
                if !self.add(&mut s.pc, c) {
                    return Err(Stop::Infeasible);
                }
                Ok(Val::U)
            }
            SX_ASSERT => {
                let label = self.str_at(s, &a[1], &a[2]);
                *self.st.reached.entry(format!("assert:{label}")).or_default() += 1;
                let c = self.ex(&a[0], 1);
                match self.a.as_const(c) {
                    Some(0) => return Err(Stop::Violation { kind: "assert", label }),
                    Some(_) => {
                        self.st.asserts_const += 1;
                        return Ok(Val::U);
                    }
                    None => {}
                }
                let nc = self.a.not(c);
                let mut memo = FxMap::default();
                let k = self.simp(&s.pc, nc, &mut memo);
                if self.a.as_const(k) == Some(0) {
                    self.st.asserts_domain += 1;
                    self.audit_ctr += 60;
                    if self.audit_ctr >= self.audit_every {
                        self.audit_ctr = 0;
                        let (q, _) = self.z3(&s.pc, nc, true);
                        self.st.audited += 1;
                        if q == Res::Sat {
                            self.st.audit_bad += 1;
                            eprintln!("AUDIT MISMATCH: assertion {label}");
                        }
                    }
                    return Ok(Val::U);
                }
                let (r, m) = self.check(&s.pc, k, true);
                match r {
                    Res::Unsat => {
                        self.st.asserts_smt += 1;
                        Ok(Val::U)
                    }
                    Res::Unknown => {
                        self.st.asserts_unknown += 1;
                        *self.st.limits.entry("solver unknown at assertion".into()).or_default() += 1;
                        Ok(Val::U)
                    }
                    Res::Sat => {
                        self.violation(s, "assert", label, &m);
                        // continue where it holds
                        let (r, m) = self.check(&s.pc, c, false);
                        if r != Res::Sat {
                            return Err(Stop::Infeasible);
                        }
                        s.pc.model = m;
                        if !self.add(&mut s.pc, c) {
                            return Err(Stop::Infeasible);
                        }
                        Ok(Val::U)
                    }
                }
            }
            SX_REACH => {
                let label = self.str_at(s, &a[0], &a[1]);
                *self.st.reached.entry(label).or_default() += 1;
                Ok(Val::U)
            }
            SX_OBS => {
                s.obs.push((a[0].clone(), 64));
                Ok(Val::U)
            }
            SX_CONC => {
                let v = self.conc(s, &a[0], 64)?;
                Ok(Val::C(v))
            }
            INTRIN => self.intrinsic(s, name, a, argtys, ty),
            _ => unsup(format!("builtin {b} {name}")),
        }
    }

    fn lanes_of(&self, ty: TyId) -> (u32, u32) {
        match &self.m.types.list[ty as usize] {
            Ty::Vec(n, e) => (self.m.types.width(*e), *n),
            _ => (self.m.types.width(ty), 0),
        }
    }

    fn intrinsic(&mut self, s: &mut State, name: &str, a: &[Val], argtys: &[TyId], ty: TyId) -> X<Val> {
        let base = &name[5..];
        let op = base.split('.').next().unwrap_or("");
        let (w, n) = argtys.first().map_or((0, 0), |t| self.lanes_of(*t));
        match op {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match op {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                Ok(self.lanes2(n, &a[0], &a[1], |z, x, y| {
                    let c = z.icmp(p, w, x, y);
                    let c = z.ex(&c, 1);
                    let (x, y) = (z.ex(x, w), z.ex(y, w));
                    let r = z.a.ite(c, x, y);
                    z.vl(r)
                }))
            }
            "abs" => Ok(self.lanes2(n, &a[0], &a[0].clone(), |z, x, _| {
                let e = z.ex(x, w);
                let zero = z.a.cst(w, 0);
                let neg = z.a.bin(O::Sub, zero, e);
                let c = z.a.slt(e, zero);
                let r = z.a.ite(c, neg, e);
                z.vl(r)
            })),
            "ctpop" => Ok(self.lanes2(n, &a[0], &a[0].clone(), |z, x, _| {
                if let Val::C(c) = x {
                    return Val::C(c.count_ones() as u64);
                }
                let e = z.ex(x, w);
                let mut acc = z.a.cst(w, 0);
                for i in 0..w {
                    let b = z.a.extract(e, i, 1);
                    let b = z.a.zext(b, w);
                    acc = z.a.bin(O::Add, acc, b);
                }
                z.vl(acc)
            })),
            "ctlz" | "cttz" => Ok(self.lanes2(n, &a[0], &a[0].clone(), |z, x, _| {
                let lead = op == "ctlz";
                if let Val::C(c) = x {
                    if w <= 64 {
                        let r = if *c == 0 {
                            w
                        } else if lead {
                            c.leading_zeros() - (64 - w)
                        } else {
                            c.trailing_zeros()
                        };
                        return Val::C(r as u64);
                    }
                }
                let e = z.ex(x, w);
                let mut acc = z.a.cst(w, w as u128);
                for k in 0..w {
                    // last processed has priority
                    let i = if lead { k } else { w - 1 - k };
                    let b = z.a.extract(e, i, 1);
                    let v = z.a.cst(w, if lead { w - 1 - i } else { i } as u128);
                    acc = z.a.ite(b, v, acc);
                }
                z.vl(acc)
            })),
            "bswap" => {
                let e = self.ex(&a[0], w);
                let mut acc: Option<Id> = None;
                for i in 0..w / 8 {
                    let b = self.a.extract(e, i * 8, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.a.concat(h, b),
                    });
                }
                let r = acc.unwrap();
                Ok(self.vl(r))
            }
            "bitreverse" => {
                let e = self.ex(&a[0], w);
                let mut acc: Option<Id> = None;
                for i in 0..w {
                    let b = self.a.extract(e, i, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.a.concat(h, b),
                    });
                }
                let r = acc.unwrap();
                Ok(self.vl(r))
            }
            "fshl" | "fshr" => {
                let k = self.bin(Bin::URem, w, &a[2], &Val::C(w as u64));
                let left = op == "fshl";
                if w > 64 {
                    return unsup("wide funnel shift");
                }
                let (x, y) = (a[0].clone(), a[1].clone());
                if let Val::C(k) = k {
                    if k == 0 {
                        return Ok(if left { x } else { y });
                    }
                    let (l, r) = if left { (k, w as u64 - k) } else { (w as u64 - k, k) };
                    let p = self.bin(Bin::Shl, w, &x, &Val::C(l));
                    let q = self.bin(Bin::LShr, w, &y, &Val::C(r));
                    return Ok(self.bin(Bin::Or, w, &p, &q));
                }
                // symbolic amount: (x:y) in double width
                let (xe, ye) = (self.ex(&x, w), self.ex(&y, w));
                let xy = self.a.concat(xe, ye);
                let ke = self.ex(&k, w);
                let ke = self.a.zext(ke, 2 * w);
                let r = if left {
                    let t = self.a.bin(O::Shl, xy, ke);
                    self.a.extract(t, w, w)
                } else {
                    let t = self.a.bin(O::LShr, xy, ke);
                    self.a.extract(t, 0, w)
                };
                Ok(self.vl(r))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if base.contains(".with.overflow") => self.with_overflow(op, w, &a[0], &a[1]),
            "uadd" | "usub" | "sadd" | "ssub" if base.contains(".sat") => {
                let (opx, signed) = (op, op.starts_with('s'));
                let mut out = vec![];
                for i in 0..n.max(1) as usize {
                    let (x, y) = if n == 0 { (a[0].clone(), a[1].clone()) } else { (elem(&a[0], i), elem(&a[1], i)) };
                    let r = self.with_overflow(opx, w, &x, &y)?;
                    let (v, o) = (elem(&r, 0), elem(&r, 1));
                    let oe = self.ex(&o, 1);
                    let ve = self.ex(&v, w);
                    let sat = if signed {
                        let xe = self.ex(&x, w);
                        let z = self.a.cst(w, 0);
                        let neg = self.a.slt(xe, z);
                        let (mn, mx) = (self.a.cst(w, 1u128 << (w - 1)), self.a.cst(w, ones(w) >> 1));
                        self.a.ite(neg, mn, mx)
                    } else {
                        self.a.cst(w, if op == "uadd" { u128::MAX } else { 0 })
                    };
                    let r = self.a.ite(oe, sat, ve);
                    out.push(self.vl(r));
                }
                Ok(if n == 0 { out.pop().unwrap() } else { Val::A(Arc::new(out)) })
            }
            "ucmp" | "scmp" => {
                let (p, q) = if op == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let rw = self.m.types.width(ty);
                let l = self.icmp(p, w, &a[0], &a[1]);
                let g = self.icmp(q, w, &a[0], &a[1]);
                let (l, g) = (self.ex(&l, 1), self.ex(&g, 1));
                let (m1, z, o) = (self.a.cst(rw, u128::MAX), self.a.cst(rw, 0), self.a.cst(rw, 1));
                let r = self.a.ite(g, o, z);
                let r = self.a.ite(l, m1, r);
                Ok(self.vl(r))
            }
            "is" => Ok(Val::C(0)), // is.constant
            "objectsize" => Ok(Val::C(u64::MAX)),
            "fabs" => Ok(self.lanes2(n, &a[0], &a[0].clone(), |z, x, _| z.bin(Bin::And, w, x, &Val::C(if w == 32 { 0x7fff_ffff } else { 0x7fff_ffff_ffff_ffff })))),
            "copysign" => {
                let sign = 1u64 << (w - 1);
                let x = self.bin(Bin::And, w, &a[0], &Val::C(sign - 1));
                let y = self.bin(Bin::And, w, &a[1], &Val::C(sign));
                Ok(self.bin(Bin::Or, w, &x, &y))
            }
            "floor" | "ceil" | "trunc" | "rint" | "round" | "nearbyint" | "roundeven" | "sqrt" => match &a[0] {
                Val::C(c) if w == 64 => {
                    let f = f64::from_bits(*c);
                    let r = match op {
                        "floor" => f.floor(),
                        "ceil" => f.ceil(),
                        "trunc" => f.trunc(),
                        "round" => f.round(),
                        "sqrt" => f.sqrt(),
                        _ => f.round_ties_even(),
                    };
                    Ok(Val::C(r.to_bits()))
                }
                _ => unsup(format!("symbolic {op}")),
            },
            "fptoui" | "fptosi" => {
                let tw = self.m.types.width(ty);
                Ok(self.cast1(if op == "fptoui" { Cast::FpToUi } else { Cast::FpToSi }, &a[0], w, tw))
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => match (&a[0], &a[1]) {
                (Val::C(x), Val::C(y)) if w == 64 => {
                    let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                    Ok(Val::C(if op.starts_with("min") { x.min(y) } else { x.max(y) }.to_bits()))
                }
                _ => unsup("symbolic fmin/fmax"),
            },
            "vector" => {
                // vector.reduce.<op>
                let rop = base.split('.').nth(2).unwrap_or("");
                let items: Vec<Val> = (0..n as usize).map(|i| elem(&a[0], i)).collect();
                let mut acc = items[0].clone();
                for x in &items[1..] {
                    acc = match rop {
                        "add" => self.bin(Bin::Add, w, &acc, x),
                        "or" => self.bin(Bin::Or, w, &acc, x),
                        "and" => self.bin(Bin::And, w, &acc, x),
                        "xor" => self.bin(Bin::Xor, w, &acc, x),
                        "mul" => self.bin(Bin::Mul, w, &acc, x),
                        "umax" | "umin" | "smax" | "smin" => {
                            let p = match rop {
                                "umin" => Pred::Ult,
                                "umax" => Pred::Ugt,
                                "smin" => Pred::Slt,
                                _ => Pred::Sgt,
                            };
                            let c = self.icmp(p, w, &acc, x);
                            let c = self.ex(&c, 1);
                            let (p, q) = (self.ex(&acc, w), self.ex(x, w));
                            let r = self.a.ite(c, p, q);
                            self.vl(r)
                        }
                        _ => return unsup(name.to_string()),
                    };
                }
                Ok(acc)
            }
            "ptrmask" => Ok(self.bin(Bin::And, 64, &a[0], &a[1])),
            "x86" => match base {
                "x86.sse2.pmovmskb.128" => {
                    let mut acc: Option<Id> = None;
                    for i in 0..16 {
                        let e = elem(&a[0], i);
                        let e = self.ex(&e, 8);
                        let b = self.a.extract(e, 7, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(l) => self.a.concat(b, l),
                        });
                    }
                    let r = self.a.zext(acc.unwrap(), 32);
                    Ok(self.vl(r))
                }
                "x86.sse2.pause" => Ok(Val::U),
                "x86.sse2.psad.bw" => {
                    let mut out = vec![];
                    for h in 0..2 {
                        let mut acc = self.a.cst(64, 0);
                        for i in 0..8 {
                            let (x, y) = (elem(&a[0], h * 8 + i), elem(&a[1], h * 8 + i));
                            let (x, y) = (self.ex(&x, 8), self.ex(&y, 8));
                            let l = self.a.ult(x, y);
                            let (d1, d2) = (self.a.bin(O::Sub, x, y), self.a.bin(O::Sub, y, x));
                            let d = self.a.ite(l, d2, d1);
                            let d = self.a.zext(d, 64);
                            acc = self.a.bin(O::Add, acc, d);
                        }
                        out.push(self.vl(acc));
                    }
                    Ok(Val::A(Arc::new(out)))
                }
                _ => unsup(name.to_string()),
            },
            _ => {
                let _ = s;
                unsup(name.to_string())
            }
        }
    }
    fn with_overflow(&mut self, op: &str, w: u32, a: &Val, b: &Val) -> X<Val> {
        let pair = |v: Val, o: Val| Ok(Val::A(Arc::new(vec![v, o])));
        match op {
            "uadd" => {
                let v = self.bin(Bin::Add, w, a, b);
                let o = self.icmp(Pred::Ult, w, &v, a);
                // normal form when no overflow possible
                if let (Val::E(_), Val::E(_)) = (&v, &o) {
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    if let Some(sum) = self.a.umax[x as usize].checked_add(self.a.umax[y as usize]) {
                        if sum <= ones(w) {
                            return pair(v, Val::C(0));
                        }
                    }
                }
                pair(v, o)
            }
            "usub" => {
                let v = self.bin(Bin::Sub, w, a, b);
                let o = self.icmp(Pred::Ult, w, a, b);
                pair(v, o)
            }
            "sadd" | "ssub" => {
                let o = if op == "sadd" { Bin::Add } else { Bin::Sub };
                let v = self.bin(o, w, a, b);
                let z = Val::C(0);
                let sa = self.icmp(Pred::Slt, w, a, &z);
                let sb = self.icmp(Pred::Slt, w, b, &z);
                let sv = self.icmp(Pred::Slt, w, &v, &z);
                let (sa, sb, sv) = (self.ex(&sa, 1), self.ex(&sb, 1), self.ex(&sv, 1));
                let same = self.a.eq(sa, sb);
                let cond = if op == "sadd" { same } else { self.a.not(same) };
                let d = self.a.eq(sa, sv);
                let nd = self.a.not(d);
                let r = self.a.and(cond, nd);
                let r = self.vl(r);
                pair(v, r)
            }
            "umul" => {
                let v = self.bin(Bin::Mul, w, a, b);
                if w <= 64 {
                    if let (Val::C(x), Val::C(y)) = (a, b) {
                        let o = (*x as u128) * (*y as u128) > ones(w);
                        return pair(v, Val::C(o as u64));
                    }
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                if let Some(p) = self.a.umax[x as usize].checked_mul(self.a.umax[y as usize]) {
                    if p <= ones(w) {
                        return pair(v, Val::C(0));
                    }
                }
                let (k, other) = if let Some(k) = self.a.as_const(y) {
                    (Some(k), x)
                } else if let Some(k) = self.a.as_const(x) {
                    (Some(k), y)
                } else {
                    (None, x)
                };
                let o = match k {
                    Some(0) => self.a.fls(),
                    Some(k) => {
                        let lim = self.a.cst(w, ones(w) / k);
                        self.a.ult(lim, other)
                    }
                    None if w <= 64 => {
                        let (x2, y2) = (self.a.zext(x, 2 * w), self.a.zext(y, 2 * w));
                        let p = self.a.bin(O::Mul, x2, y2);
                        let h = self.a.extract(p, w, w);
                        let z = self.a.cst(w, 0);
                        let e = self.a.eq(h, z);
                        self.a.not(e)
                    }
                    None => return unsup("128-bit umul overflow"),
                };
                let o = self.vl(o);
                pair(v, o)
            }
            "smul" => {
                let v = self.bin(Bin::Mul, w, a, b);
                if w > 64 {
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let (k, other) = if let Some(k) = self.a.as_const(y) { (Some(k), x) } else { (self.a.as_const(x), y) };
                    match k.map(|k| k as i128) {
                        Some(k) if k > 0 && w == 128 => {
                            let (lo, hi) = (self.a.cst(w, (i128::MIN / k) as u128), self.a.cst(w, (i128::MAX / k) as u128));
                            let (l, h) = (self.a.slt(other, lo), self.a.slt(hi, other));
                            let o = self.a.or(l, h);
                            let o = self.vl(o);
                            return pair(v, o);
                        }
                        _ => {}
                    }
                    return unsup("128-bit smul overflow");
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let (x2, y2) = (self.a.sext(x, 2 * w), self.a.sext(y, 2 * w));
                let p = self.a.bin(O::Mul, x2, y2);
                let ve = self.ex(&v, w);
                let v2 = self.a.sext(ve, 2 * w);
                let e = self.a.eq(p, v2);
                let o = self.a.not(e);
                let o = self.vl(o);
                pair(v, o)
            }
            _ => unsup(op.to_string()),
        }
    }
}

pub fn elem(v: &Val, i: usize) -> Val {
    match v {
        Val::A(x) => x.get(i).cloned().unwrap_or(Val::U),
        _ => Val::U,
    }
}
fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::E(x), Val::E(y)) => x == y,
        _ => false,
    }
}
fn same_op(a: Op, b: Op) -> bool {
    match (a, b) {
        (Op::R(x), Op::R(y)) => x == y,
        (Op::C(x), Op::C(y)) => x == y,
        (Op::K(x), Op::K(y)) => x == y,
        _ => false,
    }
}
