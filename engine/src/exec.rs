//! Symbolic executor over the LLVM IR of the real code.
//!
//! Two modes share the same instruction semantics:
//!  * path mode: depth-first exploration with a solver-checked path condition;
//!  * DAG mode: calls of functions that only compute (no stores outside their own stack frame) are
//!    summarised into one merged if-then-else term plus one panic condition.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub enum Input {
    Val(E),
    Bytes(Vec<E>),
    File(u32),
}

#[derive(Clone)]
pub struct Fd {
    pub file: u32,
    pub pos: E,
    pub len: E,
    pub open: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: HashMap<u64, Rc<Obj>>,
    pub next_id: u64,
    pub pc: Vec<E>,
    pub map: Rc<HashMap<E, E>>,
    pub iv: Rc<HashMap<E, (u64, u64)>>,
    pub memo: HashMap<E, E>,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub reports: Vec<(String, E)>,
    pub covers: Vec<String>,
    pub files: Vec<u32>,
    pub alloc_limit: u64,
    pub steps: u64,
    pub fds: Vec<Fd>,
    pub case: Vec<String>,
    pub concretized: u32,
    pub path_files: Vec<(u32, E)>,
}

impl State {
    fn fork(&mut self) -> State {
        let memo = std::mem::take(&mut self.memo);
        let s = self.clone();
        self.memo = memo;
        s
    }
}

#[derive(Clone, Debug)]
pub enum Stop {
    /// The path ended normally.
    Done,
    /// The path's assumption is false.
    Infeasible,
    /// The executor cannot continue soundly.
    Err(String),
    /// DAG mode is not applicable.
    Dag(String),
}

pub type Res1<T> = Result<T, Stop>;

pub fn err<T>(s: impl Into<String>) -> Res1<T> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub trace: Vec<String>,
    pub stack: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_by_solver: u64,
    pub dag_calls: u64,
    pub dag_nodes: u64,
    pub panic_checks: u64,
    pub concretizations: u64,
}

#[derive(Clone)]
pub struct Opts {
    pub max_paths: u64,
    pub deadline: f64,
    pub dag_limit: u64,
    pub max_steps: u64,
    pub max_violations: usize,
    pub samples: usize,
    pub trace: bool,
    pub dag: bool,
    pub concretize_limit: u32,
    pub nodag: Vec<String>,
}

pub struct Engine {
    pub a: Arena,
    pub m: Module,
    pub s: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub covers: BTreeSet<String>,
    pub functions: HashMap<Rc<str>, u64>,
    pub dag_functions: BTreeSet<Rc<str>>,
    pub sampled: Vec<(Vec<String>, Vec<(String, u128)>, String)>,
    pub purity: HashMap<Rc<str>, bool>,
    pub nodag: HashSet<Rc<str>>,
    pub dag_fail: BTreeMap<String, String>,
    pub opts: Opts,
    pub start: Instant,
    pub globals: HashMap<u64, Rc<Obj>>,
    pub hot: HashMap<(Rc<str>, u32), u64>,
    stub_hex: Option<Rc<str>>,
    sealed: HashSet<u32>,
    rng: u64,
    case_counts: BTreeMap<String, u64>,
    /// Values reported, one per path.
    pub outcomes: BTreeMap<String, u64>,
}

pub enum LoadRes {
    Val(Val),
    Fork(Vec<(E, Val)>),
}

#[derive(Clone)]
struct DagState {
    block: u32,
    ip: usize,
    regs: Vec<Val>,
    locals: BTreeMap<u64, Rc<Obj>>,
    nalloc: u64,
}

#[derive(Debug)]
struct Leaf {
    panic: E,
    vals: Option<Vec<E>>,
}

struct DagCx {
    f: Rc<Func>,
    depth: u64,
    outer: Vec<BTreeMap<u64, Rc<Obj>>>,
    memo: HashMap<(u32, Vec<Val>, Vec<u64>), Option<Rc<Leaf>>>,
    keep: Vec<BTreeMap<u64, Rc<Obj>>>,
    preds: Rc<Vec<u32>>,
}

const DAG_LOCAL: u64 = 0x2000_0000;

fn is_panic_fn(n: &str) -> bool {
    n.contains("rust_begin_unwind")
        || n.contains("9panicking9panic_fmt")
        || n.contains("panic_nounwind_fmt")
        || n.contains("18handle_alloc_error")
        || n.contains("alloc_error_handler")
        || n.contains("8rust_oom")
        || n == "abort"
        || n == "llvm.trap"
        || n.contains("15begin_panic_handler")
}

/// Readable form of a v0-mangled name: the identifiers it contains, crate hash dropped.
pub fn pretty(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i > 0 && !b[i - 1].is_ascii_digit() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            let st = if b.get(j) == Some(&b'_') { j + 1 } else { j };
            if k > 0 && st + k <= b.len() {
                out.push(n[st..st + k].to_string());
                i = st + k;
                continue;
            }
            i = j;
            continue;
        }
        if b[i] == b'B' {
            // back reference
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 6 {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Engine {
    pub fn new(m: Module, opts: Opts) -> Engine {
        Engine {
            a: Arena::new(),
            m,
            s: Solver::new(),
            work: vec![],
            stats: Stats::default(),
            violations: vec![],
            errors: vec![],
            covers: BTreeSet::new(),
            functions: HashMap::new(),
            dag_functions: BTreeSet::new(),
            sampled: vec![],
            purity: HashMap::new(),
            nodag: HashSet::new(),
            dag_fail: BTreeMap::new(),
            opts,
            start: Instant::now(),
            globals: HashMap::new(),
            hot: HashMap::new(),
            stub_hex: None,
            sealed: HashSet::new(),
            rng: 1,
            case_counts: BTreeMap::new(),
            outcomes: BTreeMap::new(),
        }
    }

    pub fn seed(&mut self, s: u64) {
        self.rng = s.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ------------------------------------------------------------------ running

    pub fn run(&mut self, harness: &str) {
        self.start = Instant::now();
        self.stub_hex = self
            .m
            .defs
            .keys()
            .find(|k| k.contains("sym_stub_hex_u8"))
            .cloned();
        let f = match self.m.func(&mut self.a, harness) {
            Ok(f) => f,
            Err(e) => {
                self.errors.push(format!("harness {}: {}", harness, e));
                return;
            }
        };
        let fr = Frame {
            regs: vec![Val::S(0); f.nregs],
            f,
            block: 0,
            ip: 0,
            dst: None,
            normal: None,
            allocas: vec![],
        };
        let st = State {
            frames: vec![fr],
            objs: HashMap::new(),
            next_id: DYN_BASE,
            pc: vec![],
            map: Rc::new(HashMap::new()),
            iv: Rc::new(HashMap::new()),
            memo: HashMap::new(),
            model: Rc::new(Model::default()),
            inputs: vec![],
            reports: vec![],
            covers: vec![],
            files: vec![],
            alloc_limit: u64::MAX,
            steps: 0,
            fds: vec![],
            case: vec![],
            concretized: 0,
            path_files: vec![],
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            self.stats.paths += 1;
            let r = self.run_path(&mut st);
            self.stats.steps += st.steps;
            match r {
                Ok(()) | Err(Stop::Done) => {
                    self.stats.done += 1;
                    for c in &st.covers {
                        self.covers.insert(c.clone());
                    }
                    let key = st.case.join("/");
                    *self.case_counts.entry(key).or_insert(0) += 1;
                    let mut memo = Default::default();
                    for (n, e) in &st.reports {
                        let v = st.model.eval(&self.a, *e, &mut memo);
                        *self.outcomes.entry(format!("{}={}", n, v)).or_insert(0) += 1;
                    }
                    self.maybe_sample(&st);
                }
                Err(Stop::Infeasible) => self.stats.infeasible += 1,
                Err(Stop::Err(e)) | Err(Stop::Dag(e)) => {
                    let stack: Vec<String> =
                        st.frames.iter().rev().take(12).map(|f| {
                            let line = f.f.blocks[f.block as usize].line;
                            format!("{}@b{}:{}", pretty(&f.f.name), line, f.ip)
                        }).collect();
                    // A path without end is a counterexample candidate; the native replay decides.
                    let endless = e.starts_with("step limit") || e.starts_with("deadline reached inside");
                    if endless && st.steps > 3_000_000 {
                        let model = st.model.clone();
                        self.violation(&st, &model, "hang", "no end".into());
                    }
                    self.errors.push(format!("{} [{}]", e, stack.join(" < ")));
                    if self.errors.len() > 3 {
                        break;
                    }
                }
            }
            if self.violations.len() >= self.opts.max_violations {
                break;
            }
            if self.stats.paths >= self.opts.max_paths && !self.work.is_empty() {
                self.errors.push("path limit reached".into());
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.opts.deadline && !self.work.is_empty() {
                self.errors.push("deadline reached".into());
                break;
            }
        }
    }

    pub fn cases(&self) -> &BTreeMap<String, u64> {
        &self.case_counts
    }

    fn maybe_sample(&mut self, st: &State) {
        let n = self.stats.done;
        let k = self.opts.samples as u64;
        if k == 0 {
            return;
        }
        let slot;
        if (self.sampled.len() as u64) < k {
            slot = self.sampled.len();
        } else {
            let r = self.rand() % n;
            if r >= k {
                return;
            }
            slot = r as usize;
        }
        let model = st.model.clone();
        let t = self.trace_inputs(st, &model);
        let mut memo = HashMap::new();
        let reps =
            st.reports.iter().map(|(n, e)| (n.clone(), model.eval(&self.a, *e, &mut memo))).collect();
        let item = (t, reps, st.case.join("/"));
        if slot == self.sampled.len() {
            self.sampled.push(item);
        } else {
            self.sampled[slot] = item;
        }
    }

    /// Concrete inputs of a path under a model, one line per intrinsic call.
    pub fn trace_inputs(&mut self, st: &State, model: &Model) -> Vec<String> {
        let mut memo = HashMap::new();
        let mut out = vec![];
        for i in &st.inputs {
            match i {
                Input::Val(e) => out.push(format!("v {}", model.eval(&self.a, *e, &mut memo))),
                Input::Bytes(v) => {
                    let h: String = v
                        .iter()
                        .map(|e| format!("{:02x}", model.eval(&self.a, *e, &mut memo)))
                        .collect();
                    out.push(format!("b {}", h));
                }
                Input::File(h) => {
                    let f = st.files[*h as usize];
                    let info = self.a.files[f as usize].clone();
                    let mut cells: BTreeMap<u64, u8> = BTreeMap::new();
                    let mut els = 0u8;
                    if let Some((m, d)) = model.files.get(f as usize) {
                        els = *d;
                        for &k in m.keys() {
                            cells.insert(k, model.byte(&self.a, f, k));
                        }
                    }
                    if let Some(d) = info.default {
                        els = d;
                        cells.clear();
                    }
                    for &k in info.cells.keys() {
                        cells.insert(k, model.byte(&self.a, f, k));
                    }
                    let mut s = format!("f {}", els);
                    for (lo, hi, b) in &info.zones {
                        s += &format!(" z{}:{}:{:02x}", lo, hi, b);
                    }
                    if let Some((start, pat)) = &info.pattern {
                        let h: String = pat
                            .iter()
                            .map(|e| format!("{:02x}", model.eval(&self.a, *e, &mut memo)))
                            .collect();
                        s += &format!(" p{}:{}", start, h);
                    }
                    let mut run: Option<(u64, String, u64)> = None;
                    for (k, v) in cells {
                        match &mut run {
                            Some((_, h, end)) if *end == k => {
                                *h += &format!("{:02x}", v);
                                *end += 1;
                            }
                            _ => {
                                if let Some((p, h, _)) = run.take() {
                                    s += &format!(" {}:{}", p, h);
                                }
                                run = Some((k, format!("{:02x}", v), k.wrapping_add(1)));
                            }
                        }
                    }
                    if let Some((p, h, _)) = run.take() {
                        s += &format!(" {}:{}", p, h);
                    }
                    out.push(s);
                }
            }
        }
        out
    }

    fn violation(&mut self, st: &State, model: &Model, kind: &str, detail: String) {
        let trace = self.trace_inputs(st, model);
        let stack = st
            .frames
            .iter()
            .rev()
            .take(20)
            .map(|f| pretty(&f.f.name))
            .collect();
        self.violations.push(Violation { kind: kind.into(), detail, trace, stack });
    }

    // ------------------------------------------------------------------ path condition

    fn learn(&mut self, st: &mut State, e: E, v: bool) {
        // facts derived from e == v
        let mut todo = vec![(e, v)];
        let mut map_new: Vec<(E, E)> = vec![];
        let mut iv_new: Vec<(E, u64, u64)> = vec![];
        while let Some((e, v)) = todo.pop() {
            if self.a.is_const(e) {
                continue;
            }
            map_new.push((e, if v { TRUE } else { FALSE }));
            let n = self.a.not(e);
            map_new.push((n, if v { FALSE } else { TRUE }));
            match self.a.node(e).clone() {
                Node::Not { a } => todo.push((a, !v)),
                Node::Bin { op: BinOp::And, a, b, .. } if v => {
                    todo.push((a, true));
                    todo.push((b, true));
                }
                Node::Bin { op: BinOp::Or, a, b, .. } if !v => {
                    todo.push((a, false));
                    todo.push((b, false));
                }
                Node::Cmp { op: CmpOp::Eq, a, b } if v => {
                    if self.a.is_const(b) {
                        map_new.push((a, b));
                    }
                }
                Node::Cmp { op: CmpOp::Ult, a, b } => {
                    if let Some(k) = self.a.as_const(b) {
                        if k <= u64::MAX as u128 {
                            if v {
                                iv_new.push((a, 0, (k - 1) as u64));
                            } else {
                                iv_new.push((a, k as u64, u64::MAX));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let map = Rc::make_mut(&mut st.map);
        for (k, v) in map_new {
            map.insert(k, v);
        }
        if !iv_new.is_empty() {
            let iv = Rc::make_mut(&mut st.iv);
            for (e, lo, hi) in iv_new {
                let x = iv.entry(e).or_insert((0, u64::MAX));
                x.0 = x.0.max(lo);
                x.1 = x.1.min(hi);
            }
        }
        st.memo.clear();
    }

    fn add(&mut self, st: &mut State, e: E) {
        if e == TRUE {
            return;
        }
        // conjuncts separately: queries are sliced by the terms they share
        let mut todo = vec![(e, true)];
        let mut out = vec![];
        let mut seen = HashSet::new();
        while let Some((x, v)) = todo.pop() {
            if self.a.is_const(x) && (x == TRUE) == v || !seen.insert((x, v)) {
                continue;
            }
            match *self.a.node(x) {
                Node::Not { a } => todo.push((a, !v)),
                Node::Bin { op: BinOp::And, a, b, .. } if v => {
                    todo.push((b, v));
                    todo.push((a, v));
                }
                Node::Bin { op: BinOp::Or, a, b, .. } if !v => {
                    todo.push((b, v));
                    todo.push((a, v));
                }
                _ => out.push(if v { x } else { self.a.not(x) }),
            }
        }
        st.pc.extend(out);
        self.learn(st, e, true);
    }

    /// Simplifies under the facts of the path.
    pub fn simp(&mut self, st: &mut State, e: E) -> E {
        if self.a.is_const(e) || st.map.is_empty() {
            return e;
        }
        let map = st.map.clone();
        if let Some(&r) = map.get(&e) {
            return r;
        }
        let r = self.a.rewrite_budget(e, &map, &mut st.memo, 4000);
        if self.a.is_const(r) {
            return r;
        }
        self.iv_simp(st, r)
    }

    fn iv_simp(&mut self, st: &State, e: E) -> E {
        match *self.a.node(e) {
            Node::Cmp { op: CmpOp::Ult, a, b } => {
                let la = self.bounds(st, a);
                let lb = self.bounds(st, b);
                if la.1 < lb.0 {
                    return TRUE;
                }
                if la.0 >= lb.1 {
                    return FALSE;
                }
                e
            }
            Node::Not { a } => {
                let x = self.iv_simp(st, a);
                self.a.not(x)
            }
            Node::Cmp { op: CmpOp::Eq, a, b } => {
                if self.a.w(a) > 64 {
                    return e;
                }
                let la = self.bounds(st, a);
                let lb = self.bounds(st, b);
                if la.1 < lb.0 || lb.1 < la.0 {
                    return FALSE;
                }
                e
            }
            _ => e,
        }
    }

    /// Cheap interval of an expression on this path.
    pub fn bounds(&self, st: &State, e: E) -> (u64, u64) {
        self.bounds_d(st, e, 6)
    }
    fn bounds_d(&self, st: &State, e: E, d: u32) -> (u64, u64) {
        let r = self.a.range(e);
        let mut lo = r.0.min(u64::MAX as u128) as u64;
        let mut hi = r.1.min(u64::MAX as u128) as u64;
        if let Some(&(l, h)) = st.iv.get(&e) {
            lo = lo.max(l);
            hi = hi.min(h);
        }
        if d > 0 && lo != hi {
            let (l, h) = match self.a.node(e) {
                Node::ZExt { a, .. } => self.bounds_d(st, *a, d - 1),
                Node::Ite { c, a, b } => match st.map.get(c) {
                    Some(&TRUE) => self.bounds_d(st, *a, d - 1),
                    Some(&FALSE) => self.bounds_d(st, *b, d - 1),
                    _ => {
                        let x = self.bounds_d(st, *a, d - 1);
                        let y = self.bounds_d(st, *b, d - 1);
                        (x.0.min(y.0), x.1.max(y.1))
                    }
                },
                Node::Lin { w, c, t } => {
                    // non-negative terms first, then a negative constant
                    let m = mask(*w);
                    let mut l = 0u128;
                    let mut h = 0u128;
                    let mut ok = true;
                    for &(k, x) in t.iter() {
                        if k as u128 > m / 2 {
                            ok = false;
                            break;
                        }
                        let b = self.bounds_d(st, x, d - 1);
                        l += k as u128 * b.0 as u128;
                        h += k as u128 * b.1 as u128;
                    }
                    if ok {
                        let cc = sext_val(*c as u128, *w);
                        let (l, h) = (l as i128 + cc, h as i128 + cc);
                        if l >= 0 && h as u128 <= m {
                            (l as u64, h as u64)
                        } else {
                            (0, u64::MAX)
                        }
                    } else {
                        (0, u64::MAX)
                    }
                }
                _ => (0, u64::MAX),
            };
            lo = lo.max(l);
            hi = hi.min(h);
        }
        (lo, hi)
    }

    /// Is the condition decided on this path? Learns implied facts.
    fn decide(&mut self, st: &mut State, c: E) -> Res1<Result<bool, (bool, Model)>> {
        let c0 = c;
        let c = self.simp(st, c);
        if let Some(v) = self.a.as_const(c) {
            if c0 != c && !st.map.contains_key(&c0) {
                self.learn(st, c0, v == 1);
            }
            return Ok(Ok(v == 1));
        }
        let left = self.opts.deadline - self.start.elapsed().as_secs_f64();
        if left <= 0.0 {
            return err("deadline reached inside a path");
        }
        self.s.deadline_ms = (left * 1000.0) as u32 + 1;
        if self.opts.trace {
            let f = st.frames.last().unwrap();
            eprintln!("query in {} b{}: {}", pretty(&f.f.name), f.f.blocks[f.block as usize].line, self.a.show(c, 7));
        }
        let mut memo = HashMap::new();
        let v = st.model.eval(&self.a, c, &mut memo) == 1;
        let other = if v { self.a.not(c) } else { c };
        let (r, m) = self.s.check(&self.a, &st.pc, &[other], &st.model);
        match r {
            Res::Unsat => {
                self.learn(st, c, v);
                if c0 != c {
                    self.learn(st, c0, v);
                }
                Ok(Ok(v))
            }
            Res::Sat => Ok(Err((v, m.unwrap()))),
            Res::Unknown => err(format!("solver gave no answer for a branch condition")),
        }
    }

    /// Forks if both outcomes are feasible; the sibling re-executes the current instruction.
    pub fn branch(&mut self, st: &mut State, c: E) -> Res1<bool> {
        match self.decide(st, c)? {
            Ok(v) => Ok(v),
            Err((v, m)) => {
                let c0 = c;
                let c = self.simp(st, c);
                let nc = self.a.not(c);
                let mut sib = st.fork();
                sib.model = Rc::new(m);
                let (mine, theirs) = if v { (c, nc) } else { (nc, c) };
                self.add(&mut sib, theirs);
                self.seal(st);
                self.work.push(sib);
                self.stats.forks += 1;
                if self.opts.trace {
                    let f = st.frames.last().unwrap();
                    eprintln!(
                        "fork {} in {} b{}: {}",
                        self.stats.forks,
                        pretty(&f.f.name),
                        f.f.blocks[f.block as usize].line,
                        self.a.show(mine, 7)
                    );
                }
                let f = st.frames.last().unwrap();
                let line = f.f.blocks[f.block as usize].line as u32;
                *self.hot.entry((f.f.name.clone(), line)).or_insert(0) += 1;
                self.add(st, mine);
                if c0 != c {
                    self.learn(st, c0, v);
                }
                Ok(v)
            }
        }
    }

    fn seal(&mut self, st: &State) {
        for &f in &st.files {
            self.sealed.insert(f);
        }
    }

    /// Implied truth value without forking (None when both are possible).
    fn implied(&mut self, st: &mut State, c: E) -> Res1<Option<bool>> {
        Ok(match self.decide(st, c)? {
            Ok(v) => Some(v),
            Err(_) => None,
        })
    }

    /// Forks until `e` has a single value.
    pub fn concretize(&mut self, st: &mut State, e: E) -> Res1<u128> {
        let e = self.simp(st, e);
        if let Some(v) = self.a.as_const(e) {
            return Ok(v);
        }
        // alternatives within a sum first, so that the remaining term is determined by the value
        if let Node::Lin { t, .. } = self.a.node(e).clone() {
            for (_, x) in t.iter() {
                if let Node::Ite { c, .. } = *self.a.node(*x) {
                    self.branch(st, c)?;
                    return self.concretize(st, e);
                }
            }
        }
        let mut leaves = BTreeSet::new();
        if self.const_leaves(e, &mut leaves, 300, 4000) && leaves.len() > 1 {
            for &l in &leaves {
                let w = self.a.w(e);
                let k = self.a.c(w, l);
                let q = self.a.eq(e, k);
                if self.branch(st, q)? {
                    let e2 = self.simp(st, e);
                    if self.a.as_const(e2) != Some(l) {
                        Rc::make_mut(&mut st.map).insert(e, k);
                        st.memo.clear();
                    }
                    return Ok(l);
                }
            }
        }
        loop {
            st.concretized += 1;
            self.stats.concretizations += 1;
            if st.concretized > self.opts.concretize_limit {
                return err("too many values for a concretised term");
            }
            let mut memo = HashMap::new();
            let v = st.model.eval(&self.a, e, &mut memo);
            let w = self.a.w(e);
            let k = self.a.c(w, v);
            let q = self.a.eq(e, k);
            if self.branch(st, q)? {
                Rc::make_mut(&mut st.map).insert(e, k);
                st.memo.clear();
                return Ok(v);
            }
        }
    }

    /// Collects the constant leaves of an if-then-else tree.
    fn const_leaves(&mut self, e: E, out: &mut BTreeSet<u128>, max: usize, budget: u32) -> bool {
        fn go(
            a: &Arena,
            e: E,
            seen: &mut HashMap<E, Rc<BTreeSet<u128>>>,
            budget: &mut u32,
            max: usize,
        ) -> Option<Rc<BTreeSet<u128>>> {
            if let Some(r) = seen.get(&e) {
                return Some(r.clone());
            }
            if *budget == 0 {
                return None;
            }
            *budget -= 1;
            let r: BTreeSet<u128> = match a.node(e) {
                Node::Const { v, .. } => [*v].into_iter().collect(),
                Node::Ite { a: x, b: y, .. } => {
                    let p = go(a, *x, seen, budget, max)?;
                    let q = go(a, *y, seen, budget, max)?;
                    p.union(&q).copied().collect()
                }
                Node::ZExt { a: x, .. } => (*go(a, *x, seen, budget, max)?).clone(),
                Node::Lin { w, c, t } if t.len() == 1 => {
                    let m = mask(*w);
                    go(a, t[0].1, seen, budget, max)?
                        .iter()
                        .map(|v| (v.wrapping_mul(t[0].0 as u128).wrapping_add(*c as u128)) & m)
                        .collect()
                }
                _ => return None,
            };
            if r.len() > max {
                return None;
            }
            let r = Rc::new(r);
            seen.insert(e, r.clone());
            Some(r)
        }
        let mut seen = HashMap::new();
        let mut b = budget;
        match go(&self.a, e, &mut seen, &mut b, max) {
            Some(r) => {
                out.extend(r.iter());
                true
            }
            None => false,
        }
    }

    // ------------------------------------------------------------------ memory

    fn global(&mut self, id: u64) -> Res1<Rc<Obj>> {
        if let Some(o) = self.globals.get(&id) {
            return Ok(o.clone());
        }
        let i = (id - 1) as usize;
        if i >= self.m.globals.len() {
            return err(format!("no object {:#x}", id));
        }
        let (ty, _constant, init) = match self.m.global_init(&mut self.a, i) {
            Ok(x) => x,
            Err(e) => return err(format!("global {}: {}", self.m.globals[i].name, e)),
        };
        let mut o = Obj::new(ty.size(), false);
        o.name = Some(self.m.globals[i].name.clone());
        if let Some(v) = init {
            let mut w = vec![];
            self.flatten(&ty, &v, 0, &mut w);
            for (off, e) in w {
                o.set(off, e);
            }
        }
        let o = Rc::new(o);
        self.globals.insert(id, o.clone());
        Ok(o)
    }

    /// Splits a typed value into (offset, byte expression) pairs.
    fn flatten(&mut self, ty: &Ty, v: &Val, off: u64, out: &mut Vec<(u64, E)>) {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let e = v.s();
                let bits = self.a.w(e);
                let n = ty.store_size();
                if let Some(c) = self.a.as_const(e) {
                    for i in 0..n {
                        out.push((off + i, (c >> (8 * i)) as u8 as E));
                    }
                    return;
                }
                for i in 0..n {
                    let lo = (8 * i) as u8;
                    let b = if lo + 8 <= bits {
                        self.a.extract(e, lo, 8)
                    } else if lo < bits {
                        let x = self.a.extract(e, lo, bits - lo);
                        self.a.zext(x, 8)
                    } else {
                        0
                    };
                    out.push((off + i, b));
                }
            }
            Ty::Vec(n, t) if matches!(**t, Ty::Int(w) if w < 8) => {
                // bit vector
                let w = t.bits();
                let mut acc: Option<E> = None;
                if let Val::A(vs) = v {
                    for x in vs.iter() {
                        acc = Some(match acc {
                            None => x.s(),
                            Some(p) => self.a.concat(x.s(), p),
                        });
                    }
                }
                let tot = Ty::Int(*n as u16 * w as u16);
                self.flatten(&tot, &Val::S(acc.unwrap()), off, out);
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                if let Val::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        let t = ty.elem(i);
                        self.flatten(&t, x, off + ty.field_offset(i), out);
                    }
                } else {
                    panic!("engine: scalar for aggregate type");
                }
            }
            _ => {}
        }
    }

    fn obj(&mut self, st: &State, ds: Option<(&DagState, &DagCx)>, id: u64) -> Res1<Rc<Obj>> {
        if let Some((d, cx)) = ds {
            if let Some(o) = d.locals.get(&id) {
                return Ok(o.clone());
            }
            for m in cx.outer.iter().rev() {
                if let Some(o) = m.get(&id) {
                    return Ok(o.clone());
                }
            }
        }
        if let Some(o) = st.objs.get(&id) {
            return Ok(o.clone());
        }
        if id > 0 && id < DYN_BASE {
            return self.global(id);
        }
        err(format!("access to dead or unknown object {:#x}", id))
    }

    fn leaf(&self, st: &State, e: E) -> E {
        match st.map.get(&e) {
            Some(&r) => r,
            None => e,
        }
    }

    /// Byte of an object at a constant offset. `dag` disables solver queries.
    fn byte_at(&mut self, st: &mut State, dag: bool, o: &Obj, off: u64) -> Res1<E> {
        let p = Obj::page_byte(&o.pages, off);
        if p != NONE {
            return Ok(self.leaf(st, p));
        }
        let mut u = o.under.clone();
        self.under_byte(st, dag, &mut u, o.base, off)
    }

    fn cond_known(&mut self, st: &mut State, dag: bool, c: E) -> Res1<Option<bool>> {
        let c = self.simp(st, c);
        if let Some(v) = self.a.as_const(c) {
            return Ok(Some(v == 1));
        }
        if dag {
            return Ok(None);
        }
        self.implied(st, c)
    }

    fn under_byte(
        &mut self,
        st: &mut State,
        dag: bool,
        u: &mut Option<Rc<Under>>,
        base: E,
        off: u64,
    ) -> Res1<E> {
        let Some(un) = u.clone() else {
            return Ok(base);
        };
        let (cond, val) = match &un.bulk {
            Bulk::Fill { start, max, file, pos, n } => {
                if off < *start || off >= start + max {
                    (FALSE, 0)
                } else {
                    let k = self.a.c64(off - start);
                    let c = self.a.ult(k, *n);
                    let c = match self.cond_known(st, dag, c)? {
                        Some(v) => self.a.b(v),
                        None => c,
                    };
                    if c == FALSE {
                        (FALSE, 0)
                    } else {
                        let i = self.a.add(*pos, k);
                        let i = self.simp(st, i);
                        let s = self.a.sel(*file, i);
                        (c, self.leaf(st, s))
                    }
                }
            }
            Bulk::Copy { dst, max, n, src, soff } => {
                let k = self.a.c64(off);
                let rel = self.a.sub(k, *dst);
                let rel = self.simp(st, rel);
                let r = self.bounds(st, rel);
                if r.0 >= *max {
                    (FALSE, 0)
                } else {
                    let c = self.a.ult(rel, *n);
                    let c = match self.cond_known(st, dag, c)? {
                        Some(v) => self.a.b(v),
                        None => c,
                    };
                    if c == FALSE {
                        (FALSE, 0)
                    } else {
                        let i = self.a.add(*soff, rel);
                        let i = self.simp(st, i);
                        let src = src.clone();
                        let v = self.obj_byte_sym(st, dag, &src, i)?;
                        (c, v)
                    }
                }
            }
            Bulk::Set { dst, max, n, byte } => {
                let k = self.a.c64(off);
                let rel = self.a.sub(k, *dst);
                let r = self.bounds(st, rel);
                if r.0 >= *max {
                    (FALSE, 0)
                } else {
                    let c = self.a.ult(rel, *n);
                    let c = match self.cond_known(st, dag, c)? {
                        Some(v) => self.a.b(v),
                        None => c,
                    };
                    (c, *byte)
                }
            }
        };
        if cond == TRUE {
            return Ok(val);
        }
        let lower = {
            let p = Obj::page_byte(&un.pages, off);
            if p != NONE {
                self.leaf(st, p)
            } else {
                let mut nx = un.next.clone();
                self.under_byte(st, dag, &mut nx, base, off)?
            }
        };
        Ok(self.a.ite(cond, val, lower))
    }

    /// Byte at a possibly symbolic offset.
    fn obj_byte_sym(&mut self, st: &mut State, dag: bool, o: &Rc<Obj>, off: E) -> Res1<E> {
        let off = self.simp(st, off);
        if let Some(k) = self.a.as_const(off) {
            return self.byte_at(st, dag, o, k as u64);
        }
        match self.load_sym(st, dag, o, off, 1)? {
            LoadRes::Val(v) => Ok(v.s()),
            LoadRes::Fork(v) => {
                let mut acc = v[v.len() - 1].1.s();
                for (c, x) in v[..v.len() - 1].iter().rev() {
                    acc = self.a.ite(*c, x.s(), acc);
                }
                Ok(acc)
            }
        }
    }

    fn sym_bounds(&mut self, st: &mut State, off: E, size: u64) -> Res1<(u64, u64)> {
        let (lo, hi) = self.bounds(st, off);
        let hi = hi.min(size.saturating_sub(1));
        if hi - lo.min(hi) <= 4096 {
            return Ok((lo, hi));
        }
        // tighten with the solver: largest and smallest feasible offset
        let mut a = lo;
        let mut b = hi;
        let mut memo = HashMap::new();
        let cur = st.model.eval(&self.a, off, &mut memo) as u64;
        if cur >= lo && cur <= hi {
            let mut l = cur;
            while l < b {
                let mid = l + (b - l) / 2 + 1;
                let k = self.a.c64(mid);
                let c = self.a.ule(k, off);
                match self.s.check(&self.a, &st.pc, &[c], &st.model) {
                    (Res::Sat, Some(m)) => {
                        let mut memo = HashMap::new();
                        l = (m.eval(&self.a, off, &mut memo) as u64).max(mid).min(b);
                    }
                    (Res::Unsat, _) => b = mid - 1,
                    _ => return err("solver gave no answer for an offset bound"),
                }
            }
            let mut h = cur;
            while a < h {
                let mid = a + (h - a) / 2;
                let k = self.a.c64(mid);
                let c = self.a.ule(off, k);
                match self.s.check(&self.a, &st.pc, &[c], &st.model) {
                    (Res::Sat, Some(m)) => {
                        let mut memo = HashMap::new();
                        h = (m.eval(&self.a, off, &mut memo) as u64).min(mid).max(a);
                    }
                    (Res::Unsat, _) => a = mid + 1,
                    _ => return err("solver gave no answer for an offset bound"),
                }
            }
            let iv = Rc::make_mut(&mut st.iv);
            let x = iv.entry(off).or_insert((0, u64::MAX));
            x.0 = x.0.max(a);
            x.1 = x.1.min(b);
        }
        Ok((a, b))
    }

    /// `n` bytes at a symbolic offset, most significant last.
    fn load_sym(&mut self, st: &mut State, dag: bool, o: &Rc<Obj>, off: E, n: u64) -> Res1<LoadRes> {
        let (lo, hi) = self.sym_bounds(st, off, o.size)?;
        let hi_end = hi + n;
        // a single bulk fill covering the whole range?
        if !Obj::has_pages_in(&o.pages, lo, hi_end) {
            if let Some(u) = &o.under {
                match &u.bulk {
                    Bulk::Fill { start, max, file, pos, n: cnt } => {
                        if lo >= *start && hi_end <= start + max {
                            let st0 = self.a.c64(*start);
                            let rel = self.a.sub(off, st0);
                            let last = self.a.c64(n - 1);
                            let l = self.a.add(rel, last);
                            let c = self.a.ult(l, *cnt);
                            if self.cond_known(st, dag, c)? == Some(true) {
                                let mut acc: Option<E> = None;
                                for i in 0..n {
                                    let k = self.a.c64(i);
                                    let p = self.a.add(*pos, rel);
                                    let p = self.a.add(p, k);
                                    let p = self.simp(st, p);
                                    let s = self.a.sel(*file, p);
                                    let s = self.leaf(st, s);
                                    acc = Some(match acc {
                                        None => s,
                                        Some(x) => self.a.concat(s, x),
                                    });
                                }
                                return Ok(LoadRes::Val(Val::S(acc.unwrap())));
                            }
                        }
                    }
                    Bulk::Copy { dst, max, n: cnt, src, soff } => {
                        if let Some(d) = self.a.as_const(*dst) {
                            let d = d as u64;
                            if lo >= d && hi_end <= d + max {
                                let rel = self.a.sub(off, *dst);
                                let last = self.a.c64(n - 1);
                                let l = self.a.add(rel, last);
                                let c = self.a.ult(l, *cnt);
                                if self.cond_known(st, dag, c)? == Some(true) {
                                    let src = src.clone();
                                    let so = *soff;
                                    let mut acc: Option<E> = None;
                                    for i in 0..n {
                                        let k = self.a.c64(i);
                                        let p = self.a.add(so, rel);
                                        let p = self.a.add(p, k);
                                        let s = self.obj_byte_sym(st, dag, &src, p)?;
                                        acc = Some(match acc {
                                            None => s,
                                            Some(x) => self.a.concat(s, x),
                                        });
                                    }
                                    return Ok(LoadRes::Val(Val::S(acc.unwrap())));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if hi - lo > 70_000 {
            return err(format!("symbolic load over a range of {} bytes", hi - lo));
        }
        // multiplexer over the candidate offsets
        let (idx, stride, first) = self.index_of(st, off, lo);
        let mut cands: Vec<(u64, E)> = vec![];
        let mut j = first;
        loop {
            let k = match stride {
                Some((s, c)) => c.wrapping_add(s.wrapping_mul(j)),
                None => j,
            };
            if k > hi || k + n > o.size {
                break;
            }
            if k >= lo {
                let mut acc: Option<E> = None;
                for i in 0..n {
                    let b = self.byte_at(st, dag, o, k + i)?;
                    acc = Some(match acc {
                        None => b,
                        Some(x) => self.a.concat(b, x),
                    });
                }
                cands.push((j, acc.unwrap()));
            }
            j += 1;
        }
        if cands.is_empty() {
            return err("symbolic load with no candidate offset");
        }
        let distinct: BTreeSet<E> = cands.iter().map(|x| x.1).collect();
        let all_const = distinct.iter().all(|&e| self.a.is_const(e));
        if n == 8 && all_const && distinct.len() > 1 && distinct.len() <= 24 {
            let mut out = vec![];
            for &d in &distinct {
                // condition: idx in the runs with this value
                let mut c = FALSE;
                let mut i = 0;
                while i < cands.len() {
                    if cands[i].1 != d {
                        i += 1;
                        continue;
                    }
                    let mut k = i;
                    while k + 1 < cands.len() && cands[k + 1].1 == d {
                        k += 1;
                    }
                    let r = self.in_run(idx, cands[i].0, cands[k].0, i == 0, k + 1 == cands.len());
                    c = self.a.or(c, r);
                    i = k + 1;
                }
                out.push((c, Val::S(d)));
            }
            return Ok(LoadRes::Fork(out));
        }
        // run-length encoded if-then-else chain
        let mut acc = cands[cands.len() - 1].1;
        let mut k = cands.len() as i64 - 2;
        while k >= 0 {
            let c = cands[k as usize];
            if c.1 != acc {
                let w = self.a.w(idx);
                let nb = cands[k as usize + 1].0 as u128;
                let bound = self.a.c(w, nb);
                let lt = if nb > mask(w) { TRUE } else { self.a.ult(idx, bound) };
                acc = self.a.ite(lt, c.1, acc);
            }
            k -= 1;
            // skip equal values
            while k >= 0 && cands[k as usize].1 == c.1 {
                k -= 1;
            }
        }
        Ok(LoadRes::Val(Val::S(acc)))
    }

    fn in_run(&mut self, idx: E, a: u64, b: u64, first: bool, last: bool) -> E {
        let w = self.a.w(idx);
        if a == b && !(first && last) {
            let k = self.a.c(w, a as u128);
            return self.a.eq(idx, k);
        }
        let ka = self.a.c(w, a as u128);
        let kb = self.a.c(w, b as u128);
        let x = if first { TRUE } else { self.a.ule(ka, idx) };
        let y = if last { TRUE } else { self.a.ule(idx, kb) };
        self.a.and(x, y)
    }

    /// Writes `off` as `c + s * idx` when it has a single bounded term.
    fn index_of(&mut self, st: &State, off: E, lo: u64) -> (E, Option<(u64, u64)>, u64) {
        if let Node::Lin { w: 64, c, t } = self.a.node(off).clone() {
            if t.len() == 1 && t[0].0 < (1 << 20) {
                let (s, x) = t[0];
                let b = self.bounds(st, x);
                if b.1 < (1 << 32) {
                    let x2 = match *self.a.node(x) {
                        Node::ZExt { a, .. } => a,
                        _ => x,
                    };
                    // smallest j with c + s*j >= lo
                    let j = if (c as i64) < 0 || c < lo {
                        let d = lo.wrapping_sub(c);
                        (d + s - 1) / s
                    } else {
                        0
                    };
                    return (x2, Some((s, c)), j.max(b.0));
                }
            }
        }
        (off, None, lo)
    }

    /// Resolves an address to (object id, offset expression), forking between objects if needed.
    fn resolve(&mut self, st: &mut State, ptr: E, can_fork: bool) -> Res1<(u64, E)> {
        let p = self.simp(st, ptr);
        if let Some(v) = self.a.as_const(p) {
            let v = v as u64;
            let off = self.a.c64(v & ((1 << OBJ_SHIFT) - 1));
            return Ok((v >> OBJ_SHIFT, off));
        }
        // common case: constant base plus bounded offset
        if let Node::Lin { c, t, .. } = self.a.node(p).clone() {
            let id = c >> OBJ_SHIFT;
            let (lo, hi) = self.bounds(st, p);
            if id != 0 && lo >> OBJ_SHIFT == id && hi >> OBJ_SHIFT == id {
                let base = self.a.c64(id << OBJ_SHIFT);
                let off = self.a.sub(p, base);
                let _ = t;
                return Ok((id, off));
            }
        }
        let mut leaves = BTreeSet::new();
        if can_fork && self.const_leaves(p, &mut leaves, 300, 4000) {
            let v = self.concretize(st, p)? as u64;
            let off = self.a.c64(v & ((1 << OBJ_SHIFT) - 1));
            return Ok((v >> OBJ_SHIFT, off));
        }
        let mut memo = HashMap::new();
        let v = st.model.eval(&self.a, p, &mut memo) as u64;
        let id = v >> OBJ_SHIFT;
        let base = self.a.c64(id << OBJ_SHIFT);
        let off = self.a.sub(p, base);
        let lim = self.a.c64(1 << OBJ_SHIFT);
        let inside = self.a.ult(off, lim);
        if can_fork {
            if !self.branch(st, inside)? {
                return err("pointer resolution");
            }
        } else if self.implied(st, inside)? != Some(true) {
            return Err(Stop::Dag("symbolic pointer".into()));
        }
        Ok((id, off))
    }

    fn assemble(&mut self, bytes: &[E]) -> E {
        // little endian
        let mut all = true;
        let mut v = 0u128;
        for (i, &b) in bytes.iter().enumerate() {
            if b < 256 {
                v |= (b as u128) << (8 * i);
            } else {
                all = false;
                break;
            }
        }
        if all {
            return self.a.c((bytes.len() * 8) as u8, v);
        }
        let mut acc = bytes[bytes.len() - 1];
        for &b in bytes[..bytes.len() - 1].iter().rev() {
            acc = self.a.concat(acc, b);
        }
        acc
    }

    fn load(
        &mut self,
        st: &mut State,
        ds: Option<(&DagState, &DagCx)>,
        ty: &Ty,
        ptr: E,
    ) -> Res1<LoadRes> {
        let dag = ds.is_some();
        let (id, off) = self.resolve(st, ptr, !dag)?;
        let o = self.obj(st, ds, id)?;
        if let Some(k) = self.a.as_const(off) {
            return Ok(LoadRes::Val(self.load_at(st, dag, &o, ty, k as u64)?));
        }
        match ty {
            Ty::Int(w) if *w <= 128 => {
                let n = ty.store_size();
                let r = self.load_sym(st, dag, &o, off, n)?;
                let w = *w as u8;
                Ok(match r {
                    LoadRes::Val(v) => {
                        let e = v.s();
                        let e = if self.a.w(e) > w { self.a.extract(e, 0, w) } else { e };
                        LoadRes::Val(Val::S(e))
                    }
                    x => x,
                })
            }
            Ty::Ptr => self.load_sym(st, dag, &o, off, 8),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let mut out = vec![];
                for i in 0..ty.count() {
                    let et = ty.elem(i);
                    let k = self.a.c64(ty.field_offset(i));
                    let p = self.a.add(ptr, k);
                    match self.load(st, ds, &et, p)? {
                        LoadRes::Val(v) => out.push(v),
                        LoadRes::Fork(v) => {
                            let mut acc = v[v.len() - 1].1.s();
                            for (c, x) in v[..v.len() - 1].iter().rev() {
                                acc = self.a.ite(*c, x.s(), acc);
                            }
                            out.push(Val::S(acc));
                        }
                    }
                }
                Ok(LoadRes::Val(Val::A(Rc::new(out))))
            }
            _ => err("load type"),
        }
    }

    fn load_at(&mut self, st: &mut State, dag: bool, o: &Rc<Obj>, ty: &Ty, off: u64) -> Res1<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let n = ty.store_size();
                if off + n > o.size {
                    return err(format!(
                        "out-of-bounds load of {} bytes at {} in object of {} bytes",
                        n, off, o.size
                    ));
                }
                let mut bytes = [0 as E; 16];
                for i in (0..n).rev() {
                    bytes[i as usize] = self.byte_at(st, dag, o, off + i)?;
                }
                let e = self.assemble(&bytes[..n as usize]);
                let w = ty.bits();
                let e = if self.a.w(e) > w { self.a.extract(e, 0, w) } else { e };
                let e = match st.map.get(&e) {
                    Some(&r) => r,
                    None => e,
                };
                Ok(Val::S(e))
            }
            Ty::Vec(n, t) if matches!(**t, Ty::Int(w) if w < 8) => {
                let w = t.bits();
                let tot = Ty::Int(*n as u16 * w as u16);
                let e = self.load_at(st, dag, o, &tot, off)?.s();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(Val::S(self.a.extract(e, i as u8 * w, w)));
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let mut out = vec![];
                for i in 0..ty.count() {
                    let et = ty.elem(i);
                    out.push(self.load_at(st, dag, o, &et, off + ty.field_offset(i))?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => err("load type"),
        }
    }

    fn write_const(o: &mut Obj, off: u64, w: &[(u64, E)]) -> Res1<()> {
        for &(k, e) in w {
            if off + k >= o.size {
                return err(format!("out-of-bounds store at {} in object of {} bytes", off + k, o.size));
            }
            o.set(off + k, e);
        }
        Ok(())
    }

    fn obj_mut<'x>(&mut self, st: &'x mut State, id: u64) -> Res1<&'x mut Obj> {
        if !st.objs.contains_key(&id) {
            let o = self.obj(st, None, id)?;
            st.objs.insert(id, o);
        }
        Ok(Rc::make_mut(st.objs.get_mut(&id).unwrap()))
    }

    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, ptr: E) -> Res1<()> {
        let (id, off) = self.resolve(st, ptr, true)?;
        let k = match self.a.as_const(off) {
            Some(k) => k as u64,
            None => self.concretize(st, off)? as u64,
        };
        let mut w = vec![];
        self.flatten(ty, v, 0, &mut w);
        let o = self.obj_mut(st, id)?;
        Self::write_const(o, k, &w)
    }

    pub fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u64 {
        let id = st.next_id;
        st.next_id += 1;
        st.objs.insert(id, Rc::new(Obj::new(size, heap)));
        id << OBJ_SHIFT
    }

    /// memcpy / memmove. Returns the updated destination object.
    fn copy_into(
        &mut self,
        st: &mut State,
        dag: bool,
        dsto: &Rc<Obj>,
        doff: E,
        srco: &Rc<Obj>,
        soff: E,
        n: E,
    ) -> Res1<Obj> {
        let mut out = (**dsto).clone();
        if let (Some(d), Some(s), Some(c)) =
            (self.a.as_const(doff), self.a.as_const(soff), self.a.as_const(n))
        {
            let (d, s, c) = (d as u64, s as u64, c as u64);
            if d + c > out.size || s + c > srco.size {
                return err("out-of-bounds memcpy");
            }
            if c <= 4096 {
                let mut tmp = Vec::with_capacity(c as usize);
                for i in (0..c).rev() {
                    tmp.push(self.byte_at(st, dag, srco, s + i)?);
                }
                tmp.reverse();
                for (i, e) in tmp.into_iter().enumerate() {
                    out.set(d + i as u64, e);
                }
                return Ok(out);
            }
        }
        let b = self.bounds(st, n);
        let mut max = b.1.min(out.size);
        if let Some(d) = self.a.as_const(doff) {
            max = max.min(out.size.saturating_sub(d as u64));
        }
        out.push_bulk(Bulk::Copy { dst: doff, max, n, src: srco.clone(), soff });
        Ok(out)
    }

    /// Dangling pointers may be used with a length of zero only.
    fn empty_range(&mut self, st: &mut State, ptrs: &[E], n: E) -> Res1<bool> {
        let dangling = ptrs.iter().any(|&p| matches!(self.a.as_const(p), Some(k) if (k as u64) >> OBJ_SHIFT == 0));
        if !dangling {
            return Ok(false);
        }
        let z = self.a.c(self.a.w(n), 0);
        let q = self.a.eq(n, z);
        match self.decide(st, q)? {
            Ok(true) => Ok(true),
            _ => err("access through a dangling pointer"),
        }
    }

    fn memcpy(&mut self, st: &mut State, dst: E, src: E, n: E) -> Res1<()> {
        let n = self.simp(st, n);
        if self.a.as_const(n) == Some(0) {
            return Ok(());
        }
        if self.empty_range(st, &[dst, src], n)? {
            return Ok(());
        }
        let (di, doff) = self.resolve(st, dst, true)?;
        let (si, soff) = self.resolve(st, src, true)?;
        let d = self.obj(st, None, di)?;
        let s = self.obj(st, None, si)?;
        // Bytes past the destination are never written in a valid execution; check it.
        self.check_room(st, doff, n, d.size, "memcpy destination")?;
        let o = self.copy_into(st, false, &d, doff, &s, soff, n)?;
        st.objs.insert(di, Rc::new(o));
        Ok(())
    }

    fn check_room(&mut self, st: &mut State, off: E, n: E, size: u64, what: &str) -> Res1<()> {
        let bo = self.bounds(st, off);
        let bn = self.bounds(st, n);
        if bo.1.checked_add(bn.1).map_or(false, |x| x <= size) {
            return Ok(());
        }
        let off = self.a.zext(off, 72);
        let n = self.a.zext(n, 72);
        let end = self.a.add(off, n);
        let lim = self.a.c(72, size as u128);
        let ok = self.a.ule(end, lim);
        match self.decide(st, ok)? {
            Ok(true) => Ok(()),
            _ => err(format!("{} may exceed its object ({} bytes)", what, size)),
        }
    }

    fn memset(&mut self, st: &mut State, dst: E, byte: E, n: E) -> Res1<()> {
        let n = self.simp(st, n);
        if self.a.as_const(n) == Some(0) {
            return Ok(());
        }
        if self.empty_range(st, &[dst], n)? {
            return Ok(());
        }
        let (di, doff) = self.resolve(st, dst, true)?;
        let d = self.obj(st, None, di)?;
        self.check_room(st, doff, n, d.size, "memset")?;
        let o = self.set_into(st, &d, doff, byte, n)?;
        st.objs.insert(di, Rc::new(o));
        Ok(())
    }

    fn set_into(&mut self, st: &State, d: &Rc<Obj>, doff: E, byte: E, n: E) -> Res1<Obj> {
        let mut out = (**d).clone();
        if let (Some(dd), Some(c)) = (self.a.as_const(doff), self.a.as_const(n)) {
            let (dd, c) = (dd as u64, c as u64);
            if dd + c > out.size {
                return err("out-of-bounds memset");
            }
            if c <= 256 {
                for i in 0..c {
                    out.set(dd + i, byte);
                }
                return Ok(out);
            }
        }
        let b = self.bounds(st, n);
        let mut max = b.1.min(out.size);
        if let Some(dd) = self.a.as_const(doff) {
            max = max.min(out.size.saturating_sub(dd as u64));
        }
        out.push_bulk(Bulk::Set { dst: doff, max, n, byte });
        Ok(out)
    }

    /// Equality of two byte ranges of the same (constant) length.
    fn range_eq(
        &mut self,
        st: &mut State,
        ds: Option<(&DagState, &DagCx)>,
        p: E,
        q: E,
        n: u64,
    ) -> Res1<E> {
        let dag = ds.is_some();
        let (pi, po) = self.resolve(st, p, !dag)?;
        let (qi, qo) = self.resolve(st, q, !dag)?;
        let a = self.obj(st, ds, pi)?;
        let b = self.obj(st, ds, qi)?;
        let mut acc = TRUE;
        for i in (0..n).rev() {
            let k = self.a.c64(i);
            let x = self.a.add(po, k);
            let x = self.obj_byte_sym(st, dag, &a, x)?;
            let y = self.a.add(qo, k);
            let y = self.obj_byte_sym(st, dag, &b, y)?;
            let e = self.a.eq(x, y);
            if e == FALSE {
                return Ok(FALSE);
            }
            acc = self.a.and(e, acc);
        }
        Ok(acc)
    }

    // ------------------------------------------------------------------ operands and pure instructions

    fn op(regs: &[Val], o: &Op) -> Val {
        match o {
            Op::R(r) => regs[*r as usize].clone(),
            Op::C(v) => v.clone(),
        }
    }

    fn lanes2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Arena, E, E) -> E) -> Val {
        match (a, b) {
            (Val::S(x), Val::S(y)) => Val::S(f(&mut self.a, *x, *y)),
            (Val::A(x), Val::A(y)) => Val::A(Rc::new(
                x.iter().zip(y.iter()).map(|(p, q)| Val::S(f(&mut self.a, p.s(), q.s()))).collect(),
            )),
            _ => panic!("engine: lane mismatch"),
        }
    }

    fn ite_val(&mut self, c: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::S(x), Val::S(y)) => Val::S(self.a.ite(c, *x, *y)),
            (Val::A(x), Val::A(y)) => {
                Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.ite_val(c, p, q)).collect()))
            }
            _ => panic!("engine: select shape"),
        }
    }

    fn binop(a: &mut Arena, op: Bop, x: E, y: E) -> E {
        match op {
            Bop::Add => a.add(x, y),
            Bop::Sub => a.sub(x, y),
            Bop::Mul => a.mul(x, y),
            Bop::UDiv => a.bin(BinOp::UDiv, x, y),
            Bop::SDiv => a.bin(BinOp::SDiv, x, y),
            Bop::URem => a.bin(BinOp::URem, x, y),
            Bop::SRem => a.bin(BinOp::SRem, x, y),
            Bop::Shl => {
                if a.w(x) == 1 {
                    x
                } else {
                    a.bin(BinOp::Shl, x, y)
                }
            }
            Bop::LShr => a.bin(BinOp::LShr, x, y),
            Bop::AShr => a.bin(BinOp::AShr, x, y),
            Bop::And => a.bin(BinOp::And, x, y),
            Bop::Or => a.bin(BinOp::Or, x, y),
            Bop::Xor => a.bin(BinOp::Xor, x, y),
        }
    }

    fn icmp(a: &mut Arena, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => a.eq(x, y),
            Pred::Ne => {
                let e = a.eq(x, y);
                a.not(e)
            }
            Pred::Ult => a.ult(x, y),
            Pred::Ule => a.ule(x, y),
            Pred::Ugt => a.ult(y, x),
            Pred::Uge => a.ule(y, x),
            Pred::Slt => a.slt(x, y),
            Pred::Sle => a.sle(x, y),
            Pred::Sgt => a.slt(y, x),
            Pred::Sge => a.sle(y, x),
        }
    }

    fn cast(&mut self, op: CastOp, to: &Ty, from: &Ty, v: &Val) -> Res1<Val> {
        match (op, v) {
            (CastOp::Bit, _) => {
                // reinterpret through bits
                let fs = from.size();
                let ts = to.size();
                if let (Val::S(e), Ty::Int(w)) = (v, to) {
                    if self.a.w(*e) == *w as u8 {
                        return Ok(v.clone());
                    }
                }
                if let (Val::S(_), Ty::Ptr) = (v, to) {
                    return Ok(v.clone());
                }
                if fs != ts {
                    return err("bitcast size");
                }
                let mut w = vec![];
                self.flatten(from, v, 0, &mut w);
                let mut o = Obj::new(fs, false);
                for (k, e) in w {
                    o.set(k, e);
                }
                let o = Rc::new(o);
                let mut tmp = State {
                    frames: vec![],
                    objs: HashMap::new(),
                    next_id: 0,
                    pc: vec![],
                    map: Rc::new(HashMap::new()),
                    iv: Rc::new(HashMap::new()),
                    memo: HashMap::new(),
                    model: Rc::new(Model::default()),
                    inputs: vec![],
                    reports: vec![],
                    covers: vec![],
                    files: vec![],
                    alloc_limit: 0,
                    steps: 0,
                    fds: vec![],
                    case: vec![],
                    concretized: 0,
                    path_files: vec![],
                };
                self.load_at(&mut tmp, true, &o, to, 0)
            }
            (_, Val::A(vs)) => {
                let et = to.elem(0);
                let ft = from.elem(0);
                let mut out = vec![];
                for x in vs.iter() {
                    out.push(self.cast(op, &et, &ft, x)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            (_, Val::S(e)) => {
                let w = to.bits();
                let fw = self.a.w(*e);
                Ok(Val::S(match op {
                    CastOp::Trunc => {
                        if w == fw {
                            *e
                        } else {
                            self.a.extract(*e, 0, w)
                        }
                    }
                    CastOp::ZExt => self.a.zext(*e, w),
                    CastOp::SExt => self.a.sext(*e, w),
                    CastOp::Bit => *e,
                }))
            }
        }
    }

    fn path_get(v: &Val, idx: &[u32]) -> Val {
        let mut c = v.clone();
        for &i in idx {
            c = match &c {
                Val::A(x) => x[i as usize].clone(),
                Val::S(_) => panic!("engine: extractvalue on scalar"),
            };
        }
        c
    }
    fn path_set(v: &Val, idx: &[u32], x: Val) -> Val {
        if idx.is_empty() {
            return x;
        }
        match v {
            Val::A(r) => {
                let mut n = (**r).clone();
                n[idx[0] as usize] = Self::path_set(&n[idx[0] as usize], &idx[1..], x);
                Val::A(Rc::new(n))
            }
            _ => panic!("engine: insertvalue on scalar"),
        }
    }

    /// Executes an instruction without memory or control effects. Returns false if it is another kind.
    fn simple(&mut self, ins: &Ins, regs: &mut [Val]) -> Res1<bool> {
        match ins {
            Ins::Gep { dst, base, off, terms } => {
                let mut e = Self::op(regs, base).s();
                if *off != 0 {
                    let k = self.a.c64(*off);
                    e = self.a.add(e, k);
                }
                for (o, s) in terms {
                    let x = Self::op(regs, o).s();
                    let w = self.a.w(x);
                    let x = if w < 64 { self.a.sext(x, 64) } else { x };
                    let t = self.a.mul_const(x, *s);
                    e = self.a.add(e, t);
                }
                regs[*dst as usize] = Val::S(e);
            }
            Ins::Bin { dst, op, a, b } => {
                let x = Self::op(regs, a);
                let y = Self::op(regs, b);
                let op = *op;
                regs[*dst as usize] = self.lanes2(&x, &y, &mut |a, p, q| Self::binop(a, op, p, q));
            }
            Ins::Icmp { dst, pred, a, b } => {
                let x = Self::op(regs, a);
                let y = Self::op(regs, b);
                let p = *pred;
                regs[*dst as usize] = self.lanes2(&x, &y, &mut |a, u, v| Self::icmp(a, p, u, v));
            }
            Ins::Cast { dst, op, to, from, a } => {
                let x = Self::op(regs, a);
                regs[*dst as usize] = self.cast(*op, to, from, &x)?;
            }
            Ins::Select { dst, c, a, b } => {
                let k = Self::op(regs, c);
                let x = Self::op(regs, a);
                let y = Self::op(regs, b);
                regs[*dst as usize] = match &k {
                    Val::S(k) => self.ite_val(*k, &x, &y),
                    Val::A(ks) => {
                        let (Val::A(xs), Val::A(ys)) = (&x, &y) else {
                            return err("vector select");
                        };
                        let mut out = vec![];
                        for i in 0..ks.len() {
                            out.push(self.ite_val(ks[i].s(), &xs[i], &ys[i]));
                        }
                        Val::A(Rc::new(out))
                    }
                };
            }
            Ins::Extract { dst, a, idx } => {
                let x = Self::op(regs, a);
                regs[*dst as usize] = Self::path_get(&x, idx);
            }
            Ins::Insert { dst, a, v, idx } => {
                let x = Self::op(regs, a);
                let y = Self::op(regs, v);
                regs[*dst as usize] = Self::path_set(&x, idx, y);
            }
            Ins::Copy { dst, a } => {
                regs[*dst as usize] = Self::op(regs, a);
            }
            Ins::ExtractElem { dst, a, i } => {
                let x = Self::op(regs, a);
                let k = self.a.as_const(Self::op(regs, i).s());
                match k {
                    Some(k) => regs[*dst as usize] = Self::path_get(&x, &[k as u32]),
                    None => return err("symbolic extractelement"),
                }
            }
            Ins::InsertElem { dst, a, v, i } => {
                let x = Self::op(regs, a);
                let y = Self::op(regs, v);
                let k = self.a.as_const(Self::op(regs, i).s());
                match k {
                    Some(k) => regs[*dst as usize] = Self::path_set(&x, &[k as u32], y),
                    None => return err("symbolic insertelement"),
                }
            }
            Ins::Shuffle { dst, a, b, mask } => {
                let (Val::A(x), Val::A(y)) = (Self::op(regs, a), Self::op(regs, b)) else {
                    return err("shuffle");
                };
                let n = x.len() as u32;
                let out = mask
                    .iter()
                    .map(|&k| {
                        if k < n {
                            x[k as usize].clone()
                        } else {
                            y[(k - n) as usize].clone()
                        }
                    })
                    .collect();
                regs[*dst as usize] = Val::A(Rc::new(out));
            }
            _ => return Ok(false),
        }
        Ok(true)
    }

    fn flat_vals(v: &Val, out: &mut Vec<E>) {
        match v {
            Val::S(e) => out.push(*e),
            Val::A(x) => x.iter().for_each(|y| Self::flat_vals(y, out)),
        }
    }
    fn unflat(&mut self, t: &Ty, v: &[E], i: &mut usize) -> Val {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = t.count();
                let mut out = vec![];
                for k in 0..n {
                    let et = t.elem(k);
                    out.push(self.unflat(&et, v, i));
                }
                Val::A(Rc::new(out))
            }
            _ => {
                *i += 1;
                Val::S(v[*i - 1])
            }
        }
    }

    // ------------------------------------------------------------------ pure llvm intrinsics

    /// Returns None if the name is not a pure intrinsic.
    fn intrinsic(&mut self, name: &str, args: &[Val], ret: &Ty) -> Res1<Option<Val>> {
        let rest = match name.strip_prefix("llvm.") {
            Some(r) => r,
            None => return Ok(None),
        };
        let a = &mut self.a;
        let lane = |args: &[Val], f: &mut dyn FnMut(&mut Arena, &[E]) -> E, a: &mut Arena| -> Val {
            if let Val::A(v0) = &args[0] {
                let n = v0.len();
                let mut out = vec![];
                for i in 0..n {
                    let xs: Vec<E> = args
                        .iter()
                        .map(|x| match x {
                            Val::A(v) => v[i].s(),
                            Val::S(e) => *e,
                        })
                        .collect();
                    out.push(Val::S(f(a, &xs)));
                }
                Val::A(Rc::new(out))
            } else {
                let xs: Vec<E> = args.iter().map(|x| x.s()).collect();
                Val::S(f(a, &xs))
            }
        };
        let base = rest.split('.').next().unwrap();
        let two = {
            let mut it = rest.split('.');
            it.next();
            it.next().unwrap_or("")
        };
        let v = match base {
            "umax" => lane(args, &mut |a, x| {
                let c = a.ult(x[0], x[1]);
                a.ite(c, x[1], x[0])
            }, a),
            "umin" => lane(args, &mut |a, x| {
                let c = a.ult(x[0], x[1]);
                a.ite(c, x[0], x[1])
            }, a),
            "smax" => lane(args, &mut |a, x| {
                let c = a.slt(x[0], x[1]);
                a.ite(c, x[1], x[0])
            }, a),
            "smin" => lane(args, &mut |a, x| {
                let c = a.slt(x[0], x[1]);
                a.ite(c, x[0], x[1])
            }, a),
            "abs" => lane(args, &mut |a, x| {
                let z = { let w = a.w(x[0]); a.c(w, 0) };
                let n = a.sub(z, x[0]);
                let c = a.slt(x[0], z);
                a.ite(c, n, x[0])
            }, a),
            "bswap" => lane(args, &mut |a, x| {
                let w = a.w(x[0]);
                let mut acc = a.extract(x[0], 0, 8);
                for i in 1..w / 8 {
                    let b = a.extract(x[0], i * 8, 8);
                    acc = a.concat(acc, b);
                }
                acc
            }, a),
            "bitreverse" => lane(args, &mut |a, x| {
                let w = a.w(x[0]);
                let mut acc = a.extract(x[0], 0, 1);
                for i in 1..w {
                    let b = a.extract(x[0], i, 1);
                    acc = a.concat(acc, b);
                }
                acc
            }, a),
            "ctlz" | "cttz" => {
                let lead = base == "ctlz";
                lane(&args[..1], &mut |a, x| {
                    let w = a.w(x[0]);
                    if let Some(v) = a.as_const(x[0]) {
                        let r = if v == 0 {
                            w as u32
                        } else if lead {
                            v.leading_zeros() - (128 - w as u32)
                        } else {
                            v.trailing_zeros()
                        };
                        return a.c(w, r as u128);
                    }
                    let mut acc = a.c(w, w as u128);
                    for k in (0..w).rev() {
                        let bit = if lead { w - 1 - k } else { k };
                        let b = a.extract(x[0], bit, 1);
                        let n = a.c(w, k as u128);
                        acc = a.ite(b, n, acc);
                    }
                    acc
                }, a)
            }
            "ctpop" => lane(args, &mut |a, x| {
                let w = a.w(x[0]);
                let mut acc = a.c(w, 0);
                for i in 0..w {
                    let b = a.extract(x[0], i, 1);
                    let b = a.zext(b, w);
                    acc = a.add(acc, b);
                }
                acc
            }, a),
            "fshl" | "fshr" => {
                let left = base == "fshl";
                lane(args, &mut |a, x| {
                    let w = a.w(x[0]);
                    match a.as_const(x[2]) {
                        Some(k) => {
                            let k = (k % w as u128) as u8;
                            if k == 0 {
                                return if left { x[0] } else { x[1] };
                            }
                            let k = if left { k } else { w - k };
                            let hi = a.extract(x[0], 0, w - k);
                            let lo = a.extract(x[1], w - k, k);
                            a.concat(hi, lo)
                        }
                        None => {
                            let m = a.c(w, w as u128);
                            let s = a.bin(BinOp::URem, x[2], m);
                            let inv = a.sub(m, s);
                            let z = a.c(w, 0);
                            let isz = a.eq(s, z);
                            if left {
                                let p = a.bin(BinOp::Shl, x[0], s);
                                let q = a.bin(BinOp::LShr, x[1], inv);
                                let r = a.or(p, q);
                                a.ite(isz, x[0], r)
                            } else {
                                let p = a.bin(BinOp::Shl, x[0], inv);
                                let q = a.bin(BinOp::LShr, x[1], s);
                                let r = a.or(p, q);
                                a.ite(isz, x[1], r)
                            }
                        }
                    }
                }, a)
            }
            "is" => Val::S(FALSE), // llvm.is.constant
            "expect" => args[0].clone(),
            "threadlocal" | "launder" | "strip" => args[0].clone(),
            "ptrmask" => {
                let x = args[0].s();
                let y = args[1].s();
                Val::S(a.and(x, y))
            }
            "ucmp" | "scmp" => {
                let w = ret.bits();
                let s = base == "scmp";
                lane(args, &mut |a, x| {
                    let lt = if s { a.slt(x[0], x[1]) } else { a.ult(x[0], x[1]) };
                    let eq = a.eq(x[0], x[1]);
                    let m = a.c(w, u128::MAX);
                    let z = a.c(w, 0);
                    let o = a.c(w, 1);
                    let r = a.ite(eq, z, o);
                    a.ite(lt, m, r)
                }, a)
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                if two == "sat" {
                    lane(args, &mut |a, x| {
                        let w = a.w(x[0]);
                        match base {
                            "uadd" => {
                                let s = a.add(x[0], x[1]);
                                let c = a.ult(s, x[0]);
                                let m = a.c(w, u128::MAX);
                                a.ite(c, m, s)
                            }
                            "usub" => {
                                let s = a.sub(x[0], x[1]);
                                let c = a.ult(x[0], x[1]);
                                let m = a.c(w, 0);
                                a.ite(c, m, s)
                            }
                            _ => {
                                let (s, o) = ovf(a, base, x[0], x[1]);
                                let z = a.c(w, 0);
                                let neg = a.slt(x[0], z);
                                let mx = a.c(w, mask(w - 1));
                                let mn = a.c(w, 1u128 << (w - 1));
                                let lim = a.ite(neg, mn, mx);
                                a.ite(o, lim, s)
                            }
                        }
                    }, a)
                } else {
                    let (x, y) = (args[0].s(), args[1].s());
                    let (s, o) = ovf(a, base, x, y);
                    Val::A(Rc::new(vec![Val::S(s), Val::S(o)]))
                }
            }
            "vector" => {
                // reductions
                let Val::A(v) = &args[0] else {
                    return err(format!("intrinsic {}", name));
                };
                let kind = rest.split('.').nth(2).unwrap_or("");
                let mut acc = v[0].s();
                for x in v[1..].iter() {
                    acc = match kind {
                        "or" => a.or(acc, x.s()),
                        "and" => a.and(acc, x.s()),
                        "xor" => a.xor(acc, x.s()),
                        "add" => a.add(acc, x.s()),
                        "umax" => {
                            let c = a.ult(acc, x.s());
                            a.ite(c, x.s(), acc)
                        }
                        "umin" => {
                            let c = a.ult(acc, x.s());
                            a.ite(c, acc, x.s())
                        }
                        _ => return err(format!("intrinsic {}", name)),
                    };
                }
                Val::S(acc)
            }
            "assume" | "lifetime" | "experimental" | "donothing" | "dbg" | "invariant" | "prefetch"
            | "x86" | "sideeffect" => {
                if base == "x86" && !rest.contains("pause") {
                    return err(format!("intrinsic {}", name));
                }
                self.m_zero(ret)
            }
            _ => return Ok(None),
        };
        Ok(Some(v))
    }

    fn m_zero(&mut self, t: &Ty) -> Val {
        if *t == Ty::Void {
            return Val::S(0);
        }
        self.m.zero(&mut self.a, t)
    }

    // ------------------------------------------------------------------ path mode

    fn run_path(&mut self, st: &mut State) -> Res1<()> {
        let mut tick = 0u32;
        loop {
            if st.frames.is_empty() {
                return Ok(());
            }
            tick += 1;
            if tick & 0xfff == 0 && self.start.elapsed().as_secs_f64() > self.opts.deadline {
                return err("deadline reached inside a path");
            }
            st.steps += 1;
            if st.steps > self.opts.max_steps {
                return err("step limit of a path reached");
            }
            self.step(st)?;
        }
    }

    fn enter_block(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<(u32, Val)> = b
                .phis
                .iter()
                .map(|(d, v)| {
                    let o = &v.iter().find(|x| x.0 == from).expect("engine: phi edge").1;
                    (*d, Self::op(&fr.regs, o))
                })
                .collect();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
    }

    fn set_dst(st: &mut State, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    fn step(&mut self, st: &mut State) -> Res1<()> {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.block as usize].ins[fr.ip];
        if self.simple(ins, &mut fr.regs)? {
            fr.ip += 1;
            if let Ins::Icmp { dst, .. } = ins {
                // selections on decided conditions must not pile up
                if let Val::S(e) = fr.regs[*dst as usize] {
                    if !self.a.is_const(e) {
                        let r = self.simp(st, e);
                        st.frames.last_mut().unwrap().regs[*dst as usize] = Val::S(r);
                    }
                }
            }
            return Ok(());
        }
        match ins {
            Ins::Alloca { dst, size, count } => {
                let mut n = *size;
                if let Some(c) = count {
                    let c = Self::op(&fr.regs, c).s();
                    match self.a.as_const(c) {
                        Some(c) => n *= c as u64,
                        None => return err("symbolic alloca"),
                    }
                }
                let p = self.alloc(st, n, false);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(p >> OBJ_SHIFT);
                fr.regs[*dst as usize] = Val::S(self.a.c64(p));
                fr.ip += 1;
            }
            Ins::Load { dst, ty, ptr } => {
                let p = Self::op(&fr.regs, ptr).s();
                let v = match self.load(st, None, ty, p)? {
                    LoadRes::Val(v) => v,
                    LoadRes::Fork(alts) => {
                        let mut r = None;
                        for (c, v) in alts {
                            if self.branch(st, c)? {
                                r = Some(v);
                                break;
                            }
                        }
                        match r {
                            Some(v) => v,
                            None => return Err(Stop::Infeasible),
                        }
                    }
                };
                let fr = st.frames.last_mut().unwrap();
                fr.regs[*dst as usize] = v;
                fr.ip += 1;
            }
            Ins::Store { ty, val, ptr } => {
                let p = Self::op(&fr.regs, ptr).s();
                let v = Self::op(&fr.regs, val);
                self.store(st, ty, &v, p)?;
                st.frames.last_mut().unwrap().ip += 1;
            }
            Ins::Rmw { dst, op, ptr, v, ty } => {
                let p = Self::op(&fr.regs, ptr).s();
                let y = Self::op(&fr.regs, v).s();
                let old = match self.load(st, None, ty, p)? {
                    LoadRes::Val(v) => v.s(),
                    _ => return err("atomicrmw"),
                };
                let new = match op.as_str() {
                    "xchg" => y,
                    "add" => self.a.add(old, y),
                    "sub" => self.a.sub(old, y),
                    "and" => self.a.and(old, y),
                    "or" => self.a.or(old, y),
                    "xor" => self.a.xor(old, y),
                    _ => return err("atomicrmw op"),
                };
                self.store(st, ty, &Val::S(new), p)?;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[*dst as usize] = Val::S(old);
                fr.ip += 1;
            }
            Ins::CmpXchg { dst, ptr, old, new, ty } => {
                let p = Self::op(&fr.regs, ptr).s();
                let o = Self::op(&fr.regs, old).s();
                let n = Self::op(&fr.regs, new).s();
                let cur = match self.load(st, None, ty, p)? {
                    LoadRes::Val(v) => v.s(),
                    _ => return err("cmpxchg"),
                };
                let same = self.a.eq(cur, o);
                let ok = self.branch(st, same)?;
                if ok {
                    self.store(st, ty, &Val::S(n), p)?;
                }
                let fr = st.frames.last_mut().unwrap();
                fr.regs[*dst as usize] =
                    Val::A(Rc::new(vec![Val::S(cur), Val::S(if ok { TRUE } else { FALSE })]));
                fr.ip += 1;
            }
            Ins::Br(l) => {
                self.enter_block(st, *l);
            }
            Ins::CondBr(c, x, y) => {
                let c = Self::op(&fr.regs, c).s();
                let v = match c {
                    TRUE => true,
                    FALSE => false,
                    _ => self.branch(st, c)?,
                };
                self.enter_block(st, if v { *x } else { *y });
            }
            Ins::Switch(o, d, cs) => {
                let v = Self::op(&fr.regs, o).s();
                let v = self.simp(st, v);
                let mut to = *d;
                if let Some(k) = self.a.as_const(v) {
                    for (c, l) in cs {
                        if self.a.as_const(*c) == Some(k) {
                            to = *l;
                            break;
                        }
                    }
                } else {
                    for (c, l) in cs {
                        let q = self.a.eq(v, *c);
                        if q == FALSE {
                            continue;
                        }
                        if self.branch(st, q)? {
                            to = *l;
                            break;
                        }
                    }
                }
                self.enter_block(st, to);
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| Self::op(&fr.regs, o));
                let fr = st.frames.pop().unwrap();
                for id in &fr.allocas {
                    st.objs.remove(id);
                }
                if let Some(c) = st.frames.last_mut() {
                    if let (Some(d), Some(v)) = (fr.dst, v) {
                        c.regs[d as usize] = v;
                    }
                    match fr.normal {
                        Some(l) => self.enter_block(st, l),
                        None => c.ip += 1,
                    }
                } else {
                    return Err(Stop::Done);
                }
            }
            Ins::Unreachable => return err("reached an unreachable instruction"),
            Ins::Bad(s) => return err(format!("unsupported instruction: {}", s)),
            Ins::Call { dst, ret, callee, args, normal } => {
                let av: Vec<Val> = args.iter().map(|o| Self::op(&fr.regs, o)).collect();
                let name: Rc<str> = match callee {
                    Callee::Sym(s) => s.clone(),
                    Callee::Ind(o) => {
                        let p = Self::op(&fr.regs, o).s();
                        let p = self.concretize(st, p)? as u64;
                        match self.m.addrf.get(&p) {
                            Some(n) => n.clone(),
                            None => return err(format!("call of non-function {:#x}", p)),
                        }
                    }
                };
                self.call(st, *dst, ret, name, av, *normal)?;
            }
            _ => return err("instruction"),
        }
        Ok(())
    }

    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, v: Val, normal: Option<u32>) {
        Self::set_dst(st, dst, v);
        match normal {
            Some(l) => self.enter_block(st, l),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        dst: Option<u32>,
        ret: &Ty,
        name: Rc<str>,
        mut args: Vec<Val>,
        normal: Option<u32>,
    ) -> Res1<()> {
        if name.starts_with("llvm.") {
            match &*name {
                "llvm.memcpy.p0.p0.i64" | "llvm.memmove.p0.p0.i64" => {
                    self.memcpy(st, args[0].s(), args[1].s(), args[2].s())?;
                    self.finish_call(st, dst, Val::S(0), normal);
                    return Ok(());
                }
                "llvm.memset.p0.i64" => {
                    self.memset(st, args[0].s(), args[1].s(), args[2].s())?;
                    self.finish_call(st, dst, Val::S(0), normal);
                    return Ok(());
                }
                _ => {}
            }
            if let Some(mut v) = self.intrinsic(&name, &args, ret)? {
                // few values that determine what follows: one path each
                if &*name == "llvm.ctlz.i8" {
                    let e = v.s();
                    let k = self.concretize(st, e)?;
                    v = Val::S(self.a.c(8, k));
                }
                self.finish_call(st, dst, v, normal);
                return Ok(());
            }
        }
        if is_panic_fn(&name) {
            return self.panic(st);
        }
        if let Some(v) = self.builtin(st, &name, &args, ret)? {
            self.finish_call(st, dst, v, normal);
            return Ok(());
        }
        let mut name = name;
        if let Some(stub) = self.redirect(st, &name) {
            name = stub;
        }
        if !self.m.defs.contains_key(&name) {
            return err(format!("call of undefined function {}", name));
        }
        // DAG summary?
        if self.opts.dag && !self.nodag.contains(&name) && *ret != Ty::Void && self.is_pure(&name, 0) {
            for a in args.iter_mut() {
                if let Val::S(e) = a {
                    let mut x = self.simp(st, *e);
                    if self.a.as_const(x).is_none() && self.a.w(x) >= 32 {
                        // a value the path condition fixes is replaced by that constant
                        let mut memo = HashMap::new();
                        let v = st.model.eval(&self.a, x, &mut memo);
                        let k = self.a.c(self.a.w(x), v);
                        let q = self.a.eq(x, k);
                        if self.implied(st, q)? == Some(true) {
                            x = k;
                        }
                    }
                    *a = Val::S(x);
                }
            }
            match self.dag_call(st, &name, args.clone(), 0, vec![]) {
                Ok(leaf) => {
                    self.stats.dag_calls += 1;
                    self.dag_functions.insert(name.clone());
                    *self.functions.entry(name.clone()).or_insert(0) += 1;
                    if leaf.panic != FALSE {
                        self.stats.panic_checks += 1;
                        match self.decide(st, leaf.panic)? {
                            Ok(false) => {}
                            Ok(true) => {
                                let m = st.model.clone();
                                self.violation(st, &m, "panic", format!("in {}", pretty(&name)));
                                return Err(Stop::Done);
                            }
                            Err((v, m)) => {
                                let bad = if v { (*st.model).clone() } else { m.clone() };
                                self.violation(st, &bad, "panic", format!("in {}", pretty(&name)));
                                let ok = self.a.not(leaf.panic);
                                if v {
                                    st.model = Rc::new(m);
                                }
                                self.add(st, ok);
                            }
                        }
                    }
                    match &leaf.vals {
                        Some(v) => {
                            let mut i = 0;
                            let v = self.unflat(ret, v, &mut i);
                            self.finish_call(st, dst, v, normal);
                            return Ok(());
                        }
                        None => return Err(Stop::Done),
                    }
                }
                Err(Stop::Dag(why)) | Err(Stop::Err(why)) => {
                    if self.opts.trace {
                        eprintln!("no summary for {}: {}", pretty(&name), why);
                    }
                    self.dag_fail.insert(pretty(&name), why);
                    self.nodag.insert(name.clone());
                }
                Err(e) => return Err(e),
            }
        }
        let f = match self.m.func(&mut self.a, &name) {
            Ok(f) => f,
            Err(e) => return err(e),
        };
        *self.functions.entry(name.clone()).or_insert(0) += 1;
        let mut regs = vec![Val::S(0); f.nregs];
        for (i, p) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        if st.frames.len() > 400 {
            return err("call depth");
        }
        if normal.is_some() || dst.is_some() || true {
            st.frames.push(Frame { f, block: 0, ip: 0, regs, dst, normal, allocas: vec![] });
        }
        Ok(())
    }

    fn redirect(&self, st: &State, name: &str) -> Option<Rc<str>> {
        if name.contains("8LowerHex3fmt") && name.contains("3numh") {
            if let Some(s) = &self.stub_hex {
                if !st.frames.iter().any(|f| f.f.name.contains("sym_stub_hex_u8") || f.f.name.contains("hex_stub_real")) {
                    return Some(s.clone());
                }
            }
        }
        None
    }

    fn panic(&mut self, st: &mut State) -> Res1<()> {
        let m = st.model.clone();
        let loc = st
            .frames
            .iter()
            .rev()
            .map(|f| pretty(&f.f.name))
            .filter(|n| !n.contains("panicking") && !n.contains("rust_begin_unwind"))
            .take(3)
            .collect::<Vec<_>>()
            .join(" < ");
        self.violation(st, &m, "panic", format!("in {}", loc));
        Err(Stop::Done)
    }

    fn cstr(&mut self, st: &mut State, p: E, n: Option<u64>) -> Res1<String> {
        let (id, off) = self.resolve(st, p, true)?;
        let o = self.obj(st, None, id)?;
        let Some(k) = self.a.as_const(off) else {
            return err("symbolic string pointer");
        };
        let mut s = vec![];
        let mut i = k as u64;
        loop {
            if let Some(n) = n {
                if s.len() as u64 == n {
                    break;
                }
            }
            let b = self.byte_at(st, false, &o, i)?;
            match self.a.as_const(b) {
                Some(0) if n.is_none() => break,
                Some(c) => s.push(c as u8),
                None => return err("symbolic string"),
            }
            i += 1;
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    fn to64(&mut self, e: E) -> E {
        let w = self.a.w(e);
        if w < 64 {
            self.a.zext(e, 64)
        } else {
            e
        }
    }

    /// Environment functions and harness intrinsics.
    fn set_errno(&mut self, st: &mut State, code: u128) -> Res1<()> {
        const ERRNO: u64 = DYN_BASE - 1;
        if !st.objs.contains_key(&ERRNO) {
            st.objs.insert(ERRNO, Rc::new(Obj::new(4, false)));
        }
        let p = self.a.c64(ERRNO << OBJ_SHIFT);
        let k = self.a.c(32, code);
        self.store(st, &Ty::Int(32), &Val::S(k), p)
    }

    fn builtin(&mut self, st: &mut State, name: &str, args: &[Val], ret: &Ty) -> Res1<Option<Val>> {
        let v = match name {
            "bcmp" | "memcmp" => {
                let n = self.simp(st, args[2].s());
                let n = self.concretize(st, n)? as u64;
                if name == "bcmp" {
                    let e = self.range_eq(st, None, args[0].s(), args[1].s(), n)?;
                    let e = self.a.not(e);
                    Val::S(self.a.zext(e, 32))
                } else {
                    // lexicographic comparison
                    let mut acc = self.a.c(32, 0);
                    let one = self.a.c(32, 1);
                    let neg = self.a.c(32, u128::MAX);
                    let (pi, po) = self.resolve(st, args[0].s(), true)?;
                    let (qi, qo) = self.resolve(st, args[1].s(), true)?;
                    let a = self.obj(st, None, pi)?;
                    let b = self.obj(st, None, qi)?;
                    for i in (0..n).rev() {
                        let k = self.a.c64(i);
                        let x = self.a.add(po, k);
                        let x = self.obj_byte_sym(st, false, &a, x)?;
                        let y = self.a.add(qo, k);
                        let y = self.obj_byte_sym(st, false, &b, y)?;
                        let lt = self.a.ult(x, y);
                        let gt = self.a.ult(y, x);
                        acc = self.a.ite(gt, one, acc);
                        acc = self.a.ite(lt, neg, acc);
                    }
                    Val::S(acc)
                }
            }
            "memcpy" | "memmove" => {
                self.memcpy(st, args[0].s(), args[1].s(), args[2].s())?;
                args[0].clone()
            }
            "memset" => {
                let b = self.a.extract(args[1].s(), 0, 8);
                self.memset(st, args[0].s(), b, args[2].s())?;
                args[0].clone()
            }
            "strlen" => {
                let s = self.cstr(st, args[0].s(), None)?;
                Val::S(self.a.c64(s.len() as u64))
            }
            "malloc" => Val::S(self.malloc(st, args[0].s())?),
            "calloc" => {
                let n = self.a.mul(args[0].s(), args[1].s());
                Val::S(self.malloc(st, n)?)
            }
            "posix_memalign" => {
                let p = self.malloc(st, args[2].s())?;
                self.store(st, &Ty::Ptr, &Val::S(p), args[0].s())?;
                Val::S(self.a.c(32, 0))
            }
            "aligned_alloc" => Val::S(self.malloc(st, args[1].s())?),
            "realloc" => {
                let old = args[0].s();
                let n = args[1].s();
                let p = self.malloc(st, n)?;
                let (oi, oo) = self.resolve(st, old, true)?;
                let o = self.obj(st, None, oi)?;
                let nb = self.bounds(st, n).1;
                let c = self.a.c64(o.size.min(nb));
                let (ni, no) = self.resolve(st, p, true)?;
                let d = self.obj(st, None, ni)?;
                let c = {
                    let cb = self.a.as_const(c).unwrap() as u64;
                    self.a.c64(cb.min(d.size))
                };
                if self.a.as_const(c) != Some(0) {
                    let x = self.copy_into(st, false, &d, no, &o, oo, c)?;
                    st.objs.insert(ni, Rc::new(x));
                }
                st.objs.remove(&oi);
                Val::S(p)
            }
            "free" => {
                let p = self.simp(st, args[0].s());
                if self.a.as_const(p) != Some(0) {
                    let (id, _) = self.resolve(st, p, true)?;
                    st.objs.remove(&id);
                }
                Val::S(0)
            }
            "__errno_location" => {
                const ERRNO: u64 = DYN_BASE - 1;
                if !st.objs.contains_key(&ERRNO) {
                    st.objs.insert(ERRNO, Rc::new(Obj::new(4, false)));
                }
                Val::S(self.a.c64(ERRNO << OBJ_SHIFT))
            }
            "open64" | "open" => {
                let s = self.cstr(st, args[0].s(), None)?;
                let Some(h) = s.strip_prefix("/sym/").and_then(|x| x.split('.').next()).and_then(|x| x.parse::<usize>().ok()) else {
                    return err(format!("open of {:?}", s));
                };
                let Some(&(file, len)) = st.path_files.get(h) else {
                    self.set_errno(st, 2)?;
                    return Ok(Some(Val::S(self.a.c(32, 0xffff_ffff))));
                };
                let z = self.a.c64(0);
                st.fds.push(Fd { file, pos: z, len, open: true });
                Val::S(self.a.c(32, 100 + st.fds.len() as u128 - 1))
            }
            "read" => {
                let fd = self.concretize(st, args[0].s())? as usize;
                let Some(d) = fd.checked_sub(100).and_then(|i| st.fds.get(i)).cloned() else {
                    return err("read on unknown descriptor");
                };
                // the length of a directory
                if self.a.as_const(d.len) == Some(u64::MAX as u128) {
                    self.set_errno(st, 21)?;
                    return Ok(Some(Val::S(self.a.c64(u64::MAX))));
                }
                let want = args[2].s();
                let left = self.a.sub(d.len, d.pos);
                let past = self.a.ule(d.len, d.pos);
                let z = self.a.c64(0);
                let avail = self.a.ite(past, z, left);
                let c = self.a.ult(avail, want);
                // end of file decides the shape of the rest: fork here
                let n = if self.branch(st, c)? { self.simp(st, avail) } else { want };
                self.fill(st, d.file, d.pos, args[1].s(), n)?;
                st.fds[fd - 100].pos = self.a.add(d.pos, n);
                Val::S(n)
            }
            "lseek64" | "lseek" => {
                let fd = self.concretize(st, args[0].s())? as usize;
                let Some(d) = fd.checked_sub(100).and_then(|i| st.fds.get(i)).cloned() else {
                    return err("lseek on unknown descriptor");
                };
                let off = args[1].s();
                let wh = self.concretize(st, args[2].s())?;
                let base = match wh {
                    0 => self.a.c64(0),
                    1 => d.pos,
                    2 => d.len,
                    _ => return err("lseek whence"),
                };
                let np = self.a.add(base, off);
                let z = self.a.c64(0);
                let neg = self.a.slt(np, z);
                if self.branch(st, neg)? {
                    self.set_errno(st, 22)?;
                    Val::S(self.a.c64(u64::MAX))
                } else {
                    st.fds[fd - 100].pos = np;
                    Val::S(np)
                }
            }
            "close" => {
                let fd = self.concretize(st, args[0].s())? as usize;
                if let Some(d) = fd.checked_sub(100).and_then(|i| st.fds.get_mut(i)) {
                    d.open = false;
                }
                Val::S(self.a.c(32, 0))
            }
            "fcntl" | "fcntl64" => Val::S(self.a.c(32, 0)),
            "posix_fadvise" | "posix_fadvise64" => Val::S(self.a.c(32, 0)),
            "statx" => {
                self.set_errno(st, 38)?;
                Val::S(self.a.c(32, 0xffff_ffff))
            }
            "fstat64" | "fstat" | "stat64" | "stat" | "lstat64" | "lstat" => {
                let size = if name.starts_with('f') {
                    let fd = self.concretize(st, args[0].s())? as usize;
                    let Some(d) = fd.checked_sub(100).and_then(|i| st.fds.get(i)) else {
                        return err("fstat on unknown descriptor");
                    };
                    d.len
                } else {
                    let s = self.cstr(st, args[0].s(), None)?;
                    let Some(h) = s.strip_prefix("/sym/").and_then(|x| x.split('.').next()).and_then(|x| x.parse::<usize>().ok()) else {
                        return err(format!("stat of {:?}", s));
                    };
                    let Some(&(_, len)) = st.path_files.get(h) else {
                        self.set_errno(st, 2)?;
                        return Ok(Some(Val::S(self.a.c(32, 0xffff_ffff))));
                    };
                    len
                };
                let directory = self.a.as_const(size) == Some(u64::MAX as u128);
                let size = if directory { self.a.c64(4096) } else { size };
                let z = self.a.c64(0);
                for i in 0..18 {
                    let o = self.a.c64(i * 8);
                    let p = self.a.add(args[1].s(), o);
                    let v = match i {
                        3 => self.a.c64(if directory { 0o040755 } else { 0o100644 }),
                        6 => size,
                        _ => z,
                    };
                    self.store(st, &Ty::Int(64), &Val::S(v), p)?;
                }
                Val::S(self.a.c(32, 0))
            }
            _ if name.starts_with("sym_") && !name.starts_with("sym_stub") => {
                return self.sym_call(st, name, args, ret).map(Some)
            }
            _ => return Ok(None),
        };
        Ok(Some(v))
    }

    fn malloc(&mut self, st: &mut State, n: E) -> Res1<E> {
        let n = self.simp(st, n);
        if let Some(k) = self.a.as_const(n) {
            let k = k as u64;
            if k > st.alloc_limit {
                let m = st.model.clone();
                self.violation(st, &m, "alloc", format!("allocation of {} bytes", k));
                return Err(Stop::Done);
            }
            if k >= 1 << 32 {
                return err("allocation above 4 GiB");
            }
            let p = self.alloc(st, k, true);
            return Ok(self.a.c64(p));
        }
        // symbolic size: bounded by the limit (checked) or by its own range
        let mut hi = self.bounds(st, n).1;
        if hi > st.alloc_limit {
            let lim = self.a.c64(st.alloc_limit);
            let over = self.a.ult(lim, n);
            match self.decide(st, over)? {
                Ok(false) => {}
                Ok(true) => {
                    let m = st.model.clone();
                    self.violation(st, &m, "alloc", "allocation above the limit".into());
                    return Err(Stop::Done);
                }
                Err((v, m)) => {
                    let bad = if v { (*st.model).clone() } else { m.clone() };
                    let mut memo = HashMap::new();
                    let k = bad.eval(&self.a, n, &mut memo);
                    self.violation(st, &bad, "alloc", format!("allocation of {} bytes", k));
                    let ok = self.a.not(over);
                    if v {
                        st.model = Rc::new(m);
                    }
                    self.add(st, ok);
                }
            }
            hi = hi.min(st.alloc_limit);
        }
        if hi >= 1 << 32 {
            // try the solver for a bound
            let lim = self.a.c64((1 << 32) - 1);
            let over = self.a.ult(lim, n);
            if self.implied(st, over)? != Some(false) {
                return err("allocation of unbounded symbolic size");
            }
            hi = (1 << 32) - 1;
        }
        let p = self.alloc(st, hi, true);
        Ok(self.a.c64(p))
    }

    fn fill(&mut self, st: &mut State, file: u32, pos: E, ptr: E, n: E) -> Res1<()> {
        let n = self.simp(st, n);
        let pos = self.simp(st, pos);
        if self.a.as_const(n) == Some(0) {
            return Ok(());
        }
        self.sealed.insert(file);
        let (id, off) = self.resolve(st, ptr, true)?;
        let off = match self.a.as_const(off) {
            Some(k) => k as u64,
            None => self.concretize(st, off)? as u64,
        };
        let size = self.obj(st, None, id)?.size;
        let offe = self.a.c64(off);
        self.check_room(st, offe, n, size, "read buffer")?;
        if let Some(k) = self.a.as_const(n) {
            if k <= 64 {
                let mut w = vec![];
                for i in 0..k as u64 {
                    let kk = self.a.c64(i);
                    let p = self.a.add(pos, kk);
                    let s = self.a.sel(file, p);
                    w.push((i, self.leaf(st, s)));
                }
                let o = self.obj_mut(st, id)?;
                return Self::write_const(o, off, &w);
            }
        }
        let max = self.bounds(st, n).1.min(size - off);
        let o = self.obj_mut(st, id)?;
        o.push_bulk(Bulk::Fill { start: off, max, file, pos, n });
        Ok(())
    }

    fn file_of(&mut self, st: &mut State, h: E) -> Res1<usize> {
        let h = self.concretize(st, h)? as usize;
        if h >= st.files.len() {
            return err("unknown file handle");
        }
        Ok(h)
    }

    fn file_mut(&mut self, st: &mut State, h: usize) -> u32 {
        let f = st.files[h];
        if self.sealed.contains(&f) {
            let info = self.a.files[f as usize].clone();
            self.a.files.push(info);
            let n = self.a.files.len() as u32 - 1;
            for p in st.path_files.iter_mut() {
                if p.0 == f {
                    p.0 = n;
                }
            }
            st.files[h] = n;
            n
        } else {
            f
        }
    }

    fn sym_call(&mut self, st: &mut State, name: &str, args: &[Val], _ret: &Ty) -> Res1<Val> {
        Ok(match name {
            "sym_u64" => {
                // (lo, hi)
                let lo = self.concretize(st, args[0].s())? as u64;
                let hi = self.concretize(st, args[1].s())? as u64;
                let e = if lo == hi {
                    self.a.c64(lo)
                } else {
                    let bits = (64 - (hi - lo).leading_zeros()) as u8;
                    let v = self.a.var(bits.max(1), "u");
                    let x = self.a.zext(v, 64);
                    let k = self.a.c64(lo);
                    let e = self.a.add(x, k);
                    if bits < 64 && hi - lo != (1u64 << bits) - 1 {
                        let b = self.a.c(bits, (hi - lo) as u128);
                        let c = self.a.ule(v, b);
                        // model default 0 satisfies it
                        self.add(st, c);
                    } else if bits == 64 && hi - lo != u64::MAX {
                        let b = self.a.c(64, (hi - lo) as u128);
                        let c = self.a.ule(v, b);
                        self.add(st, c);
                    }
                    e
                };
                st.inputs.push(Input::Val(e));
                Val::S(e)
            }
            "sym_bool" => {
                let v = self.a.var(1, "b");
                let e = self.a.zext(v, 64);
                st.inputs.push(Input::Val(e));
                Val::S(v)
            }
            "sym_bytes" => {
                let n = self.concretize(st, args[1].s())? as u64;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.a.var(8, "y"));
                }
                let (id, off) = self.resolve(st, args[0].s(), true)?;
                let Some(k) = self.a.as_const(off) else {
                    return err("sym_bytes");
                };
                let w: Vec<(u64, E)> = v.iter().enumerate().map(|(i, e)| (i as u64, *e)).collect();
                let o = self.obj_mut(st, id)?;
                Self::write_const(o, k as u64, &w)?;
                st.inputs.push(Input::Bytes(v));
                Val::S(0)
            }
            "sym_choice" => {
                // forks into n states without a solver query
                let n = self.concretize(st, args[0].s())? as u64;
                let f = st.frames.last().unwrap().clone();
                let Ins::Call { dst, normal, .. } = &f.f.blocks[f.block as usize].ins[f.ip] else {
                    return err("sym_choice");
                };
                for k in (1..n).rev() {
                    let mut sib = st.fork();
                    let e = self.a.c64(k);
                    sib.inputs.push(Input::Val(e));
                    self.finish_call(&mut sib, *dst, Val::S(e), *normal);
                    self.work.push(sib);
                    self.stats.forks += 1;
                }
                self.seal(st);
                let e = self.a.c64(0);
                st.inputs.push(Input::Val(e));
                Val::S(e)
            }
            "sym_assume" => {
                let c = args[0].s();
                match self.decide(st, c)? {
                    Ok(true) => {}
                    Ok(false) => return Err(Stop::Infeasible),
                    Err((v, m)) => {
                        let c = self.simp(st, c);
                        if !v {
                            st.model = Rc::new(m);
                        }
                        self.add(st, c);
                    }
                }
                Val::S(0)
            }
            "sym_assert" => {
                let n = self.concretize(st, args[1].s())? as u64;
                let id = self.cstr(st, args[0].s(), Some(n))?;
                self.stats.asserts += 1;
                let c = args[2].s();
                if self.a.as_const(c).is_none() {
                    self.stats.asserts_by_solver += 1;
                }
                match self.decide(st, c)? {
                    Ok(true) => {}
                    Ok(false) => {
                        let m = st.model.clone();
                        self.violation(st, &m, "assert", id);
                        return Err(Stop::Done);
                    }
                    Err((v, m)) => {
                        let bad = if v { m.clone() } else { (*st.model).clone() };
                        self.violation(st, &bad, "assert", id);
                        let c = self.simp(st, c);
                        if !v {
                            st.model = Rc::new(m);
                        }
                        self.add(st, c);
                    }
                }
                Val::S(0)
            }
            "sym_report" => {
                let n = self.concretize(st, args[1].s())? as u64;
                let id = self.cstr(st, args[0].s(), Some(n))?;
                st.reports.push((id, args[2].s()));
                Val::S(0)
            }
            "sym_cover" => {
                let n = self.concretize(st, args[1].s())? as u64;
                let id = self.cstr(st, args[0].s(), Some(n))?;
                st.covers.push(id);
                Val::S(0)
            }
            "sym_cover_if" => {
                let n = self.concretize(st, args[1].s())? as u64;
                let id = self.cstr(st, args[0].s(), Some(n))?;
                if !self.covers.contains(&id) {
                    let c = self.simp(st, args[2].s());
                    let mut memo = HashMap::new();
                    let sat = if let Some(v) = self.a.as_const(c) {
                        v == 1
                    } else if st.model.eval(&self.a, c, &mut memo) == 1 {
                        true
                    } else {
                        self.s.check(&self.a, &st.pc, &[c], &st.model).0 == Res::Sat
                    };
                    if sat {
                        self.covers.insert(id);
                    }
                }
                Val::S(0)
            }
            "sym_case" => {
                let n = self.concretize(st, args[1].s())? as u64;
                let id = self.cstr(st, args[0].s(), Some(n))?;
                st.case.push(id);
                Val::S(0)
            }
            "sym_concretize" => {
                let e = args[0].s();
                let v = self.concretize(st, e)?;
                let w = self.a.w(e);
                Val::S(self.a.c(w, v))
            }
            "sym_is_symbolic" => {
                let e = self.simp(st, args[0].s());
                Val::S(if self.a.is_const(e) { FALSE } else { TRUE })
            }
            "sym_alloc_limit" => {
                st.alloc_limit = self.concretize(st, args[0].s())? as u64;
                Val::S(0)
            }
            "sym_file_new" => {
                self.a.files.push(FileInfo::default());
                let f = self.a.files.len() as u32 - 1;
                st.files.push(f);
                st.inputs.push(Input::File(st.files.len() as u32 - 1));
                Val::S(self.a.c(32, st.files.len() as u128 - 1))
            }
            "sym_file_default" => {
                let h = self.file_of(st, args[0].s())?;
                let v = self.concretize(st, args[1].s())? as u8;
                let f = self.file_mut(st, h);
                self.a.files[f as usize].default = Some(v);
                Val::S(0)
            }
            "sym_file_zone" => {
                let h = self.file_of(st, args[0].s())?;
                let lo = self.concretize(st, args[1].s())? as u64;
                let hi = self.concretize(st, args[2].s())? as u64;
                let v = self.concretize(st, args[3].s())? as u8;
                let f = self.file_mut(st, h);
                self.a.files[f as usize].zones.push((lo, hi, v));
                Val::S(0)
            }
            "sym_file_bytes" | "sym_file_pattern" => {
                // (file, pos, ptr, len)
                let h = self.file_of(st, args[0].s())?;
                let pos = self.concretize(st, args[1].s())? as u64;
                let n = self.concretize(st, args[3].s())? as u64;
                let (id, off) = self.resolve(st, args[2].s(), true)?;
                let o = self.obj(st, None, id)?;
                let Some(k) = self.a.as_const(off) else {
                    return err("sym_file_bytes");
                };
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.byte_at(st, false, &o, k as u64 + i)?);
                }
                let f = self.file_mut(st, h) as usize;
                if name == "sym_file_bytes" {
                    for (i, e) in v.into_iter().enumerate() {
                        self.a.files[f].cells.insert(pos.wrapping_add(i as u64), e);
                    }
                } else {
                    self.a.files[f].pattern = Some((pos, v));
                }
                Val::S(0)
            }
            "sym_at" => {
                let h = self.file_of(st, args[0].s())?;
                let f = st.files[h];
                self.sealed.insert(f);
                let p = self.simp(st, args[1].s());
                let s = self.a.sel(f, p);
                Val::S(self.leaf(st, s))
            }
            "sym_fill" => {
                let h = self.file_of(st, args[0].s())?;
                let f = st.files[h];
                self.fill(st, f, args[1].s(), args[2].s(), args[3].s())?;
                Val::S(0)
            }
            "sym_path" => {
                // (file, len) -> index of a path "/sym/<i>"
                let h = self.file_of(st, args[0].s())?;
                st.path_files.push((st.files[h], args[1].s()));
                Val::S(self.a.c64(st.path_files.len() as u64 - 1))
            }
            "sym_trace" => {
                if self.opts.trace {
                    let n = self.concretize(st, args[1].s())? as u64;
                    let id = self.cstr(st, args[0].s(), Some(n))?;
                    eprintln!("trace {} = {}", id, self.a.show(args[2].s(), 8));
                }
                Val::S(0)
            }
            _ => return err(format!("unknown intrinsic {}", name)),
        })
    }

    // ------------------------------------------------------------------ DAG mode

    /// Conservative static check: no stores outside own allocas, no impure calls, returns a value.
    pub fn is_pure(&mut self, name: &Rc<str>, depth: u32) -> bool {
        if let Some(&p) = self.purity.get(name) {
            return p;
        }
        if depth > 24 {
            return false;
        }
        if self.opts.nodag.iter().any(|x| name.contains(x.as_str())) {
            self.purity.insert(name.clone(), false);
            return false;
        }
        self.purity.insert(name.clone(), false); // recursion
        let f = match self.m.func(&mut self.a, name) {
            Ok(f) => f,
            Err(_) => return false,
        };
        let mut ok = true;
        // registers derived from allocas
        let mut own: HashSet<u32> = HashSet::new();
        loop {
            let n = own.len();
            for b in &f.blocks {
                for (d, v) in &b.phis {
                    if !v.is_empty()
                        && v.iter().all(|(_, o)| matches!(o, Op::R(r) if own.contains(r) || r == d))
                        && v.iter().any(|(_, o)| matches!(o, Op::R(r) if own.contains(r)))
                    {
                        own.insert(*d);
                    }
                }
                for i in &b.ins {
                    match i {
                        Ins::Alloca { dst, .. } => {
                            own.insert(*dst);
                        }
                        Ins::Gep { dst, base: Op::R(r), .. } if own.contains(r) => {
                            own.insert(*dst);
                        }
                        Ins::Copy { dst, a: Op::R(r) } if own.contains(r) => {
                            own.insert(*dst);
                        }
                        _ => {}
                    }
                }
            }
            if own.len() == n {
                break;
            }
        }
        let is_own = |o: &Op| matches!(o, Op::R(r) if own.contains(r));
        'o: for b in &f.blocks {
            let dead_end = matches!(b.ins.last(), Some(Ins::Unreachable));
            for i in &b.ins {
                match i {
                    Ins::Store { ptr, .. } => {
                        if !is_own(ptr) && !dead_end {
                            ok = false;
                            break 'o;
                        }
                    }
                    Ins::Rmw { .. } | Ins::CmpXchg { .. } => {
                        ok = false;
                        break 'o;
                    }
                    Ins::Bad(s) => {
                        if s != "landingpad" && s != "resume" {
                            ok = false;
                            break 'o;
                        }
                    }
                    Ins::Call { callee, args, ret, .. } => {
                        if dead_end {
                            continue;
                        }
                        match callee {
                            Callee::Ind(_) => {
                                ok = false;
                                break 'o;
                            }
                            Callee::Sym(s) => {
                                let s = s.clone();
                                if s.starts_with("llvm.mem") {
                                    if !is_own(&args[0]) {
                                        ok = false;
                                        break 'o;
                                    }
                                } else if s.starts_with("llvm.")
                                    || &*s == "bcmp"
                                    || &*s == "sym_at"
                                    || is_panic_fn(&s)
                                {
                                } else if self.m.defs.contains_key(&s) {
                                    let noret = self
                                        .m
                                        .func(&mut self.a, &s)
                                        .map(|f| f.noreturn)
                                        .unwrap_or(false);
                                    if noret {
                                        continue;
                                    }
                                    if *ret == Ty::Void || !self.is_pure(&s, depth + 1) {
                                        ok = false;
                                        break 'o;
                                    }
                                } else {
                                    ok = false;
                                    break 'o;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if f.ret == Ty::Void {
            ok = false;
        }
        self.purity.insert(name.clone(), ok);
        ok
    }

    fn dag_call(
        &mut self,
        st: &mut State,
        name: &Rc<str>,
        args: Vec<Val>,
        depth: u64,
        outer: Vec<BTreeMap<u64, Rc<Obj>>>,
    ) -> Res1<Rc<Leaf>> {
        let f = match self.m.func(&mut self.a, name) {
            Ok(f) => f,
            Err(e) => return Err(Stop::Dag(e)),
        };
        if depth > 16 {
            return Err(Stop::Dag("depth".into()));
        }
        if depth == 0 {
            self.stats.dag_nodes = 0;
        }
        let mut regs = vec![Val::S(0); f.nregs];
        for (i, p) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        let mut preds = vec![0u32; f.blocks.len()];
        for b in &f.blocks {
            for s in successors(b) {
                preds[s as usize] += 1;
            }
        }
        let mut cx = DagCx {
            f,
            depth,
            outer,
            memo: HashMap::new(),
            keep: vec![],
            preds: Rc::new(preds),
        };
        let ds = DagState { block: 0, ip: 0, regs, locals: BTreeMap::new(), nalloc: 0 };
        self.explore(st, &mut cx, ds)
    }

    fn combine(&mut self, c: E, x: &Leaf, y: &Leaf) -> Rc<Leaf> {
        let panic = self.a.ite(c, x.panic, y.panic);
        let vals = match (&x.vals, &y.vals) {
            (Some(p), Some(q)) => {
                Some(p.iter().zip(q.iter()).map(|(a, b)| self.a.ite(c, *a, *b)).collect())
            }
            (Some(p), None) => Some(p.clone()),
            (None, Some(q)) => Some(q.clone()),
            (None, None) => None,
        };
        Rc::new(Leaf { panic, vals })
    }

    fn dag_goto(ds: &mut DagState, f: &Func, to: u32) {
        let from = ds.block;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<(u32, Val)> = b
                .phis
                .iter()
                .map(|(d, v)| {
                    let o = &v.iter().find(|x| x.0 == from).expect("engine: phi edge").1;
                    (*d, Self::op(&ds.regs, o))
                })
                .collect();
            for (d, v) in vals {
                ds.regs[d as usize] = v;
            }
        }
        ds.block = to;
        ds.ip = 0;
    }

    fn explore(&mut self, st: &mut State, cx: &mut DagCx, mut ds: DagState) -> Res1<Rc<Leaf>> {
        let mut keys: Vec<(u32, Vec<Val>, Vec<u64>)> = vec![];
        let f = cx.f.clone();
        let res: Rc<Leaf> = 'run: loop {
            if ds.ip == 0 && cx.preds[ds.block as usize] > 1 {
                let live: Vec<Val> =
                    f.live[ds.block as usize].iter().map(|&r| ds.regs[r as usize].clone()).collect();
                let mut id = vec![];
                for (k, o) in &ds.locals {
                    id.push(*k);
                    o.ident(&mut id);
                }
                let key = (ds.block, live, id);
                match cx.memo.get(&key) {
                    Some(Some(l)) => break 'run l.clone(),
                    Some(None) => return Err(Stop::Dag("cycle".into())),
                    None => {}
                }
                cx.memo.insert(key.clone(), None);
                if !ds.locals.is_empty() {
                    cx.keep.push(ds.locals.clone());
                }
                keys.push(key);
                self.stats.dag_nodes += 1;
                if self.stats.dag_nodes > self.opts.dag_limit {
                    return Err(Stop::Dag("node limit".into()));
                }
                if self.stats.dag_nodes & 0xff == 0
                    && self.start.elapsed().as_secs_f64() > self.opts.deadline
                {
                    return err("deadline reached inside a summary");
                }
            }
            let ins = &f.blocks[ds.block as usize].ins[ds.ip];
            if self.simple(ins, &mut ds.regs)? {
                ds.ip += 1;
                continue;
            }
            match ins {
                Ins::Alloca { dst, size, count } => {
                    if count.is_some() {
                        return Err(Stop::Dag("dynamic alloca".into()));
                    }
                    let id = DAG_LOCAL + cx.depth * 0x10000 + ds.nalloc;
                    ds.nalloc += 1;
                    ds.locals.insert(id, Rc::new(Obj::new(*size, false)));
                    ds.regs[*dst as usize] = Val::S(self.a.c64(id << OBJ_SHIFT));
                    ds.ip += 1;
                }
                Ins::Load { dst, ty, ptr } => {
                    let p = Self::op(&ds.regs, ptr).s();
                    let loaded = match self.load(st, Some((&ds, cx)), ty, p) {
                        // beyond the object: only reachable if a guard decided later is false
                        Err(Stop::Err(e)) if e.starts_with("out-of-bounds") => {
                            break 'run Rc::new(Leaf { panic: TRUE, vals: None });
                        }
                        r => r?,
                    };
                    match loaded {
                        LoadRes::Val(v) => {
                            ds.regs[*dst as usize] = v;
                            ds.ip += 1;
                        }
                        LoadRes::Fork(alts) => {
                            let mut acc: Option<Rc<Leaf>> = None;
                            for (c, v) in alts.into_iter().rev() {
                                let c = self.simp(st, c);
                                if c == FALSE {
                                    continue;
                                }
                                let mut d2 = ds.clone();
                                d2.regs[*dst as usize] = v;
                                d2.ip += 1;
                                let l = self.explore(st, cx, d2)?;
                                acc = Some(match acc {
                                    None => l,
                                    Some(p) => self.combine(c, &l, &p),
                                });
                            }
                            match acc {
                                Some(l) => break 'run l,
                                None => return Err(Stop::Dag("empty load".into())),
                            }
                        }
                    }
                }
                Ins::Store { ty, val, ptr } => {
                    let p = Self::op(&ds.regs, ptr).s();
                    let v = Self::op(&ds.regs, val);
                    let (id, off) = self.resolve(st, p, false)?;
                    let Some(k) = self.a.as_const(off) else {
                        return Err(Stop::Dag("symbolic store".into()));
                    };
                    let mut w = vec![];
                    self.flatten(ty, &v, 0, &mut w);
                    let Some(o) = ds.locals.get_mut(&id) else {
                        return Err(Stop::Dag("store outside the frame".into()));
                    };
                    Self::write_const(Rc::make_mut(o), k as u64, &w)?;
                    ds.ip += 1;
                }
                Ins::Br(l) => Self::dag_goto(&mut ds, &f, *l),
                Ins::CondBr(c, x, y) => {
                    let c0 = Self::op(&ds.regs, c).s();
                    let c = self.simp(st, c0);
                    match c {
                        TRUE => Self::dag_goto(&mut ds, &f, *x),
                        FALSE => Self::dag_goto(&mut ds, &f, *y),
                        _ => {
                            let mut d2 = ds.clone();
                            Self::dag_goto(&mut d2, &f, *x);
                            let p = self.explore(st, cx, d2)?;
                            Self::dag_goto(&mut ds, &f, *y);
                            let q = self.explore(st, cx, ds)?;
                            break 'run self.combine(c, &p, &q);
                        }
                    }
                }
                Ins::Switch(o, d, cs) => {
                    let v = Self::op(&ds.regs, o).s();
                    let v = self.simp(st, v);
                    if let Some(k) = self.a.as_const(v) {
                        let mut to = *d;
                        for (c, l) in cs {
                            if self.a.as_const(*c) == Some(k) {
                                to = *l;
                                break;
                            }
                        }
                        Self::dag_goto(&mut ds, &f, to);
                    } else {
                        let mut dd = ds.clone();
                        Self::dag_goto(&mut dd, &f, *d);
                        let mut acc = self.explore(st, cx, dd)?;
                        for (c, l) in cs.iter().rev() {
                            let q = self.a.eq(v, *c);
                            if q == FALSE {
                                continue;
                            }
                            let mut d2 = ds.clone();
                            Self::dag_goto(&mut d2, &f, *l);
                            let p = self.explore(st, cx, d2)?;
                            acc = self.combine(q, &p, &acc);
                        }
                        break 'run acc;
                    }
                }
                Ins::Ret(o) => {
                    let mut v = vec![];
                    if let Some(o) = o {
                        Self::flat_vals(&Self::op(&ds.regs, o), &mut v);
                    }
                    break 'run Rc::new(Leaf { panic: FALSE, vals: Some(v) });
                }
                Ins::Unreachable => {
                    // a path the compiler proved impossible
                    return Err(Stop::Dag("unreachable".into()));
                }
                Ins::Call { dst, ret, callee, args, normal } => {
                    let name: Rc<str> = match callee {
                        Callee::Sym(s) => s.clone(),
                        Callee::Ind(_) => return Err(Stop::Dag("indirect call".into())),
                    };
                    let av: Vec<Val> = args.iter().map(|o| Self::op(&ds.regs, o)).collect();
                    if is_panic_fn(&name) {
                        break 'run Rc::new(Leaf { panic: TRUE, vals: None });
                    }
                    let v: Val;
                    if name.starts_with("llvm.mem") {
                        let n = self.simp(st, av[2].s());
                        if self.a.as_const(n) != Some(0) {
                            let (di, doff) = self.resolve(st, av[0].s(), false)?;
                            if !ds.locals.contains_key(&di) {
                                return Err(Stop::Dag("copy outside the frame".into()));
                            }
                            if self.a.as_const(doff).is_none() || self.a.as_const(n).is_none() {
                                return Err(Stop::Dag("symbolic copy".into()));
                            }
                            let d = ds.locals[&di].clone();
                            let o = if name.starts_with("llvm.memset") {
                                self.set_into(st, &d, doff, av[1].s(), n)?
                            } else {
                                let (si, soff) = self.resolve(st, av[1].s(), false)?;
                                let s = self.obj(st, Some((&ds, cx)), si)?;
                                self.copy_into(st, true, &d, doff, &s, soff, n)?
                            };
                            ds.locals.insert(di, Rc::new(o));
                        }
                        v = Val::S(0);
                    } else if let Some(x) = self.intrinsic(&name, &av, ret)? {
                        v = x;
                    } else if &*name == "bcmp" {
                        let n = self.simp(st, av[2].s());
                        let Some(n) = self.a.as_const(n) else {
                            return Err(Stop::Dag("symbolic bcmp length".into()));
                        };
                        let e = self.range_eq(st, Some((&ds, cx)), av[0].s(), av[1].s(), n as u64)?;
                        let e = self.a.not(e);
                        v = Val::S(self.a.zext(e, 32));
                    } else if &*name == "sym_at" {
                        let h = match self.a.as_const(av[0].s()) {
                            Some(h) if (h as usize) < st.files.len() => h as usize,
                            _ => return Err(Stop::Dag("file handle".into())),
                        };
                        let fl = st.files[h];
                        self.sealed.insert(fl);
                        let p = self.simp(st, av[1].s());
                        let s = self.a.sel(fl, p);
                        v = Val::S(self.leaf(st, s));
                    } else {
                        let noret = match self.m.func(&mut self.a, &name) {
                            Ok(f) => f.noreturn,
                            Err(e) => return Err(Stop::Dag(e)),
                        };
                        if noret {
                            break 'run Rc::new(Leaf { panic: TRUE, vals: None });
                        }
                        let mut outer = cx.outer.clone();
                        outer.push(ds.locals.clone());
                        *self.functions.entry(name.clone()).or_insert(0) += 1;
                        let l = self.dag_call(st, &name, av, cx.depth + 1, outer)?;
                        if l.panic != FALSE {
                            if l.vals.is_none() {
                                break 'run l;
                            }
                            let lv = l.vals.clone().unwrap();
                            let mut i = 0;
                            let val = self.unflat(ret, &lv, &mut i);
                            let mut d2 = ds.clone();
                            if let Some(d) = dst {
                                d2.regs[*d as usize] = val;
                            }
                            match normal {
                                Some(t) => Self::dag_goto(&mut d2, &f, *t),
                                None => d2.ip += 1,
                            }
                            let r = self.explore(st, cx, d2)?;
                            let bad = Leaf { panic: TRUE, vals: None };
                            break 'run self.combine(l.panic, &bad, &r);
                        }
                        let lv = l.vals.clone().unwrap();
                        let mut i = 0;
                        v = self.unflat(ret, &lv, &mut i);
                    }
                    if let Some(d) = dst {
                        ds.regs[*d as usize] = v;
                    }
                    match normal {
                        Some(t) => Self::dag_goto(&mut ds, &f, *t),
                        None => ds.ip += 1,
                    }
                }
                Ins::Bad(s) => return Err(Stop::Dag(format!("unsupported: {}", s))),
                _ => return Err(Stop::Dag("instruction".into())),
            }
        };
        for k in keys {
            cx.memo.insert(k, Some(res.clone()));
        }
        Ok(res)
    }
}

/// (wrapped result, overflow flag)
fn ovf(a: &mut Arena, base: &str, x: E, y: E) -> (E, E) {
    let w = a.w(x);
    match base {
        "uadd" => {
            let s = a.add(x, y);
            // constant right operand: x > MAX - k
            let o = match (a.as_const(x), a.as_const(y)) {
                (_, Some(k)) => {
                    let lim = a.c(w, mask(w) - k);
                    a.ult(lim, x)
                }
                (Some(k), _) => {
                    let lim = a.c(w, mask(w) - k);
                    a.ult(lim, y)
                }
                _ => a.ult(s, x),
            };
            (s, o)
        }
        "usub" => {
            let s = a.sub(x, y);
            let o = a.ult(x, y);
            (s, o)
        }
        "sadd" => {
            let s = a.add(x, y);
            let z = a.c(w, 0);
            let n = a.slt(y, z);
            let l = a.slt(s, x);
            let o = a.xor(n, l);
            (s, o)
        }
        "ssub" => {
            let s = a.sub(x, y);
            let z = a.c(w, 0);
            let n = a.slt(z, y);
            let l = a.slt(s, x);
            let o = a.xor(n, l);
            (s, o)
        }
        "umul" | "smul" => {
            let s = a.mul(x, y);
            if w <= 64 {
                let signed = base == "smul";
                if let (false, Some(k)) = (signed, a.as_const(y).or(a.as_const(x))) {
                    let v = if a.is_const(y) { x } else { y };
                    if k == 0 {
                        return (s, FALSE);
                    }
                    let lim = a.c(w, mask(w) / k);
                    let o = a.ult(lim, v);
                    return (s, o);
                }
                let (p, q) = if signed {
                    (a.sext(x, 2 * w), a.sext(y, 2 * w))
                } else {
                    (a.zext(x, 2 * w), a.zext(y, 2 * w))
                };
                let m = a.mul(p, q);
                let back = if signed { a.sext(s, 2 * w) } else { a.zext(s, 2 * w) };
                let e = a.eq(m, back);
                let o = a.not(e);
                (s, o)
            } else {
                panic!("engine: wide multiplication overflow")
            }
        }
        _ => unreachable!(),
    }
}
