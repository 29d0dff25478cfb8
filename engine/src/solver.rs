//! Thin binding to libz3 (loaded at run time) plus translation of `E` expressions.

use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type Ast = *mut c_void;
type Ctx = *mut c_void;
type Ptr = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

macro_rules! z3api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Api {
                Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    assert!(!p.is_null(), "engine: z3 symbol {} missing", stringify!($name));
                    std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                },)* }
            }
        }
    };
}

z3api! {
    Z3_mk_config: fn() -> Ptr;
    Z3_set_param_value: fn(Ptr, *const c_char, *const c_char);
    Z3_mk_context: fn(Ptr) -> Ctx;
    Z3_del_context: fn(Ctx);
    Z3_del_config: fn(Ptr);
    Z3_set_error_handler: fn(Ctx, Ptr);
    Z3_get_full_version: fn() -> *const c_char;
    Z3_inc_ref: fn(Ctx, Ast);
    Z3_mk_string_symbol: fn(Ctx, *const c_char) -> Ptr;
    Z3_mk_bool_sort: fn(Ctx) -> Ptr;
    Z3_mk_bv_sort: fn(Ctx, c_uint) -> Ptr;
    Z3_mk_const: fn(Ctx, Ptr, Ptr) -> Ast;
    Z3_mk_true: fn(Ctx) -> Ast;
    Z3_mk_false: fn(Ctx) -> Ast;
    Z3_mk_eq: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_not: fn(Ctx, Ast) -> Ast;
    Z3_mk_ite: fn(Ctx, Ast, Ast, Ast) -> Ast;
    Z3_mk_and: fn(Ctx, c_uint, *const Ast) -> Ast;
    Z3_mk_or: fn(Ctx, c_uint, *const Ast) -> Ast;
    Z3_mk_xor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_numeral: fn(Ctx, *const c_char, Ptr) -> Ast;
    Z3_mk_unsigned_int64: fn(Ctx, u64, Ptr) -> Ast;
    Z3_mk_bvadd: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvmul: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvudiv: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvsdiv: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvurem: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvsrem: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvand: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvxor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvneg: fn(Ctx, Ast) -> Ast;
    Z3_mk_bvshl: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvlshr: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvashr: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvult: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvule: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvslt: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_concat: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_extract: fn(Ctx, c_uint, c_uint, Ast) -> Ast;
    Z3_mk_zero_ext: fn(Ctx, c_uint, Ast) -> Ast;
    Z3_mk_sign_ext: fn(Ctx, c_uint, Ast) -> Ast;
    Z3_mk_simple_solver: fn(Ctx) -> Ptr;
    Z3_mk_solver_for_logic: fn(Ctx, Ptr) -> Ptr;
    Z3_solver_inc_ref: fn(Ctx, Ptr);
    Z3_solver_dec_ref: fn(Ctx, Ptr);
    Z3_solver_assert: fn(Ctx, Ptr, Ast);
    Z3_solver_check: fn(Ctx, Ptr) -> c_int;
    Z3_solver_get_model: fn(Ctx, Ptr) -> Ptr;
    Z3_solver_set_params: fn(Ctx, Ptr, Ptr);
    Z3_mk_params: fn(Ctx) -> Ptr;
    Z3_params_inc_ref: fn(Ctx, Ptr);
    Z3_params_set_uint: fn(Ctx, Ptr, Ptr, c_uint);
    Z3_model_inc_ref: fn(Ctx, Ptr);
    Z3_model_dec_ref: fn(Ctx, Ptr);
    Z3_model_get_const_interp: fn(Ctx, Ptr, Ptr) -> Ast;
    Z3_get_numeral_string: fn(Ctx, Ast) -> *const c_char;
    Z3_get_bool_value: fn(Ctx, Ast) -> c_int;
    Z3_is_numeral_ast: fn(Ctx, Ast) -> bool;
    Z3_get_app_decl: fn(Ctx, Ast) -> Ptr;
    Z3_solver_to_string: fn(Ctx, Ptr) -> *const c_char;
}

/// A satisfying assignment. Unmentioned variables are zero, unmentioned file bytes are `else`.
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vars: HashMap<u32, u128>,
    pub files: Vec<(HashMap<u64, u8>, u8)>,
    /// Values of the `Sel` nodes in a candidate assignment whose reads have not been reconciled yet.
    selv: HashMap<E, u8>,
}

impl Model {
    pub fn byte(&self, a: &Arena, file: u32, i: u64) -> u8 {
        let f = &a.files[file as usize];
        if let Some(&c) = f.cells.get(&i) {
            if let Some(v) = a.as_const(c) {
                return v as u8;
            }
            let mut memo = HashMap::new();
            return self.eval(a, c, &mut memo) as u8;
        }
        if let Some(z) = f.zones.iter().find(|z| i >= z.0 && i < z.1) {
            return z.2;
        }
        if let Some((s, p)) = &f.pattern {
            if i >= *s {
                let c = p[((i - s) % p.len() as u64) as usize];
                if let Some(v) = a.as_const(c) {
                    return v as u8;
                }
                let mut memo = HashMap::new();
                return self.eval(a, c, &mut memo) as u8;
            }
        }
        if let Some(d) = f.default {
            return d;
        }
        match self.files.get(file as usize) {
            Some((m, d)) => m.get(&i).copied().unwrap_or(*d),
            None => 0,
        }
    }

    pub fn eval(&self, a: &Arena, e: E, memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(v) = a.as_const(e) {
            return v;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = a.w(e);
        let m = mask(w);
        let v = match a.node(e) {
            Node::Const { v, .. } => *v,
            Node::Var { id, .. } => self.vars.get(id).copied().unwrap_or(0) & m,
            Node::Lin { c, t, .. } => {
                let mut s = *c;
                for &(k, x) in t.iter() {
                    s = s.wrapping_add(k.wrapping_mul(self.eval(a, x, memo) as u64));
                }
                s as u128 & m
            }
            Node::Bin { op, a: x, b: y, .. } => {
                let p = self.eval(a, *x, memo);
                // short-circuit booleans
                if w == 1 && *op == BinOp::And && p == 0 {
                    0
                } else if w == 1 && *op == BinOp::Or && p == 1 {
                    1
                } else {
                    let q = self.eval(a, *y, memo);
                    let (sp, sq) = (sext_val(p, w), sext_val(q, w));
                    (match op {
                        BinOp::Mul => p.wrapping_mul(q),
                        BinOp::UDiv => {
                            if q == 0 {
                                m
                            } else {
                                p / q
                            }
                        }
                        BinOp::URem => {
                            if q == 0 {
                                p
                            } else {
                                p % q
                            }
                        }
                        BinOp::SDiv => {
                            if q == 0 {
                                if sp < 0 {
                                    1
                                } else {
                                    m
                                }
                            } else {
                                sp.wrapping_div(sq) as u128
                            }
                        }
                        BinOp::SRem => {
                            if q == 0 {
                                p
                            } else {
                                sp.wrapping_rem(sq) as u128
                            }
                        }
                        BinOp::And => p & q,
                        BinOp::Or => p | q,
                        BinOp::Xor => p ^ q,
                        BinOp::Shl => {
                            if q >= w as u128 {
                                0
                            } else {
                                p << q
                            }
                        }
                        BinOp::LShr => {
                            if q >= w as u128 {
                                0
                            } else {
                                p >> q
                            }
                        }
                        BinOp::AShr => {
                            if q >= w as u128 {
                                (if sp < 0 { -1i128 } else { 0 }) as u128
                            } else {
                                (sp >> q) as u128
                            }
                        }
                        BinOp::AddW => p.wrapping_add(q),
                    }) & m
                }
            }
            Node::Cmp { op, a: x, b: y } => {
                let p = self.eval(a, *x, memo);
                let q = self.eval(a, *y, memo);
                let ww = a.w(*x);
                (match op {
                    CmpOp::Eq => p == q,
                    CmpOp::Ult => p < q,
                    CmpOp::Slt => sext_val(p, ww) < sext_val(q, ww),
                }) as u128
            }
            Node::Not { a: x } => 1 - self.eval(a, *x, memo),
            Node::Ite { c, a: x, b: y } => {
                if self.eval(a, *c, memo) == 1 {
                    self.eval(a, *x, memo)
                } else {
                    self.eval(a, *y, memo)
                }
            }
            Node::Concat { hi, lo } => {
                let wl = a.w(*lo);
                (self.eval(a, *hi, memo) << wl) | self.eval(a, *lo, memo)
            }
            Node::Extract { a: x, lo, .. } => (self.eval(a, *x, memo) >> lo) & m,
            Node::ZExt { a: x, .. } => self.eval(a, *x, memo),
            Node::SExt { a: x, .. } => {
                let ww = a.w(*x);
                sext_val(self.eval(a, *x, memo), ww) as u128 & m
            }
            Node::Sel { file, idx } => {
                let i = self.eval(a, *idx, memo) as u64;
                match self.selv.get(&e) {
                    Some(&v) if a.files[*file as usize].is_free(i) => v as u128,
                    _ => self.byte(a, *file, i) as u128,
                }
            }
        };
        memo.insert(e, v);
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

struct Support {
    vars: Vec<u32>,
    reads: Vec<(u32, u64, u64)>,
}

/// Slices with fewer nodes are solved at once.
const SMALL: usize = 1500;
const TINY: usize = 300;
const RENEW: usize = 6000;

pub struct Solver {
    z: Api,
    ctx: Ctx,
    tr: HashMap<(E, bool), Ast>,
    /// Z3 constants of the variables.
    vars: HashMap<u32, Ptr>,
    /// Z3 constants standing for the uninterpreted part of a file read (keyed by the `Sel` node).
    sels: HashMap<E, (Ast, Ptr)>,
    sorts: HashMap<u8, Ptr>,
    boolsort: Ptr,
    sizes: HashMap<E, usize>,
    supports: HashMap<E, Rc<Support>>,
    /// Functional-consistency lemmas found necessary so far.
    lemmas: Vec<(E, E, Ast)>,
    lemma_keys: HashSet<(E, E)>,
    leaves: HashMap<E, Rc<Vec<E>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_query: f64,
    pub timeout_ms: u32,
    pub deadline_ms: u32,
    pub version: String,
    pub nlemmas: u64,
    /// Answers by the set of constraints.
    cache: HashMap<Vec<E>, Option<Model>>,
    pub hits: u64,
    /// Small queries go to a context that is renewed before it grows.
    tiny: Option<Box<Solver>>,
    solved: usize,
    dump_over: Option<f64>,
}

/// Fills in what the assignment leaves open.
fn complete(mut m: Model, base: &Model) -> Model {
    for (k, v) in &base.vars {
        m.vars.entry(*k).or_insert(*v);
    }
    if m.files.len() < base.files.len() {
        m.files.resize(base.files.len(), (HashMap::new(), 0));
    }
    for (f, (cells, els)) in base.files.iter().enumerate() {
        for (k, v) in cells {
            m.files[f].0.entry(*k).or_insert(*v);
        }
        m.files[f].1 = *els;
    }
    m
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let mut cands: Vec<String> = vec![];
            if let Ok(p) = std::env::var("SYMEX_Z3") {
                cands.push(p);
            }
            cands.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
            cands.push("libz3.so.4".into());
            cands.push("libz3.so".into());
            let mut h = std::ptr::null_mut();
            for c in &cands {
                let cs = CString::new(c.as_str()).unwrap();
                h = dlopen(cs.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            assert!(!h.is_null(), "engine: cannot load libz3");
            let z = Api::load(h);
            let cfg = (z.Z3_mk_config)();
            let set = |k: &str, v: &str| {
                let k = CString::new(k).unwrap();
                let v = CString::new(v).unwrap();
                (z.Z3_set_param_value)(cfg, k.as_ptr(), v.as_ptr());
            };
            set("model", "true");
            let ctx = (z.Z3_mk_context)(cfg);
            (z.Z3_del_config)(cfg);
            (z.Z3_set_error_handler)(ctx, std::ptr::null_mut());
            let boolsort = (z.Z3_mk_bool_sort)(ctx);
            (z.Z3_inc_ref)(ctx, boolsort);
            let version = CStr::from_ptr((z.Z3_get_full_version)()).to_string_lossy().into_owned();
            let s = Solver {
                z,
                ctx,
                tr: HashMap::new(),
                vars: HashMap::new(),
                sels: HashMap::new(),
                sorts: HashMap::new(),
                boolsort,
                sizes: HashMap::new(),
            supports: HashMap::new(),
                lemmas: vec![],
                lemma_keys: HashSet::new(),
                leaves: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_query: 0.0,
                timeout_ms: 60_000,
                deadline_ms: u32::MAX,
                version,
                nlemmas: 0,
                cache: HashMap::new(),
                hits: 0,
                tiny: None,
                solved: 0,
                dump_over: std::env::var("SYMEX_DUMP").ok().and_then(|x| x.parse().ok()),
            };
            s
        }
    }

    unsafe fn mk_logic(&self) -> Ptr {
        let logic = CString::new("QF_BV").unwrap();
        let sym = (self.z.Z3_mk_string_symbol)(self.ctx, logic.as_ptr());
        let s = (self.z.Z3_mk_solver_for_logic)(self.ctx, sym);
        (self.z.Z3_solver_inc_ref)(self.ctx, s);
        s
    }

    unsafe fn set_timeout(&self, s: Ptr, ms: u32) {
        let p = (self.z.Z3_mk_params)(self.ctx);
        (self.z.Z3_params_inc_ref)(self.ctx, p);
        let k = CString::new("timeout").unwrap();
        let k = (self.z.Z3_mk_string_symbol)(self.ctx, k.as_ptr());
        (self.z.Z3_params_set_uint)(self.ctx, p, k, ms);
        (self.z.Z3_solver_set_params)(self.ctx, s, p);
    }

    unsafe fn bvsort(&mut self, w: u8) -> Ptr {
        if let Some(&s) = self.sorts.get(&w) {
            return s;
        }
        let s = (self.z.Z3_mk_bv_sort)(self.ctx, w as c_uint);
        (self.z.Z3_inc_ref)(self.ctx, s);
        self.sorts.insert(w, s);
        s
    }

    unsafe fn num(&mut self, w: u8, v: u128) -> Ast {
        let s = self.bvsort(w);
        if v <= u64::MAX as u128 {
            (self.z.Z3_mk_unsigned_int64)(self.ctx, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            (self.z.Z3_mk_numeral)(self.ctx, t.as_ptr(), s)
        }
    }

    /// `bool_`: as a Boolean (width 1 only), otherwise as a bit-vector.
    unsafe fn get(&mut self, a: &Arena, e: E, bool_: bool) -> Ast {
        if let Some(&x) = self.tr.get(&(e, bool_)) {
            return x;
        }
        // iterative over children to avoid very deep recursion is unnecessary: the engine runs on a
        // large stack.
        let w = a.w(e);
        let c = self.ctx;
        let r: Ast;
        if w == 1 && !bool_ {
            let b = self.get(a, e, true);
            let one = self.num(1, 1);
            let zero = self.num(1, 0);
            r = (self.z.Z3_mk_ite)(c, b, one, zero);
        } else {
            let node = a.node(e).clone();
            r = match node {
                Node::Const { w, v } => {
                    if bool_ {
                        if v == 1 {
                            (self.z.Z3_mk_true)(c)
                        } else {
                            (self.z.Z3_mk_false)(c)
                        }
                    } else {
                        self.num(w, v)
                    }
                }
                Node::Var { w, id } => {
                    let name = CString::new(format!("v{}", id)).unwrap();
                    let sym = (self.z.Z3_mk_string_symbol)(c, name.as_ptr());
                    let sort = if w == 1 { self.boolsort } else { self.bvsort(w) };
                    let k = (self.z.Z3_mk_const)(c, sym, sort);
                    (self.z.Z3_inc_ref)(c, k);
                    let d = (self.z.Z3_get_app_decl)(c, k);
                    (self.z.Z3_inc_ref)(c, d);
                    self.vars.insert(id, d);
                    k
                }
                Node::Lin { w, c: k0, t } => {
                    let mut acc: Option<Ast> = None;
                    for &(k, x) in t.iter() {
                        let xa = self.get(a, x, false);
                        let term = if k == 1 {
                            xa
                        } else if k == mask(w) as u64 {
                            (self.z.Z3_mk_bvneg)(c, xa)
                        } else {
                            let n = self.num(w, k as u128);
                            (self.z.Z3_mk_bvmul)(c, n, xa)
                        };
                        acc = Some(match acc {
                            None => term,
                            Some(p) => (self.z.Z3_mk_bvadd)(c, p, term),
                        });
                    }
                    let acc = acc.unwrap();
                    if k0 != 0 {
                        let n = self.num(w, k0 as u128);
                        (self.z.Z3_mk_bvadd)(c, acc, n)
                    } else {
                        acc
                    }
                }
                Node::Bin { op, w, a: x, b: y } => {
                    if w == 1 {
                        let p = self.get(a, x, true);
                        let q = self.get(a, y, true);
                        let v = [p, q];
                        match op {
                            BinOp::And => (self.z.Z3_mk_and)(c, 2, v.as_ptr()),
                            BinOp::Or => (self.z.Z3_mk_or)(c, 2, v.as_ptr()),
                            BinOp::Xor => (self.z.Z3_mk_xor)(c, p, q),
                            _ => panic!("engine: boolean {:?}", op),
                        }
                    } else {
                        let p = self.get(a, x, false);
                        let q = self.get(a, y, false);
                        let f = match op {
                            BinOp::Mul => self.z.Z3_mk_bvmul,
                            BinOp::UDiv => self.z.Z3_mk_bvudiv,
                            BinOp::SDiv => self.z.Z3_mk_bvsdiv,
                            BinOp::URem => self.z.Z3_mk_bvurem,
                            BinOp::SRem => self.z.Z3_mk_bvsrem,
                            BinOp::And => self.z.Z3_mk_bvand,
                            BinOp::Or => self.z.Z3_mk_bvor,
                            BinOp::Xor => self.z.Z3_mk_bvxor,
                            BinOp::Shl => self.z.Z3_mk_bvshl,
                            BinOp::LShr => self.z.Z3_mk_bvlshr,
                            BinOp::AShr => self.z.Z3_mk_bvashr,
                            BinOp::AddW => self.z.Z3_mk_bvadd,
                        };
                        f(c, p, q)
                    }
                }
                Node::Cmp { op, a: x, b: y } => {
                    let p = self.get(a, x, false);
                    let q = self.get(a, y, false);
                    match op {
                        CmpOp::Eq => (self.z.Z3_mk_eq)(c, p, q),
                        CmpOp::Ult => (self.z.Z3_mk_bvult)(c, p, q),
                        CmpOp::Slt => (self.z.Z3_mk_bvslt)(c, p, q),
                    }
                }
                Node::Not { a: x } => {
                    let p = self.get(a, x, true);
                    (self.z.Z3_mk_not)(c, p)
                }
                Node::Ite { c: k, a: x, b: y } => {
                    let kk = self.get(a, k, true);
                    let p = self.get(a, x, bool_);
                    let q = self.get(a, y, bool_);
                    (self.z.Z3_mk_ite)(c, kk, p, q)
                }
                Node::Concat { hi, lo } => {
                    let p = self.get(a, hi, false);
                    let q = self.get(a, lo, false);
                    (self.z.Z3_mk_concat)(c, p, q)
                }
                Node::Extract { a: x, lo, w } => {
                    let p = self.get(a, x, false);
                    let q =
                        (self.z.Z3_mk_extract)(c, (lo + w - 1) as c_uint, lo as c_uint, p);
                    if bool_ {
                        let one = self.num(1, 1);
                        (self.z.Z3_mk_eq)(c, q, one)
                    } else {
                        q
                    }
                }
                Node::ZExt { a: x, w } => {
                    let p = self.get(a, x, false);
                    (self.z.Z3_mk_zero_ext)(c, (w - a.w(x)) as c_uint, p)
                }
                Node::SExt { a: x, w } => {
                    let p = self.get(a, x, false);
                    (self.z.Z3_mk_sign_ext)(c, (w - a.w(x)) as c_uint, p)
                }
                Node::Sel { file, idx } => self.sel(a, e, file, idx),
            };
        }
        (self.z.Z3_inc_ref)(c, r);
        self.tr.insert((e, bool_), r);
        r
    }

    unsafe fn sel(&mut self, a: &Arena, e: E, file: u32, idx: E) -> Ast {
        let c = self.ctx;
        let i = self.get(a, idx, false);
        let info = &a.files[file as usize];
        let (lo, hi) = a.range(idx);
        let mut acc: Ast = if let Some(d) = info.default {
            self.num(8, d as u128)
        } else {
            let name = CString::new(format!("f{}_{}", file, e)).unwrap();
            let sym = (self.z.Z3_mk_string_symbol)(c, name.as_ptr());
            let sort = self.bvsort(8);
            let k = (self.z.Z3_mk_const)(c, sym, sort);
            (self.z.Z3_inc_ref)(c, k);
            let d = (self.z.Z3_get_app_decl)(c, k);
            self.sels.insert(e, (k, d));
            k
        };
        (self.z.Z3_inc_ref)(c, acc);
        if let Some((start, pat)) = info.pattern.clone() {
            // value inside the periodic region
            let n = pat.len() as u64;
            let st = self.num(64, start as u128);
            let mut v = self.get(a, pat[0], false);
            if n > 1 {
                let neg = (self.z.Z3_mk_bvneg)(c, st);
                let rel = (self.z.Z3_mk_bvadd)(c, i, neg);
                let nn = self.num(64, n as u128);
                let r = (self.z.Z3_mk_bvurem)(c, rel, nn);
                (self.z.Z3_inc_ref)(c, r);
                for k in 1..n {
                    let kk = self.num(64, k as u128);
                    let cond = (self.z.Z3_mk_eq)(c, r, kk);
                    let pv = self.get(a, pat[k as usize], false);
                    v = (self.z.Z3_mk_ite)(c, cond, pv, v);
                    (self.z.Z3_inc_ref)(c, v);
                }
            }
            let below = (self.z.Z3_mk_bvult)(c, i, st);
            acc = (self.z.Z3_mk_ite)(c, below, acc, v);
            (self.z.Z3_inc_ref)(c, acc);
        }
        for &(zlo, zhi, b) in info.zones.iter().rev() {
            if zhi as u128 <= lo || zlo as u128 > hi {
                continue;
            }
            let l = self.num(64, zlo as u128);
            let h = self.num(64, zhi as u128);
            let p = [(self.z.Z3_mk_bvule)(c, l, i), (self.z.Z3_mk_bvult)(c, i, h)];
            let inside = (self.z.Z3_mk_and)(c, 2, p.as_ptr());
            let v = self.num(8, b as u128);
            acc = (self.z.Z3_mk_ite)(c, inside, v, acc);
        }
        let mut cells: Vec<(u64, E)> = a.files[file as usize]
            .cells
            .iter()
            .filter(|x| (*x.0 as u128) >= lo && (*x.0 as u128) <= hi)
            .map(|x| (*x.0, *x.1))
            .collect();
        cells.sort();
        for (k, v) in cells {
            let kk = self.num(64, k as u128);
            let cond = (self.z.Z3_mk_eq)(c, i, kk);
            let vv = self.get(a, v, false);
            acc = (self.z.Z3_mk_ite)(c, cond, vv, acc);
            (self.z.Z3_inc_ref)(c, acc);
        }
        acc
    }

    /// The variables and file reads an expression depends on.
    fn leaves(&mut self, a: &Arena, root: E) -> Rc<Vec<E>> {
        if let Some(l) = self.leaves.get(&root) {
            return l.clone();
        }
        let mut seen: HashSet<E> = HashSet::new();
        let mut out = vec![];
        let mut todo = vec![root];
        while let Some(e) = todo.pop() {
            if a.as_const(e).is_some() || !seen.insert(e) {
                continue;
            }
            match a.node(e) {
                Node::Const { .. } => {}
                Node::Var { .. } => out.push(e),
                Node::Lin { t, .. } => todo.extend(t.iter().map(|x| x.1)),
                Node::Bin { a: x, b: y, .. } | Node::Cmp { a: x, b: y, .. } => todo.extend([*x, *y]),
                Node::Not { a: x } => todo.push(*x),
                Node::Ite { c, a: x, b: y } => todo.extend([*c, *x, *y]),
                Node::Concat { hi, lo } => todo.extend([*hi, *lo]),
                Node::Extract { a: x, .. } | Node::ZExt { a: x, .. } | Node::SExt { a: x, .. } => todo.push(*x),
                Node::Sel { file, idx } => {
                    let f = &a.files[*file as usize];
                    out.push(e);
                    todo.push(*idx);
                    let (lo, hi) = a.range(*idx);
                    todo.extend(f.cells.iter().filter(|c| *c.0 as u128 >= lo && *c.0 as u128 <= hi).map(|c| *c.1));
                    if let Some((_, p)) = &f.pattern {
                        todo.extend(p.iter().copied());
                    }
                }
            }
        }
        let r = Rc::new(out);
        self.leaves.insert(root, r.clone());
        r
    }

    fn support(&mut self, a: &Arena, e: E) -> Rc<Support> {
        if let Some(s) = self.supports.get(&e) {
            return s.clone();
        }
        let mut vars = vec![];
        let mut reads = vec![];
        for &l in self.leaves(a, e).iter() {
            match a.node(l) {
                Node::Var { id, .. } => vars.push(*id),
                Node::Sel { file, idx } => {
                    let f = &a.files[*file as usize];
                    if f.default.is_none() {
                        let (lo, hi) = a.range(*idx);
                        reads.push((*file, lo as u64, hi.min(u64::MAX as u128) as u64));
                    }
                }
                _ => {}
            }
        }
        vars.sort();
        reads.sort();
        reads.dedup();
        let r = Rc::new(Support { vars, reads });
        self.supports.insert(e, r.clone());
        r
    }

    /// The conjuncts of `pc` that share (transitively) a variable or a file position with `extra`.
    fn slice(&mut self, a: &Arena, pc: &[E], extra: &[E]) -> Vec<E> {
        let mut seen: HashSet<E> = HashSet::new();
        let mut out: Vec<E> = vec![];
        let mut vars: HashSet<u32> = HashSet::new();
        let mut reads: Vec<(u32, u64, u64)> = vec![];
        for &e in extra {
            if seen.insert(e) {
                out.push(e);
                let s = self.support(a, e);
                vars.extend(s.vars.iter());
                reads.extend(s.reads.iter());
            }
        }
        let mut rest: Vec<(E, Rc<Support>)> = vec![];
        for &e in pc {
            if seen.insert(e) {
                let s = self.support(a, e);
                rest.push((e, s));
            }
        }
        loop {
            let n = out.len();
            reads.sort();
            reads.dedup();
            let mut keep = vec![];
            for (e, s) in rest {
                let hit = (s.vars.is_empty() && s.reads.is_empty())
                    || s.vars.iter().any(|v| vars.contains(v))
                    || s.reads.iter().any(|r| reads.iter().any(|q| q.0 == r.0 && q.1 <= r.2 && r.1 <= q.2));
                if hit {
                    out.push(e);
                    vars.extend(s.vars.iter());
                    reads.extend(s.reads.iter());
                } else {
                    keep.push((e, s));
                }
            }
            rest = keep;
            if out.len() == n {
                break;
            }
        }
        out
    }

    /// Is `pc` (known to be satisfied by `base`) consistent with `extra`?
    pub fn check(&mut self, a: &Arena, pc: &[E], extra: &[E], base: &Model) -> (Res, Option<Model>) {
        let t = Instant::now();
        let r = self.check_inner(a, pc, extra, base);
        let d = t.elapsed().as_secs_f64();
        self.time += d;
        if d > self.max_query {
            self.max_query = d;
        }
        if let Some(lim) = self.dump_over {
            if d > lim {
                let t = self.dump(a, pc, extra);
                let _ = std::fs::write(format!("/tmp/b/q{}.smt2", self.queries), format!("; {:.2}s {:?}\n{}(check-sat)\n", d, r.0, t));
            }
        }
        self.queries += 1;
        match r.0 {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }

    /// Constraints are brought in lazily: first only `extra`, then whatever the candidate (completed by
    /// the model of the path so far) violates. Unsatisfiability of a subset is conclusive, and so is a
    /// candidate that satisfies every constraint of the slice.
    fn check_inner(&mut self, a: &Arena, pc: &[E], extra: &[E], base: &Model) -> (Res, Option<Model>) {
        let t0 = Instant::now();
        let conj = self.slice(a, pc, extra);
        let mut key = conj.clone();
        key.sort();
        if let Some(r) = self.cache.get(&key) {
            self.hits += 1;
            return match r {
                Some(m) => (Res::Sat, Some(complete(m.clone(), base))),
                None => (Res::Unsat, None),
            };
        }
        let mut active: Vec<E> = extra.to_vec();
        let size: usize = conj.iter().map(|&e| self.size(a, e)).sum();
        if size < SMALL {
            active = conj.clone();
        }
        let mut rest: Vec<E> = conj.iter().copied().filter(|e| !active.contains(e)).collect();
        let mut round = 0;
        let timeout_ms = self.timeout_ms.min(self.deadline_ms.max(100));
        loop {
            if round >= 16 {
                active.append(&mut rest);
            }
            let spent = t0.elapsed().as_millis() as u32;
            if spent >= timeout_ms {
                return (Res::Unknown, None);
            }
            let m = match self.solve_sized(a, &active, timeout_ms - spent) {
                (Res::Sat, Some(m)) => m,
                (Res::Unsat, _) => {
                    self.cache.insert(key, None);
                    return (Res::Unsat, None);
                }
                r => return r,
            };
            if rest.is_empty() {
                self.cache.insert(key, Some(m.clone()));
                return (Res::Sat, Some(complete(m, base)));
            }
            let m = complete(m, base);
            let mut memo = HashMap::new();
            let mut bad = vec![];
            let mut keep = vec![];
            for &e in &rest {
                if (bad.len() < 24 || round > 8) && m.eval(a, e, &mut memo) != 1 {
                    bad.push(e);
                } else {
                    keep.push(e);
                }
            }
            if bad.is_empty() {
                return (Res::Sat, Some(m));
            }
            active.extend(bad);
            rest = keep;
            round += 1;
        }
    }

    fn solve_sized(&mut self, a: &Arena, conj: &[E], timeout_ms: u32) -> (Res, Option<Model>) {
        let n: usize = conj.iter().map(|&e| self.size(a, e)).sum();
        if n >= TINY {
            return self.solve(a, conj, timeout_ms);
        }
        if self.tiny.as_ref().map_or(false, |t| t.tr.len() + t.solved > RENEW) {
            let t = self.tiny.take().unwrap();
            unsafe { (t.z.Z3_del_context)(t.ctx) };
        }
        let t = self.tiny.get_or_insert_with(|| Box::new(Solver::new()));
        t.solved += 20;
        t.solve(a, conj, timeout_ms)
    }

    fn solve(&mut self, a: &Arena, conj: &[E], timeout_ms: u32) -> (Res, Option<Model>) {
        unsafe {
            let t0 = Instant::now();
            let s = self.mk_logic();
            self.set_timeout(s, timeout_ms);
            for &e in conj {
                let x = self.get(a, e, true);
                (self.z.Z3_solver_assert)(self.ctx, s, x);
            }
            let lv = self.all_leaves(a, conj);
            for (x, y, l) in &self.lemmas {
                if lv.contains(x) && lv.contains(y) {
                    (self.z.Z3_solver_assert)(self.ctx, s, *l);
                }
            }
            let res = loop {
                let r = (self.z.Z3_solver_check)(self.ctx, s);
                match r {
                    -1 => break (Res::Unsat, None),
                    1 => match self.reconcile(a, s, &lv) {
                        Ok(m) => break (Res::Sat, Some(m)),
                        Err(ls) => {
                            for l in ls {
                                (self.z.Z3_solver_assert)(self.ctx, s, l);
                            }
                        }
                    },
                    _ => break (Res::Unknown, None),
                }
                if t0.elapsed().as_millis() as u32 > timeout_ms.saturating_mul(2) {
                    break (Res::Unknown, None);
                }
            };
            (self.z.Z3_solver_dec_ref)(self.ctx, s);
            res
        }
    }

    /// Number of distinct nodes of a constraint (capped).
    fn size(&mut self, a: &Arena, e: E) -> usize {
        if let Some(&n) = self.sizes.get(&e) {
            return n;
        }
        let mut seen = HashSet::new();
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            if a.is_const(x) || !seen.insert(x) || seen.len() > SMALL {
                continue;
            }
            match a.node(x) {
                Node::Const { .. } | Node::Var { .. } | Node::Sel { .. } => {}
                Node::Lin { t, .. } => todo.extend(t.iter().map(|y| y.1)),
                Node::Bin { a, b, .. } | Node::Cmp { a, b, .. } => todo.extend([*a, *b]),
                Node::Not { a } | Node::Extract { a, .. } | Node::ZExt { a, .. } | Node::SExt { a, .. } => todo.push(*a),
                Node::Ite { c, a, b } => todo.extend([*c, *a, *b]),
                Node::Concat { hi, lo } => todo.extend([*hi, *lo]),
            }
        }
        self.sizes.insert(e, seen.len());
        seen.len()
    }

    fn all_leaves(&mut self, a: &Arena, conj: &[E]) -> HashSet<E> {
        let mut out: HashSet<E> = HashSet::new();
        for &e in conj {
            out.extend(self.leaves(a, e).iter());
        }
        out
    }

    /// Reads the candidate assignment and checks that file reads at equal positions agree; returns the
    /// assignment, or the violated instances of functional consistency (valid in every model).
    unsafe fn reconcile(&mut self, a: &Arena, s: Ptr, leaves: &HashSet<E>) -> Result<Model, Vec<Ast>> {
        let c = self.ctx;
        let zm = (self.z.Z3_solver_get_model)(c, s);
        (self.z.Z3_model_inc_ref)(c, zm);
        let mut out = Model::default();
        out.files = vec![(HashMap::new(), 0); a.files.len()];
        let mut leaves: Vec<E> = leaves.iter().copied().collect();
        leaves.sort();
        for &e in &leaves {
            match a.node(e) {
                Node::Var { id, .. } => {
                    // a variable without interpretation is of no consequence, but file positions may
                    // have been derived from it
                    let mut x = 0;
                    if let Some(&d) = self.vars.get(id) {
                        let v = (self.z.Z3_model_get_const_interp)(c, zm, d);
                        if !v.is_null() {
                            x = self.val(v);
                        }
                    }
                    out.vars.insert(*id, x);
                }
                Node::Sel { .. } => {
                    if let Some(&(_, d)) = self.sels.get(&e) {
                        let v = (self.z.Z3_model_get_const_interp)(c, zm, d);
                        out.selv.insert(e, if v.is_null() { 0 } else { self.val(v) as u8 });
                    }
                }
                _ => {}
            }
        }
        (self.z.Z3_model_dec_ref)(c, zm);
        let mut memo = HashMap::new();
        let mut at: HashMap<(u32, u64), (E, u8)> = HashMap::new();
        let mut bad: Vec<(E, E)> = vec![];
        for &e in &leaves {
            if let (Node::Sel { file, idx }, Some(&v)) = (a.node(e), out.selv.get(&e)) {
                let i = out.eval(a, *idx, &mut memo) as u64;
                if !a.files[*file as usize].is_free(i) {
                    continue;
                }
                match at.get(&(*file, i)) {
                    None => {
                        at.insert((*file, i), (e, v));
                    }
                    Some(&(e2, v2)) => {
                        if v != v2 {
                            bad.push((e2, e));
                        }
                    }
                }
            }
        }
        if bad.is_empty() {
            for ((f, i), (_, v)) in at {
                out.files[f as usize].0.insert(i, v);
            }
            out.selv.clear();
            return Ok(out);
        }
        let mut ls = vec![];
        for (x, y) in bad {
            if !self.lemma_keys.insert((x, y)) {
                panic!("engine: consistency lemma did not take effect");
            }
            let (ix, iy) = match (a.node(x), a.node(y)) {
                (Node::Sel { idx: i, .. }, Node::Sel { idx: j, .. }) => (*i, *j),
                _ => unreachable!(),
            };
            let p = self.get(a, ix, false);
            let q = self.get(a, iy, false);
            let ne = (self.z.Z3_mk_not)(c, (self.z.Z3_mk_eq)(c, p, q));
            let eq = (self.z.Z3_mk_eq)(c, self.sels[&x].0, self.sels[&y].0);
            let d = [ne, eq];
            let l = (self.z.Z3_mk_or)(c, 2, d.as_ptr());
            self.lemmas.push((x, y, l));
            self.nlemmas += 1;
            ls.push(l);
        }
        Err(ls)
    }

    unsafe fn val(&self, x: Ast) -> u128 {
        if x.is_null() {
            return 0;
        }
        if (self.z.Z3_is_numeral_ast)(self.ctx, x) {
            let s = CStr::from_ptr((self.z.Z3_get_numeral_string)(self.ctx, x));
            return s.to_str().unwrap().parse::<u128>().expect("engine: numeral");
        }
        match (self.z.Z3_get_bool_value)(self.ctx, x) {
            1 => 1,
            -1 => 0,
            _ => panic!("engine: non-numeral in model"),
        }
    }

    pub fn dump(&mut self, a: &Arena, pc: &[E], extra: &[E]) -> String {
        unsafe {
            let s = (self.z.Z3_mk_simple_solver)(self.ctx);
            (self.z.Z3_solver_inc_ref)(self.ctx, s);
            for (_, _, l) in &self.lemmas {
                (self.z.Z3_solver_assert)(self.ctx, s, *l);
            }
            for &e in pc.iter().chain(extra.iter()) {
                let x = self.get(a, e, true);
                (self.z.Z3_solver_assert)(self.ctx, s, x);
            }
            let t = CStr::from_ptr((self.z.Z3_solver_to_string)(self.ctx, s)).to_string_lossy().into_owned();
            (self.z.Z3_solver_dec_ref)(self.ctx, s);
            t
        }
    }
}

