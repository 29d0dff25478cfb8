//! Lazy parser for the textual LLVM IR that rustc emits for the harness crate.
//!
//! The module is indexed once; function bodies are parsed the first time they are executed.

use crate::expr::{Arena, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) if w < 8 => (*n as u64 * w as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    /// Bytes a load or store touches.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn bits(&self) -> u8 {
        match self {
            Ty::Int(w) => *w as u8,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    S(E),
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn s(&self) -> E {
        match self {
            Val::S(e) => *e,
            Val::A(v) if v.len() == 1 => v[0].s(),
            Val::A(_) => panic!("engine: aggregate where a scalar was expected"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(Rc<str>),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64, count: Option<Op> },
    Load { dst: u32, ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    Gep { dst: u32, base: Op, off: u64, terms: Vec<(Op, u64)> },
    Bin { dst: u32, op: Bop, a: Op, b: Op },
    Icmp { dst: u32, pred: Pred, a: Op, b: Op },
    Cast { dst: u32, op: CastOp, to: Ty, from: Ty, a: Op },
    Select { dst: u32, c: Op, a: Op, b: Op },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<Op>, normal: Option<u32> },
    Extract { dst: u32, a: Op, idx: Vec<u32> },
    Insert { dst: u32, a: Op, v: Op, idx: Vec<u32> },
    Copy { dst: u32, a: Op },
    ExtractElem { dst: u32, a: Op, i: Op },
    InsertElem { dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, mask: Vec<u32> },
    Rmw { dst: u32, op: String, ptr: Op, v: Op, ty: Ty },
    CmpXchg { dst: u32, ptr: Op, old: Op, new: Op, ty: Ty },
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, Vec<(E, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Block {
    /// (dst, [(pred block, value)])
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<Ins>,
    pub line: usize,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub params: Vec<u32>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub noreturn: bool,
    /// Registers live at entry of each block (after phis) - filled lazily.
    pub live: Vec<Vec<u32>>,
}

pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
    pub addr: u64,
}

pub struct Module {
    pub text: String,
    pub defs: HashMap<Rc<str>, (usize, usize)>,
    pub decls: HashMap<Rc<str>, ()>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<Rc<str>, usize>,
    pub faddr: HashMap<Rc<str>, u64>,
    pub addrf: HashMap<u64, Rc<str>>,
    pub funcs: HashMap<Rc<str>, Rc<Func>>,
    pub noreturn_attrs: HashMap<u32, bool>,
    types: HashMap<String, (usize, usize)>,
    nfunc: u32,
}

/// Objects live at multiples of 2^32 so that an address determines its object.
pub const OBJ_SHIFT: u32 = 32;
/// Function "addresses" start here.
pub const FUNC_BASE: u64 = 0x4000_0000_0000_0000;
/// Global objects get ids 1..; dynamic objects start here.
pub const DYN_BASE: u64 = 0x10_0000;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            // word boundary for identifiers
            if b[b.len() - 1].is_ascii_alphanumeric() {
                if let Some(&c) = self.s.get(self.i + b.len()) {
                    if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' {
                        return false;
                    }
                }
            }
            self.i += b.len();
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric()
                || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$'))
        {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    /// A name after `%` or `@` (possibly quoted).
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
            self.i += 1;
            r
        } else {
            self.word().to_string()
        }
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' | b'[' | b'{' | b'<' => d += 1,
                b')' | b']' | b'}' | b'>' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| panic!("engine: bad number {:?}", w))
    }
}

type R<T> = Result<T, String>;

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path)
            .unwrap_or_else(|e| panic!("engine: cannot read {}: {}", path, e));
        let mut m = Module {
            text,
            defs: HashMap::new(),
            decls: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            faddr: HashMap::new(),
            addrf: HashMap::new(),
            funcs: HashMap::new(),
            noreturn_attrs: HashMap::new(),
            types: HashMap::new(),
            nfunc: 0,
        };
        m.index();
        m
    }

    fn index(&mut self) {
        let text = std::mem::take(&mut self.text);
        let mut pos = 0;
        let mut cur: Option<(Rc<str>, usize)> = None;
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            if let Some((n, st)) = &cur {
                if line.starts_with('}') {
                    self.defs.insert(n.clone(), (*st, pos));
                    cur = None;
                }
                continue;
            }
            if line.starts_with("define") || line.starts_with("declare") {
                let at = line.find('@').unwrap();
                let mut p = P { s: line.as_bytes(), i: at + 1 };
                let name: Rc<str> = p.name().into();
                let addr = FUNC_BASE + ((self.faddr.len() as u64 + 1) << 8);
                self.faddr.insert(name.clone(), addr);
                self.addrf.insert(addr, name.clone());
                if line.starts_with("define") {
                    cur = Some((name, start));
                } else {
                    self.decls.insert(name, ());
                }
            } else if line.starts_with('@') {
                let mut p = P { s: line.as_bytes(), i: 1 };
                let name: Rc<str> = p.name().into();
                let i = self.globals.len();
                self.gidx.insert(name.clone(), i);
                self.globals.push(Global {
                    name,
                    ty: Ty::Other,
                    init: Some((start, pos)),
                    constant: false,
                    addr: ((i as u64) + 1) << OBJ_SHIFT,
                });
            } else if line.starts_with("attributes #") {
                let mut p = P { s: line.as_bytes(), i: "attributes #".len() };
                let n = p.num() as u32;
                self.noreturn_attrs
                    .insert(n, line.split_whitespace().any(|w| w == "noreturn"));
            } else if line.starts_with('%') {
                let mut p = P { s: line.as_bytes(), i: 1 };
                let name = p.name();
                if p.eat("=") && p.eat("type") {
                    self.types.insert(name, (start + p.i, pos));
                }
            }
        }
        self.text = text;
        assert!((self.globals.len() as u64) < DYN_BASE - 1);
    }

    // ------------------------------------------------------------ types and constants

    fn ty(&self, p: &mut P) -> R<Ty> {
        let c = p.peek();
        let t = match c {
            b'[' => {
                p.i += 1;
                let n = p.num() as u64;
                if !p.eat("x") {
                    return Err("array type".into());
                }
                let t = self.ty(p)?;
                p.eat("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                p.i += 1;
                let mut v = vec![];
                if !p.eat("}") {
                    loop {
                        v.push(self.ty(p)?);
                        if !p.eat(",") {
                            break;
                        }
                    }
                    p.eat("}");
                }
                Ty::Struct(Rc::new(v), false)
            }
            b'<' => {
                p.i += 1;
                if p.eat("{") {
                    let mut v = vec![];
                    if !p.eat("}") {
                        loop {
                            v.push(self.ty(p)?);
                            if !p.eat(",") {
                                break;
                            }
                        }
                        p.eat("}");
                    }
                    p.eat(">");
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = p.num() as u32;
                    p.eat("x");
                    let t = self.ty(p)?;
                    p.eat(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                let &(a, b) = self.types.get(&n).ok_or("named type")?;
                let mut q = P { s: self.text[a..b].as_bytes(), i: 0 };
                self.ty(&mut q)?
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => {
                        Ty::Int(w[1..].parse().unwrap())
                    }
                    _ => Ty::Other,
                }
            }
        };
        // address spaces
        if p.peek() == b'a' && p.eat("addrspace") {
            p.skip_balanced();
        }
        Ok(t)
    }

    pub fn zero(&self, a: &mut Arena, t: &Ty) -> Val {
        match t {
            Ty::Int(w) => Val::S(a.c(*w as u8, 0)),
            Ty::Ptr => Val::S(a.c64(0)),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                Val::A(Rc::new((0..t.count()).map(|i| self.zero(a, &t.elem(i))).collect()))
            }
            _ => Val::S(a.c(8, 0)),
        }
    }

    pub fn sym_addr(&self, n: &str) -> R<u64> {
        if let Some(&i) = self.gidx.get(n) {
            return Ok(self.globals[i].addr);
        }
        self.faddr.get(n).copied().ok_or_else(|| format!("unknown symbol {}", n))
    }

    fn constant(&self, a: &mut Arena, p: &mut P, t: &Ty) -> R<Val> {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                let v = self.sym_addr(&n)?;
                return Ok(Val::S(a.c64(v)));
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' {
                        v.push(Val::S(b'\\' as E));
                        p.i += 2;
                    } else if p.s[p.i] == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        v.push(Val::S(u8::from_str_radix(h, 16).unwrap() as E));
                        p.i += 3;
                    } else {
                        v.push(Val::S(p.s[p.i] as E));
                        p.i += 1;
                    }
                }
                p.i += 1;
                return Ok(Val::A(Rc::new(v)));
            }
            b'[' | b'{' | b'<' => {
                let close = match c {
                    b'[' => "]",
                    b'{' => "}",
                    _ => ">",
                };
                p.i += 1;
                let inner = c == b'<' && p.eat("{");
                let mut v = vec![];
                loop {
                    if p.eat(if inner { "}" } else { close }) {
                        break;
                    }
                    let et = self.ty(p)?;
                    v.push(self.constant(a, p, &et)?);
                    p.eat(",");
                }
                if inner {
                    p.eat(">");
                }
                return Ok(Val::A(Rc::new(v)));
            }
            _ => {}
        }
        if c == b'-' || c.is_ascii_digit() {
            let w = p.word();
            let v: i128 = match w.parse::<i128>() {
                Ok(v) => v,
                Err(_) => w.parse::<u128>().map_err(|_| format!("number {}", w))? as i128,
            };
            return Ok(Val::S(a.c(t.bits(), v as u128)));
        }
        let w = p.word();
        match w {
            "true" => Ok(Val::S(a.c(1, 1))),
            "false" => Ok(Val::S(a.c(1, 0))),
            "null" => Ok(Val::S(a.c64(0))),
            "undef" | "poison" | "zeroinitializer" => Ok(self.zero(a, t)),
            "splat" => {
                p.eat("(");
                let et = self.ty(p)?;
                let v = self.constant(a, p, &et)?;
                p.eat(")");
                Ok(Val::A(Rc::new((0..t.count()).map(|_| v.clone()).collect())))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                p.eat("(");
                let ft = self.ty(p)?;
                let v = self.constant(a, p, &ft)?.s();
                if !p.eat("to") {
                    return Err("constant cast".into());
                }
                let tt = self.ty(p)?;
                p.eat(")");
                let (fw, tw) = (a.w(v), tt.bits());
                let e = if tw < fw { a.extract(v, 0, tw) } else { a.zext(v, tw) };
                Ok(Val::S(e))
            }
            "getelementptr" => {
                loop {
                    let c = p.peek();
                    if c == b'(' {
                        break;
                    }
                    let w = p.word();
                    if w.is_empty() {
                        return Err("constant gep".into());
                    }
                    if w == "inrange" {
                        p.skip_balanced();
                    }
                }
                p.eat("(");
                let et = self.ty(p)?;
                p.eat(",");
                let bt = self.ty(p)?;
                let base = self.constant(a, p, &bt)?.s();
                let mut idx = vec![];
                while p.eat(",") {
                    p.eat("inrange");
                    let it = self.ty(p)?;
                    idx.push(self.constant(a, p, &it)?.s());
                }
                p.eat(")");
                let mut off = 0u64;
                let mut cur = et;
                for (k, &i) in idx.iter().enumerate() {
                    let w = a.w(i);
                    let v = crate::expr::sext_val(a.as_const(i).unwrap(), w) as i64;
                    if k == 0 {
                        off = off.wrapping_add((v as u64).wrapping_mul(cur.size()));
                    } else {
                        off = off.wrapping_add(match cur {
                            Ty::Struct(..) => cur.field_offset(v as usize),
                            _ => (v as u64).wrapping_mul(cur.elem(0).size()),
                        });
                        cur = cur.elem(if matches!(cur, Ty::Struct(..)) { v as usize } else { 0 });
                    }
                }
                let o = a.c64(off);
                Ok(Val::S(a.add(base, o)))
            }
            "add" | "sub" | "xor" => {
                while matches!(p.peek(), b'n') {
                    p.word();
                }
                p.eat("(");
                let t1 = self.ty(p)?;
                let x = self.constant(a, p, &t1)?.s();
                p.eat(",");
                let t2 = self.ty(p)?;
                let y = self.constant(a, p, &t2)?.s();
                p.eat(")");
                Ok(Val::S(match w {
                    "add" => a.add(x, y),
                    "sub" => a.sub(x, y),
                    _ => a.xor(x, y),
                }))
            }
            "dso_local_equivalent" | "no_cfi" => self.constant(a, p, t),
            _ => Err(format!("constant {:?}", w)),
        }
    }

    /// Parses a global's type and initialiser. Returns (type, constant?, initial value).
    pub fn global_init(&self, a: &mut Arena, i: usize) -> R<(Ty, bool, Option<Val>)> {
        let (st, en) = self.globals[i].init.unwrap();
        let line = &self.text[st..en];
        let mut p = P { s: line.as_bytes(), i: 1 };
        p.name();
        p.eat("=");
        let mut external = false;
        let mut constant = false;
        loop {
            let c = p.peek();
            if !c.is_ascii_alphabetic() {
                break;
            }
            let save = p.i;
            let w = p.word();
            match w {
                "constant" | "global" => {
                    constant = w == "constant";
                    break;
                }
                "external" | "extern_weak" => external = true,
                "" => return Err("global".into()),
                _ => {
                    if p.peek() == b'(' {
                        p.skip_balanced();
                    }
                }
            }
            if p.i == save {
                return Err("global".into());
            }
        }
        let t = self.ty(&mut p)?;
        if external {
            return Ok((t, constant, None));
        }
        let v = self.constant(a, &mut p, &t)?;
        Ok((t, constant, Some(v)))
    }

    // ------------------------------------------------------------ functions

    pub fn func(&mut self, a: &mut Arena, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        let &(st, en) = self.defs.get(name).ok_or_else(|| format!("no definition of {}", name))?;
        let line0 = 0;
        let mut f = {
            let body = &self.text[st..en];
            let mut fp = FuncParser { m: self, a, regs: HashMap::new(), labels: HashMap::new() };
            fp.parse(body, name, line0)?
        };
        f.id = self.nfunc;
        self.nfunc += 1;
        compute_live(&mut f);
        let rc = Rc::new(f);
        self.funcs.insert(rc.name.clone(), rc.clone());
        Ok(rc)
    }
}

struct FuncParser<'m, 'a> {
    m: &'m Module,
    a: &'a mut Arena,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

fn is_flag(w: &str) -> bool {
    matches!(
        w,
        "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "nneg" | "disjoint" | "samesign" | "volatile"
            | "inrange"
    )
}

impl<'m, 'a> FuncParser<'m, 'a> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: String) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }

    fn op(&mut self, p: &mut P, t: &Ty) -> R<Op> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Ok(Op::R(self.reg(n)));
        }
        Ok(Op::C(self.m.constant(self.a, p, t)?))
    }
    fn tyop(&mut self, p: &mut P) -> R<(Ty, Op)> {
        let t = self.m.ty(p)?;
        self.skip_attrs(p);
        let o = self.op(p, &t)?;
        Ok((t, o))
    }
    /// Skips parameter attributes up to the value.
    fn skip_attrs(&mut self, p: &mut P) {
        loop {
            let c = p.peek();
            if !c.is_ascii_alphabetic() {
                if c == b'"' {
                    p.name();
                    continue;
                }
                return;
            }
            let save = p.i;
            let w = p.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr"
                | "ptrtoint" | "getelementptr" | "splat" | "bitcast" | "trunc" | "zext" | "sub"
                | "add" | "xor" | "none" | "c" | "ptrtoaddr" => {
                    p.i = save;
                    return;
                }
                "align" => {
                    if p.peek() == b'(' {
                        p.skip_balanced();
                    } else {
                        p.num();
                    }
                }
                _ => {
                    if p.i == save {
                        return;
                    }
                    if p.peek() == b'(' {
                        p.skip_balanced();
                    }
                }
            }
        }
    }
    fn lbl(&mut self, p: &mut P) -> R<u32> {
        if !p.eat("label") {
            return Err("label".into());
        }
        p.ws();
        if p.peek() != b'%' {
            return Err("label".into());
        }
        p.i += 1;
        let n = p.name();
        Ok(self.label(n))
    }

    fn parse(&mut self, body: &str, name: &str, _l0: usize) -> R<Func> {
        // header
        let nl = body.find('\n').unwrap();
        let header = &body[..nl];
        let at = header.find('@').unwrap();
        // return type: parse tokens before '@' from the right is awkward; scan forward
        let mut p = P::new(&header[..at]);
        p.eat("define");
        let mut ret = Ty::Other;
        loop {
            let c = p.peek();
            if c == 0 {
                break;
            }
            if c == b'[' || c == b'{' || c == b'<' || c == b'%' {
                ret = self.m.ty(&mut p)?;
                break;
            }
            let save = p.i;
            let w = p.word();
            if w == "void" || w == "ptr" || (w.starts_with('i') && w[1..].parse::<u16>().is_ok()) {
                p.i = save;
                ret = self.m.ty(&mut p)?;
                break;
            }
            if w == "align" {
                p.num();
            } else if p.peek() == b'(' {
                p.skip_balanced();
            }
            if p.i == save {
                return Err(format!("header of {}", name));
            }
        }
        let mut p = P { s: header.as_bytes(), i: at + 1 };
        p.name();
        if !p.eat("(") {
            return Err("params".into());
        }
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !p.eat(")") {
            let _t = self.m.ty(&mut p)?;
            self.skip_attrs(&mut p);
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                if let Ok(k) = n.parse::<u32>() {
                    unnamed = k + 1;
                }
                params.push(self.reg(n));
            } else {
                let n = format!("{}", unnamed);
                unnamed += 1;
                params.push(self.reg(n));
            }
            p.eat(",");
        }
        let mut noreturn = header[p.i..].split_whitespace().any(|w| w == "noreturn");
        for tok in header[p.i..].split_whitespace() {
            if let Some(n) = tok.strip_prefix('#') {
                if let Ok(n) = n.parse::<u32>() {
                    noreturn |= self.m.noreturn_attrs.get(&n).copied().unwrap_or(false);
                }
            }
        }

        // join continuation lines into logical lines
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let mut lines = body[nl + 1..].lines().enumerate().peekable();
        let mut skip_block_rest = false;
        while let Some((ln, raw)) = lines.next() {
            if raw.starts_with('}') {
                break;
            }
            if raw.is_empty() || raw.starts_with(';') || raw.starts_with("    #dbg") {
                continue;
            }
            if !raw.starts_with(' ') {
                // label
                let mut q = P::new(raw);
                let n = q.name();
                if !q.eat(":") {
                    return Err(format!("unexpected line {:?}", raw));
                }
                if let Some(b) = cur.take() {
                    blocks.push(b);
                }
                let l = self.label(n);
                cur = Some((l, Block { phis: vec![], ins: vec![], line: ln + 2 }));
                skip_block_rest = false;
                continue;
            }
            let t = raw.trim_start();
            if t.starts_with("#dbg") {
                continue;
            }
            if cur.is_none() {
                // unnamed entry block
                let l = self.label(format!("{}", unnamed));
                cur = Some((l, Block { phis: vec![], ins: vec![], line: ln + 2 }));
            }
            let mut joined: Option<String> = None;
            if t.starts_with("switch ") && !t.contains(']') {
                let mut s = String::from(t);
                while let Some((_, l)) = lines.next() {
                    s.push(' ');
                    s.push_str(l.trim());
                    if l.trim_start().starts_with(']') {
                        break;
                    }
                }
                joined = Some(s);
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                let mut s = String::from(t);
                if let Some((_, l)) = lines.next() {
                    s.push(' ');
                    s.push_str(l.trim());
                }
                joined = Some(s);
            } else if t.contains("landingpad") {
                skip_block_rest = true;
                cur.as_mut().unwrap().1.ins.push(Ins::Bad("landingpad".into()));
                continue;
            }
            if skip_block_rest {
                continue;
            }
            let txt: &str = joined.as_deref().unwrap_or(t);
            let b = cur.as_mut().unwrap();
            match self.instr(txt) {
                Ok(Parsed::Ins(Ins::Nop)) => {}
                Ok(Parsed::Ins(i)) => b.1.ins.push(i),
                Ok(Parsed::Phi(d, v)) => b.1.phis.push((d, v)),
                Err(e) => {
                    // keep register numbering alive
                    b.1.ins.push(Ins::Bad(format!("{}: {}", e, txt)));
                }
            }
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        let entry = blocks[0].0;
        let n = self.labels.len();
        let mut out: Vec<Option<Block>> = (0..n).map(|_| None).collect();
        for (l, b) in blocks {
            out[l as usize] = Some(b);
        }
        let mut bl: Vec<Block> = out
            .into_iter()
            .map(|b| {
                b.unwrap_or(Block {
                    phis: vec![],
                    ins: vec![Ins::Bad("missing block".into())],
                    line: 0,
                })
            })
            .collect();
        // make the entry block number 0
        if entry != 0 {
            bl.swap(0, entry as usize);
            let fix = |l: &mut u32| {
                if *l == 0 {
                    *l = entry
                } else if *l == entry {
                    *l = 0
                }
            };
            for b in bl.iter_mut() {
                for (_, v) in b.phis.iter_mut() {
                    for (l, _) in v.iter_mut() {
                        fix(l);
                    }
                }
                for i in b.ins.iter_mut() {
                    match i {
                        Ins::Br(l) => fix(l),
                        Ins::CondBr(_, x, y) => {
                            fix(x);
                            fix(y);
                        }
                        Ins::Switch(_, d, v) => {
                            fix(d);
                            for (_, l) in v.iter_mut() {
                                fix(l);
                            }
                        }
                        Ins::Call { normal: Some(l), .. } => fix(l),
                        _ => {}
                    }
                }
            }
        }
        Ok(Func {
            name: name.into(),
            id: 0,
            params,
            ret,
            blocks: bl,
            nregs: self.regs.len(),
            noreturn,
            live: vec![],
        })
    }

    fn instr(&mut self, txt: &str) -> R<Parsed> {
        let mut p = P::new(txt);
        let p = &mut p;
        let mut dst: Option<u32> = None;
        if p.peek() == b'%' {
            let save = p.i;
            p.i += 1;
            let n = p.name();
            if p.eat("=") {
                dst = Some(self.reg(n));
            } else {
                p.i = save;
            }
        }
        let mut w = p.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = p.word();
        }
        let d = dst.unwrap_or(u32::MAX);
        let bop = |w: &str| {
            Some(match w {
                "add" => Bop::Add,
                "sub" => Bop::Sub,
                "mul" => Bop::Mul,
                "udiv" => Bop::UDiv,
                "sdiv" => Bop::SDiv,
                "urem" => Bop::URem,
                "srem" => Bop::SRem,
                "shl" => Bop::Shl,
                "lshr" => Bop::LShr,
                "ashr" => Bop::AShr,
                "and" => Bop::And,
                "or" => Bop::Or,
                "xor" => Bop::Xor,
                _ => return None,
            })
        };
        if let Some(op) = bop(w) {
            self.flags(p);
            let t = self.m.ty(p)?;
            let a = self.op(p, &t)?;
            p.eat(",");
            let b = self.op(p, &t)?;
            return Ok(Parsed::Ins(Ins::Bin { dst: d, op, a, b }));
        }
        Ok(Parsed::Ins(match w {
            "alloca" => {
                p.eat("inalloca");
                let t = self.m.ty(p)?;
                let mut count = None;
                if p.eat(",") && p.peek() != b'a' && p.peek() != b'!' {
                    let (_, c) = self.tyop(p)?;
                    count = Some(c);
                }
                Ins::Alloca { dst: d, size: t.size(), count }
            }
            "load" => {
                p.eat("atomic");
                p.eat("volatile");
                let t = self.m.ty(p)?;
                p.eat(",");
                let (_, ptr) = self.tyop(p)?;
                Ins::Load { dst: d, ty: t, ptr }
            }
            "store" => {
                p.eat("atomic");
                p.eat("volatile");
                let (t, v) = self.tyop(p)?;
                p.eat(",");
                let (_, ptr) = self.tyop(p)?;
                Ins::Store { ty: t, val: v, ptr }
            }
            "getelementptr" => {
                self.flags(p);
                let et = self.m.ty(p)?;
                p.eat(",");
                let (_, base) = self.tyop(p)?;
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = et;
                let mut k = 0;
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (_, i) = self.tyop(p)?;
                    let stride;
                    if k == 0 {
                        stride = cur.size();
                    } else if let Ty::Struct(..) = cur {
                        if let Op::C(v) = &i {
                            let c = self.a.as_const(v.s()).ok_or("gep")? as usize;
                            off = off.wrapping_add(cur.field_offset(c));
                            cur = cur.elem(c);
                            k += 1;
                            continue;
                        }
                        return Err("gep struct index".into());
                    } else {
                        cur = cur.elem(0);
                        stride = cur.size();
                    }
                    k += 1;
                    match &i {
                        Op::C(v) => {
                            let e = v.s();
                            let c = crate::expr::sext_val(
                                self.a.as_const(e).ok_or("gep const")?,
                                self.a.w(e),
                            ) as i64;
                            off = off.wrapping_add((c as u64).wrapping_mul(stride));
                        }
                        _ => terms.push((i, stride)),
                    }
                }
                Ins::Gep { dst: d, base, off, terms }
            }
            "icmp" => {
                let mut w = p.word();
                if w == "samesign" {
                    w = p.word();
                }
                let pred = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err("icmp".into()),
                };
                let t = self.m.ty(p)?;
                let a = self.op(p, &t)?;
                p.eat(",");
                let b = self.op(p, &t)?;
                Ins::Icmp { dst: d, pred, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                self.flags(p);
                let t = self.m.ty(p)?;
                let a = self.op(p, &t)?;
                if !p.eat("to") {
                    return Err("cast".into());
                }
                let to = self.m.ty(p)?;
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bit,
                    _ => {
                        if to.bits() < t.bits() {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                };
                Ins::Cast { dst: d, op, to, from: t, a }
            }
            "select" => {
                self.flags(p);
                let (_, c) = self.tyop(p)?;
                p.eat(",");
                let (_, a) = self.tyop(p)?;
                p.eat(",");
                let (_, b) = self.tyop(p)?;
                Ins::Select { dst: d, c, a, b }
            }
            "freeze" => {
                let (_, a) = self.tyop(p)?;
                Ins::Copy { dst: d, a }
            }
            "phi" => {
                let t = self.m.ty(p)?;
                let mut v = vec![];
                while p.eat("[") {
                    let o = self.op(p, &t)?;
                    p.eat(",");
                    p.ws();
                    p.i += 1;
                    let n = p.name();
                    let l = self.label(n);
                    p.eat("]");
                    v.push((l, o));
                    if !p.eat(",") {
                        break;
                    }
                }
                return Ok(Parsed::Phi(d, v));
            }
            "br" => {
                if p.peek() == b'l' {
                    Ins::Br(self.lbl(p)?)
                } else {
                    let (_, c) = self.tyop(p)?;
                    p.eat(",");
                    let x = self.lbl(p)?;
                    p.eat(",");
                    let y = self.lbl(p)?;
                    Ins::CondBr(c, x, y)
                }
            }
            "switch" => {
                let (t, v) = self.tyop(p)?;
                p.eat(",");
                let dl = self.lbl(p)?;
                p.eat("[");
                let mut cs = vec![];
                while p.peek() != b']' {
                    let ct = self.m.ty(p)?;
                    let c = self.m.constant(self.a, p, &ct)?.s();
                    p.eat(",");
                    let l = self.lbl(p)?;
                    cs.push((c, l));
                }
                let _ = t;
                Ins::Switch(v, dl, cs)
            }
            "ret" => {
                let t = self.m.ty(p)?;
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.op(p, &t)?))
                }
            }
            "unreachable" | "unreachable," => Ins::Unreachable,
            "call" | "invoke" => {
                // skip calling convention / return attributes / fast-math flags
                let ret;
                loop {
                    let c = p.peek();
                    if c == b'[' || c == b'{' || c == b'<' || c == b'%' {
                        ret = self.m.ty(p)?;
                        break;
                    }
                    let save = p.i;
                    let w = p.word();
                    if w == "void"
                        || w == "ptr"
                        || (w.starts_with('i') && w[1..].parse::<u16>().is_ok())
                    {
                        p.i = save;
                        ret = self.m.ty(p)?;
                        break;
                    }
                    if w == "align" {
                        p.num();
                    } else if p.peek() == b'(' {
                        p.skip_balanced();
                    }
                    if p.i == save {
                        return Err("call header".into());
                    }
                }
                // optional function type in parentheses
                if p.peek() == b'(' {
                    p.skip_balanced();
                }
                let callee = match p.peek() {
                    b'@' => {
                        p.i += 1;
                        Callee::Sym(p.name().into())
                    }
                    b'%' => {
                        p.i += 1;
                        let n = p.name();
                        Callee::Ind(Op::R(self.reg(n)))
                    }
                    _ => {
                        if p.eat("asm") {
                            return Err("inline asm".into());
                        }
                        Callee::Ind(Op::C(self.m.constant(self.a, p, &Ty::Ptr)?))
                    }
                };
                if !p.eat("(") {
                    return Err("call args".into());
                }
                let mut args = vec![];
                while !p.eat(")") {
                    let save = p.i;
                    if p.eat("metadata") {
                        // skip to the matching comma / paren
                        let mut depth = 0;
                        while p.i < p.s.len() {
                            match p.s[p.i] {
                                b'(' => depth += 1,
                                b')' if depth == 0 => break,
                                b')' => depth -= 1,
                                b',' if depth == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        p.eat(",");
                        continue;
                    }
                    p.i = save;
                    let (_, o) = self.tyop(p)?;
                    args.push(o);
                    p.eat(",");
                }
                let mut normal = None;
                if w == "invoke" {
                    // ... to label %x unwind label %y
                    let rest = std::str::from_utf8(&p.s[p.i..]).unwrap();
                    let k = rest.find("to label ").ok_or("invoke")?;
                    p.i += k + 3;
                    normal = Some(self.lbl(p)?);
                }
                Ins::Call { dst, ret, callee, args, normal }
            }
            "extractvalue" => {
                let (_, a) = self.tyop(p)?;
                let mut idx = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.num() as u32);
                }
                Ins::Extract { dst: d, a, idx }
            }
            "insertvalue" => {
                let (_, a) = self.tyop(p)?;
                p.eat(",");
                let (_, v) = self.tyop(p)?;
                let mut idx = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.num() as u32);
                }
                Ins::Insert { dst: d, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tyop(p)?;
                p.eat(",");
                let (_, i) = self.tyop(p)?;
                Ins::ExtractElem { dst: d, a, i }
            }
            "insertelement" => {
                let (_, a) = self.tyop(p)?;
                p.eat(",");
                let (_, v) = self.tyop(p)?;
                p.eat(",");
                let (_, i) = self.tyop(p)?;
                Ins::InsertElem { dst: d, a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.tyop(p)?;
                p.eat(",");
                let (_, b) = self.tyop(p)?;
                p.eat(",");
                let (_, m) = self.tyop(p)?;
                let mask = match m {
                    Op::C(Val::A(v)) => {
                        v.iter().map(|x| self.a.as_const(x.s()).unwrap_or(0) as u32).collect()
                    }
                    _ => return Err("shuffle mask".into()),
                };
                Ins::Shuffle { dst: d, a, b, mask }
            }
            "atomicrmw" => {
                p.eat("volatile");
                let op = p.word().to_string();
                let (_, ptr) = self.tyop(p)?;
                p.eat(",");
                let (ty, v) = self.tyop(p)?;
                Ins::Rmw { dst: d, op, ptr, v, ty }
            }
            "cmpxchg" => {
                p.eat("weak");
                p.eat("volatile");
                let (_, ptr) = self.tyop(p)?;
                p.eat(",");
                let (ty, old) = self.tyop(p)?;
                p.eat(",");
                let (_, new) = self.tyop(p)?;
                Ins::CmpXchg { dst: d, ptr, old, new, ty }
            }
            "fence" => Ins::Nop,
            "resume" => Ins::Bad("resume".into()),
            _ => return Err(format!("instruction {:?}", w)),
        }))
    }

    fn flags(&mut self, p: &mut P) {
        loop {
            p.ws();
            let save = p.i;
            let w = p.word();
            if !is_flag(w) {
                p.i = save;
                return;
            }
            if p.s.get(p.i) == Some(&b'(') {
                p.skip_balanced();
            }
        }
    }
}

enum Parsed {
    Ins(Ins),
    Phi(u32, Vec<(u32, Op)>),
}

pub fn ins_dst(i: &Ins) -> Option<u32> {
    match i {
        Ins::Alloca { dst, .. }
        | Ins::Load { dst, .. }
        | Ins::Gep { dst, .. }
        | Ins::Bin { dst, .. }
        | Ins::Icmp { dst, .. }
        | Ins::Cast { dst, .. }
        | Ins::Select { dst, .. }
        | Ins::Extract { dst, .. }
        | Ins::Insert { dst, .. }
        | Ins::Copy { dst, .. }
        | Ins::ExtractElem { dst, .. }
        | Ins::InsertElem { dst, .. }
        | Ins::Shuffle { dst, .. }
        | Ins::Rmw { dst, .. }
        | Ins::CmpXchg { dst, .. } => Some(*dst),
        Ins::Call { dst, .. } => *dst,
        _ => None,
    }
}

pub fn ins_uses<'x>(i: &'x Ins, f: &mut dyn FnMut(&'x Op)) {
    match i {
        Ins::Alloca { count, .. } => {
            if let Some(c) = count {
                f(c)
            }
        }
        Ins::Load { ptr, .. } => f(ptr),
        Ins::Store { val, ptr, .. } => {
            f(val);
            f(ptr)
        }
        Ins::Gep { base, terms, .. } => {
            f(base);
            for t in terms {
                f(&t.0)
            }
        }
        Ins::Bin { a, b, .. } | Ins::Icmp { a, b, .. } => {
            f(a);
            f(b)
        }
        Ins::Cast { a, .. } | Ins::Copy { a, .. } | Ins::Extract { a, .. } => f(a),
        Ins::Select { c, a, b, .. } => {
            f(c);
            f(a);
            f(b)
        }
        Ins::Call { callee, args, .. } => {
            if let Callee::Ind(o) = callee {
                f(o)
            }
            for x in args {
                f(x)
            }
        }
        Ins::Insert { a, v, .. } => {
            f(a);
            f(v)
        }
        Ins::ExtractElem { a, i, .. } => {
            f(a);
            f(i)
        }
        Ins::InsertElem { a, v, i, .. } => {
            f(a);
            f(v);
            f(i)
        }
        Ins::Shuffle { a, b, .. } => {
            f(a);
            f(b)
        }
        Ins::Rmw { ptr, v, .. } => {
            f(ptr);
            f(v)
        }
        Ins::CmpXchg { ptr, old, new, .. } => {
            f(ptr);
            f(old);
            f(new)
        }
        Ins::CondBr(c, _, _) => f(c),
        Ins::Switch(c, _, _) => f(c),
        Ins::Ret(Some(o)) => f(o),
        _ => {}
    }
}

pub fn successors(b: &Block) -> Vec<u32> {
    match b.ins.last() {
        Some(Ins::Br(l)) => vec![*l],
        Some(Ins::CondBr(_, x, y)) => vec![*x, *y],
        Some(Ins::Switch(_, d, v)) => {
            let mut o = vec![*d];
            o.extend(v.iter().map(|x| x.1));
            o
        }
        Some(Ins::Call { normal: Some(l), .. }) => vec![*l],
        _ => vec![],
    }
}

/// Registers live on entry to each block (phi destinations included).
fn compute_live(f: &mut Func) {
    use std::collections::BTreeSet;
    let n = f.blocks.len();
    let mut live: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
    let mut gens: Vec<BTreeSet<u32>> = vec![];
    let mut kills: Vec<BTreeSet<u32>> = vec![];
    for b in &f.blocks {
        let mut g = BTreeSet::new();
        let mut k = BTreeSet::new();
        for i in &b.ins {
            ins_uses(i, &mut |o| {
                if let Op::R(r) = o {
                    if !k.contains(r) {
                        g.insert(*r);
                    }
                }
            });
            if let Some(d) = ins_dst(i) {
                k.insert(d);
            }
        }
        gens.push(g);
        kills.push(k);
    }
    loop {
        let mut changed = false;
        for bi in (0..n).rev() {
            let mut out: BTreeSet<u32> = BTreeSet::new();
            for s in successors(&f.blocks[bi]) {
                let sb = &f.blocks[s as usize];
                let dsts: Vec<u32> = sb.phis.iter().map(|x| x.0).collect();
                for &r in &live[s as usize] {
                    if !dsts.contains(&r) {
                        out.insert(r);
                    }
                }
                for (_, v) in &sb.phis {
                    for (l, o) in v {
                        if *l == bi as u32 {
                            if let Op::R(r) = o {
                                out.insert(*r);
                            }
                        }
                    }
                }
            }
            let mut inn = gens[bi].clone();
            for r in out {
                if !kills[bi].contains(&r) {
                    inn.insert(r);
                }
            }
            if inn != live[bi] {
                live[bi] = inn;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    f.live = live.into_iter().map(|s| s.into_iter().collect()).collect();
}
