//! Hash-consed bit-vector expressions with eager simplification.
//!
//! Every value the executor manipulates is an `E` (index into the arena). Width-1 expressions are
//! booleans. Sums are kept in a linear normal form so that stream-position arithmetic
//! (`(p + n) - (n - k)`) cancels without a solver call.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    /// Only used for widths above 64 bits (narrower sums are `Lin`).
    AddW,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpOp {
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const { w: u8, v: u128 },
    Var { w: u8, id: u32 },
    Lin { w: u8, c: u64, t: Rc<[(u64, E)]> },
    Bin { op: BinOp, w: u8, a: E, b: E },
    Cmp { op: CmpOp, a: E, b: E },
    Not { a: E },
    Ite { c: E, a: E, b: E },
    Concat { hi: E, lo: E },
    Extract { a: E, lo: u8, w: u8 },
    ZExt { a: E, w: u8 },
    SExt { a: E, w: u8 },
    /// Byte `idx` (64-bit) of symbolic file `file`.
    Sel { file: u32, idx: E },
}

/// Contents of a symbolic file: concrete cells and an optional concrete default.
#[derive(Clone, Default)]
pub struct FileInfo {
    pub cells: HashMap<u64, E>,
    pub default: Option<u8>,
    /// Position-independent: byte `i` is `pattern[(i - start) % len]` for `i >= start`.
    pub pattern: Option<(u64, Vec<E>)>,
    /// Positions `lo <= i < hi` hold a constant byte (after `cells`, before `pattern`).
    pub zones: Vec<(u64, u64, u8)>,
}

impl FileInfo {
    /// Whether position `i` is described by no cell, zone, pattern or default.
    pub fn is_free(&self, i: u64) -> bool {
        self.default.is_none()
            && !self.cells.contains_key(&i)
            && !self.zones.iter().any(|z| i >= z.0 && i < z.1)
            && !matches!(&self.pattern, Some((s, _)) if i >= *s)
    }
}

pub struct Arena {
    nodes: Vec<Node>,
    width: Vec<u8>,
    range: Vec<(u128, u128)>,
    table: HashMap<Node, E>,
    pub files: Vec<FileInfo>,
    pub nvars: u32,
    pub var_names: Vec<String>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext_val(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub const FALSE: E = 256;
pub const TRUE: E = 257;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            width: vec![],
            range: vec![],
            table: HashMap::new(),
            files: vec![],
            nvars: 0,
            var_names: vec![],
        };
        for i in 0..256u128 {
            a.mk(Node::Const { w: 8, v: i });
        }
        assert_eq!(a.c(1, 0), FALSE);
        assert_eq!(a.c(1, 1), TRUE);
        a
    }

    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn node(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u8 {
        self.width[e as usize]
    }
    pub fn range(&self, e: E) -> (u128, u128) {
        self.range[e as usize]
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.table.get(&n) {
            return e;
        }
        let w = match &n {
            Node::Const { w, .. }
            | Node::Var { w, .. }
            | Node::Lin { w, .. }
            | Node::Bin { w, .. }
            | Node::Extract { w, .. }
            | Node::ZExt { w, .. }
            | Node::SExt { w, .. } => *w,
            Node::Cmp { .. } | Node::Not { .. } => 1,
            Node::Ite { a, .. } => self.w(*a),
            Node::Concat { hi, lo } => self.w(*hi) + self.w(*lo),
            Node::Sel { .. } => 8,
        };
        let m = mask(w);
        let range = match &n {
            Node::Const { v, .. } => (*v, *v),
            Node::ZExt { a, .. } => self.range(*a),
            Node::Ite { a, b, .. } => {
                let (x, y) = (self.range(*a), self.range(*b));
                (x.0.min(y.0), x.1.max(y.1))
            }
            Node::Concat { hi, lo } => {
                let (x, y) = (self.range(*hi), self.range(*lo));
                let s = self.w(*lo) as u32;
                ((x.0 << s) + y.0, (x.1 << s) + y.1)
            }
            Node::Lin { c, t, .. } => {
                // No wrap if the maximum of the sum with positive small coefficients fits.
                let mut lo = *c as u128;
                let mut hi = *c as u128;
                let mut ok = true;
                for &(k, e) in t.iter() {
                    let r = self.range(e);
                    match ((k as u128).checked_mul(r.1), (k as u128).checked_mul(r.0)) {
                        (Some(h), Some(l)) if h <= m => {
                            hi = hi.saturating_add(h);
                            lo = lo.saturating_add(l);
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok && hi <= m {
                    (lo, hi)
                } else {
                    (0, m)
                }
            }
            Node::Bin { op, a, b, .. } => {
                let (x, y) = (self.range(*a), self.range(*b));
                match op {
                    BinOp::And => (0, x.1.min(y.1)),
                    BinOp::Or => {
                        let bits = 128 - (x.1 | y.1).leading_zeros();
                        (x.0.max(y.0), mask(bits as u8).min(m))
                    }
                    BinOp::LShr => (0, x.1),
                    BinOp::URem => {
                        if y.0 > 0 {
                            (0, x.1.min(y.1 - 1))
                        } else {
                            (0, m)
                        }
                    }
                    BinOp::UDiv => {
                        if y.0 > 0 {
                            (x.0 / y.1, x.1 / y.0)
                        } else {
                            (0, m)
                        }
                    }
                    _ => (0, m),
                }
            }
            Node::Extract { a, lo, .. } => {
                let x = self.range(*a);
                if *lo == 0 && x.1 <= m {
                    x
                } else if x.1 >> *lo <= m {
                    (x.0 >> *lo, x.1 >> *lo)
                } else {
                    (0, m)
                }
            }
            _ => (0, m),
        };
        let id = self.nodes.len() as E;
        self.table.insert(n.clone(), id);
        self.nodes.push(n);
        self.width.push(w);
        self.range.push(range);
        id
    }

    pub fn c(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        if w == 8 && self.nodes.len() >= 256 {
            return v as E;
        }
        self.mk(Node::Const { w, v })
    }
    pub fn c64(&mut self, v: u64) -> E {
        self.c(64, v as u128)
    }
    pub fn b(&self, v: bool) -> E {
        if v {
            TRUE
        } else {
            FALSE
        }
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.node(e) {
            Node::Const { v, .. } => Some(*v),
            _ => None,
        }
    }
    pub fn is_const(&self, e: E) -> bool {
        matches!(self.node(e), Node::Const { .. })
    }

    pub fn var(&mut self, w: u8, name: &str) -> E {
        let id = self.nvars;
        self.nvars += 1;
        self.var_names.push(name.to_string());
        self.mk(Node::Var { w, id })
    }

    // ---------------------------------------------------------------- linear forms

    fn lin_parts(&self, e: E) -> (u64, Vec<(u64, E)>) {
        match self.node(e) {
            Node::Const { v, .. } => (*v as u64, vec![]),
            Node::Lin { c, t, .. } => (*c, t.to_vec()),
            _ => (0, vec![(1, e)]),
        }
    }

    fn mk_lin(&mut self, w: u8, c: u64, mut t: Vec<(u64, E)>) -> E {
        let m = mask(w) as u64;
        t.sort_by_key(|x| x.1);
        let mut out: Vec<(u64, E)> = Vec::with_capacity(t.len());
        for (k, e) in t {
            if let Some(l) = out.last_mut() {
                if l.1 == e {
                    l.0 = l.0.wrapping_add(k) & m;
                    continue;
                }
            }
            out.push((k & m, e));
        }
        out.retain(|x| x.0 != 0);
        let c = c & m;
        if out.len() > 1 {
            self.merge_disjoint(w, &mut out);
        }
        if out.is_empty() {
            return self.c(w, c as u128);
        }
        if c == 0 && out.len() == 1 && out[0].0 == 1 {
            return out[0].1;
        }
        self.mk(Node::Lin { w, c, t: out.into() })
    }

    fn shl_parts(&mut self, e: E, n: u8) -> E {
        if n == 0 {
            return e;
        }
        let w = self.w(e);
        let x = self.extract(e, 0, w - n);
        let z = self.c(n, 0);
        self.concat(x, z)
    }

    /// Sums of terms without common bits become concatenations, so that comparisons with constants
    /// split into bytes.
    fn merge_disjoint(&mut self, w: u8, t: &mut Vec<(u64, E)>) {
        let m = mask(w) as u64;
        for neg in [false, true] {
            let mut buckets: Vec<(u64, E, bool)> = vec![];
            let mut cand = vec![];
            for &(k, e) in t.iter() {
                let kk = if neg { k.wrapping_neg() & m } else { k };
                if !kk.is_power_of_two() || !matches!(self.node(e), Node::Concat { .. } | Node::ZExt { .. }) {
                    continue;
                }
                let x = self.shl_parts(e, kk.trailing_zeros() as u8);
                let mut p = vec![];
                self.parts(x, &mut p);
                let mut at = w as u32;
                let mut bits = 0u64;
                let mut n = 0;
                for (q, pw) in p {
                    at -= pw as u32;
                    if self.as_const(q) == Some(0) {
                        continue;
                    }
                    n += 1;
                    bits |= (mask(pw) as u64) << at;
                }
                cand.push((n, k, e, x, bits));
            }
            if cand.len() < 2 {
                continue;
            }
            cand.sort_by_key(|x| (std::cmp::Reverse(x.0), x.2));
            let mut used: Vec<E> = vec![];
            let mut members: Vec<Vec<E>> = vec![];
            for (_, _, e, x, bits) in cand {
                match buckets.iter().position(|b| b.0 & bits == 0) {
                    Some(i) => {
                        let y = self.or(buckets[i].1, x);
                        buckets[i] = (buckets[i].0 | bits, y, true);
                        members[i].push(e);
                    }
                    None => {
                        buckets.push((bits, x, false));
                        members.push(vec![e]);
                    }
                }
            }
            let mut add = vec![];
            for (i, b) in buckets.iter().enumerate() {
                if b.2 {
                    used.extend(members[i].iter());
                    add.push((if neg { m } else { 1 }, b.1));
                }
            }
            if !add.is_empty() {
                t.retain(|x| !used.contains(&x.1));
                t.extend(add);
                t.sort_by_key(|x| x.1);
            }
        }
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.xor(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c(w, x.wrapping_add(y));
        }
        if w > 64 {
            if self.as_const(a) == Some(0) {
                return b;
            }
            if self.as_const(b) == Some(0) {
                return a;
            }
            return self.mk(Node::Bin { op: BinOp::AddW, w, a, b });
        }
        let (c1, mut t1) = self.lin_parts(a);
        let (c2, t2) = self.lin_parts(b);
        t1.extend(t2);
        self.mk_lin(w, c1.wrapping_add(c2), t1)
    }
    pub fn mul_const(&mut self, a: E, k: u64) -> E {
        let w = self.w(a);
        let (c, t) = self.lin_parts(a);
        let t = t.into_iter().map(|(q, e)| (q.wrapping_mul(k), e)).collect();
        self.mk_lin(w, c.wrapping_mul(k), t)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c(w, x.wrapping_sub(y));
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if w > 64 {
            let nb = self.neg_wide(b);
            return self.add(a, nb);
        }
        let nb = self.mul_const(b, u64::MAX);
        self.add(a, nb)
    }
    fn neg_wide(&mut self, b: E) -> E {
        let w = self.w(b);
        let ones = self.c(w, u128::MAX);
        let nb = self.bin(BinOp::Xor, b, ones);
        let one = self.c(w, 1);
        self.add(nb, one)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w <= 64 && w > 1 {
            if let Some(x) = self.as_const(a) {
                return self.mul_const(b, x as u64);
            }
            if let Some(y) = self.as_const(b) {
                return self.mul_const(a, y as u64);
            }
        }
        self.bin(BinOp::Mul, a, b)
    }

    // ---------------------------------------------------------------- booleans

    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        match *self.node(a) {
            Node::Const { v, .. } => self.b(v == 0),
            Node::Not { a } => a,
            _ => self.mk(Node::Not { a }),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Xor, a, b)
    }

    fn is_not_of(&self, a: E, b: E) -> bool {
        matches!(*self.node(a), Node::Not { a: x } if x == b)
            || matches!(*self.node(b), Node::Not { a: x } if x == a)
    }

    // ---------------------------------------------------------------- parts (concat view)

    /// Flattens into (expr, width) parts, most significant first.
    fn parts(&mut self, e: E, out: &mut Vec<(E, u8)>) {
        match *self.node(e) {
            Node::Concat { hi, lo } => {
                self.parts(hi, out);
                self.parts(lo, out);
            }
            Node::ZExt { a, w } => {
                let z = w - self.w(a);
                let zc = self.c(z, 0);
                out.push((zc, z));
                self.parts(a, out);
            }
            _ => {
                let w = self.w(e);
                out.push((e, w))
            }
        }
    }

    fn from_parts(&mut self, p: &[(E, u8)]) -> E {
        let mut acc = p[p.len() - 1].0;
        for &(e, _) in p[..p.len() - 1].iter().rev() {
            acc = self.concat(e, acc);
        }
        acc
    }

    fn split_parts(&mut self, p: Vec<(E, u8)>, cuts: &[u8]) -> Vec<(E, u8)> {
        // cuts: ascending bit positions (from LSB) where a boundary is wanted
        let total: u16 = p.iter().map(|x| x.1 as u16).sum();
        let mut out = vec![];
        let mut top = total;
        for (e, w) in p {
            let bot = top - w as u16;
            let mut hi = top;
            let mut inner: Vec<u16> = cuts
                .iter()
                .map(|&c| c as u16)
                .filter(|&c| c > bot && c < top)
                .collect();
            inner.sort_by(|a, b| b.cmp(a));
            inner.push(bot);
            for c in inner {
                let ww = (hi - c) as u8;
                let x = self.extract(e, (c - bot) as u8, ww);
                out.push((x, ww));
                hi = c;
            }
            top = bot;
        }
        out
    }

    fn boundaries(p: &[(E, u8)]) -> Vec<u8> {
        let mut v = vec![];
        let mut pos = 0u16;
        for &(_, w) in p.iter().rev() {
            pos += w as u16;
            v.push(pos as u8);
        }
        v.pop();
        v
    }

    fn bitwise_parts(&mut self, op: BinOp, a: E, b: E) -> Option<E> {
        let composite = |n: &Node| matches!(n, Node::Concat { .. } | Node::ZExt { .. });
        let (ca, cb) = (composite(self.node(a)), composite(self.node(b)));
        if !ca && !cb {
            return None;
        }
        if !(ca && cb) && !self.is_const(a) && !self.is_const(b) {
            return None;
        }
        let mut pa = vec![];
        self.parts(a, &mut pa);
        let mut pb = vec![];
        self.parts(b, &mut pb);
        let mut cuts = Self::boundaries(&pa);
        cuts.extend(Self::boundaries(&pb));
        // For constants, also cut at runs of zero / ones.
        for p in [&pa, &pb] {
            let mut bot = 0u16;
            for &(e, w) in p.iter().rev() {
                if let Some(v) = self.as_const(e) {
                    for i in 1..w as u16 {
                        if (v >> i) & 1 != (v >> (i - 1)) & 1 {
                            cuts.push((bot + i) as u8);
                        }
                    }
                }
                bot += w as u16;
            }
        }
        cuts.sort();
        cuts.dedup();
        if cuts.len() > 24 {
            return None;
        }
        let pa = self.split_parts(pa, &cuts);
        let pb = self.split_parts(pb, &cuts);
        let mut out = vec![];
        for (x, y) in pa.iter().zip(pb.iter()) {
            debug_assert_eq!(x.1, y.1);
            let w = x.1;
            let (cx, cy) = (self.as_const(x.0), self.as_const(y.0));
            let m = mask(w);
            let r = match (op, cx, cy) {
                (_, Some(p), Some(q)) => {
                    let v = match op {
                        BinOp::And => p & q,
                        BinOp::Or => p | q,
                        _ => p ^ q,
                    };
                    self.c(w, v)
                }
                (BinOp::And, Some(0), _) | (BinOp::And, _, Some(0)) => self.c(w, 0),
                (BinOp::And, Some(p), _) if p == m => y.0,
                (BinOp::And, _, Some(q)) if q == m => x.0,
                (BinOp::Or, Some(0), _) | (BinOp::Xor, Some(0), _) => y.0,
                (BinOp::Or, _, Some(0)) | (BinOp::Xor, _, Some(0)) => x.0,
                (BinOp::Or, Some(p), _) if p == m => x.0,
                (BinOp::Or, _, Some(q)) if q == m => y.0,
                _ => {
                    if x.0 == y.0 {
                        match op {
                            BinOp::Xor => self.c(w, 0),
                            _ => x.0,
                        }
                    } else {
                        return None;
                    }
                }
            };
            out.push((r, w));
        }
        Some(self.from_parts(&out))
    }

    // ---------------------------------------------------------------- generic binary

    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let v = match op {
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::UDiv => {
                    if y == 0 {
                        m
                    } else {
                        x / y
                    }
                }
                BinOp::URem => {
                    if y == 0 {
                        x
                    } else {
                        x % y
                    }
                }
                BinOp::SDiv => {
                    let (p, q) = (sext_val(x, w), sext_val(y, w));
                    if q == 0 {
                        if p < 0 {
                            1
                        } else {
                            m
                        }
                    } else {
                        p.wrapping_div(q) as u128
                    }
                }
                BinOp::SRem => {
                    let (p, q) = (sext_val(x, w), sext_val(y, w));
                    if q == 0 {
                        x
                    } else {
                        p.wrapping_rem(q) as u128
                    }
                }
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => {
                    let s = sext_val(x, w);
                    if y >= w as u128 {
                        (if s < 0 { -1i128 } else { 0 }) as u128
                    } else {
                        (s >> y) as u128
                    }
                }
                BinOp::AddW => x.wrapping_add(y),
            };
            return self.c(w, v);
        }
        // canonical order for commutative operators: constant on the right
        let (a, b) = match op {
            BinOp::And | BinOp::Or | BinOp::Xor | BinOp::Mul | BinOp::AddW => {
                if self.is_const(a) || (!self.is_const(b) && a > b) {
                    (b, a)
                } else {
                    (a, b)
                }
            }
            _ => (a, b),
        };
        let cb = self.as_const(b);
        if w == 1 {
            match op {
                BinOp::And => {
                    if cb == Some(1) || a == b {
                        return a;
                    }
                    if cb == Some(0) || self.is_not_of(a, b) {
                        return FALSE;
                    }
                    // absorption with an immediate conjunct
                    if let Node::Bin { op: BinOp::And, a: x, b: y, .. } = *self.node(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                    if let Node::Bin { op: BinOp::And, a: x, b: y, .. } = *self.node(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                }
                BinOp::Or => {
                    if cb == Some(0) || a == b {
                        return a;
                    }
                    if cb == Some(1) || self.is_not_of(a, b) {
                        return TRUE;
                    }
                }
                BinOp::Xor => {
                    if cb == Some(0) {
                        return a;
                    }
                    if cb == Some(1) {
                        return self.not(a);
                    }
                    if a == b {
                        return FALSE;
                    }
                }
                _ => {}
            }
            return self.mk(Node::Bin { op, w, a, b });
        }
        match op {
            BinOp::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(v) = cb {
                    // low mask
                    if (v & (v + 1)) == 0 {
                        let k = 128 - v.leading_zeros();
                        let x = self.extract(a, 0, k as u8);
                        return self.zext(x, w);
                    }
                    // contiguous mask not at bit 0
                    let tz = v.trailing_zeros();
                    let s = v >> tz;
                    if (s & (s + 1)) == 0 {
                        let k = (128 - s.leading_zeros()) as u8;
                        let x = self.extract(a, tz as u8, k);
                        let z = self.c(tz as u8, 0);
                        let y = self.concat(x, z);
                        return self.zext(y, w);
                    }
                }
                if let Some(e) = self.bitwise_parts(op, a, b) {
                    return e;
                }
            }
            BinOp::Or | BinOp::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if op == BinOp::Or && cb == Some(m) {
                    return b;
                }
                if a == b {
                    return if op == BinOp::Or { a } else { self.c(w, 0) };
                }
                if let Some(e) = self.bitwise_parts(op, a, b) {
                    return e;
                }
                // xor with all ones stays a Xor node
            }
            BinOp::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u8;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(k, 0);
                    return self.concat(x, z);
                }
            }
            BinOp::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u8;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            BinOp::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u8;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            BinOp::UDiv => {
                if let Some(v) = cb {
                    if v == 1 {
                        return a;
                    }
                    if v.is_power_of_two() {
                        let k = self.c(w, v.trailing_zeros() as u128);
                        return self.bin(BinOp::LShr, a, k);
                    }
                }
            }
            BinOp::URem => {
                if let Some(v) = cb {
                    if v.is_power_of_two() {
                        let k = self.c(w, v - 1);
                        return self.bin(BinOp::And, a, k);
                    }
                    if self.range(a).1 < v {
                        return a;
                    }
                }
            }
            BinOp::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            _ => {}
        }
        self.mk(Node::Bin { op, w, a, b })
    }

    // ---------------------------------------------------------------- structure

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if let (Some(x), Some(y)) = (self.as_const(hi), self.as_const(lo)) {
            return self.c(wh + wl, (x << wl) | y);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, wh + wl);
        }
        // merge adjacent extracts / constants with the top part of `lo`
        let (top, rest) = match *self.node(lo) {
            Node::Concat { hi: h2, lo: l2 } => (h2, Some(l2)),
            _ => (lo, None),
        };
        let merged = match (self.node(hi).clone(), self.node(top).clone()) {
            (Node::Extract { a: a1, lo: l1, w: w1 }, Node::Extract { a: a2, lo: l2, w: w2 })
                if a1 == a2 && l1 == l2 + w2 =>
            {
                Some(self.extract(a1, l2, w1 + w2))
            }
            (Node::Const { v: x, w: w1 }, Node::Const { v: y, w: w2 }) => {
                Some(self.c(w1 + w2, (x << w2) | y))
            }
            // the parts of a value that was taken apart
            (Node::Ite { c: c1, a: a1, b: b1 }, Node::Ite { c: c2, a: a2, b: b2 }) if c1 == c2 => {
                let x = self.concat(a1, a2);
                let y = self.concat(b1, b2);
                Some(self.ite(c1, x, y))
            }
            _ => None,
        };
        if let Some(t) = merged {
            return match rest {
                Some(r) => self.concat(t, r),
                None => t,
            };
        }
        match *self.node(lo) {
            // Concat(x, ZExt(y)) -> Concat(x, Concat(0, y)) keeps a canonical flat form
            Node::ZExt { a, w } => {
                let z = w - self.w(a);
                let zc = self.c(z, 0);
                // constant merge
                if let Node::Const { v, w: w1 } = *self.node(hi) {
                    let t = self.c(w1 + z, v << z);
                    return self.concat(t, a);
                }
                let l = self.mk(Node::Concat { hi: zc, lo: a });
                return self.mk(Node::Concat { hi, lo: l });
            }
            _ => {}
        }
        match *self.node(hi) {
            // right-nest
            Node::Concat { hi: h1, lo: l1 } => {
                let r = self.concat(l1, lo);
                return self.concat(h1, r);
            }
            Node::ZExt { a, w } => {
                let r = self.concat(a, lo);
                return self.zext(r, w + wl);
            }
            _ => {}
        }
        self.mk(Node::Concat { hi, lo })
    }

    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let wa = self.w(a);
        debug_assert!(lo as u16 + w as u16 <= wa as u16);
        if lo == 0 && w == wa {
            return a;
        }
        match self.node(a).clone() {
            Node::Const { v, .. } => self.c(w, v >> lo),
            Node::Concat { hi, lo: l } => {
                let wl = self.w(l);
                if lo + w <= wl {
                    self.extract(l, lo, w)
                } else if lo >= wl {
                    self.extract(hi, lo - wl, w)
                } else {
                    let x = self.extract(l, lo, wl - lo);
                    let y = self.extract(hi, 0, w - (wl - lo));
                    self.concat(y, x)
                }
            }
            Node::ZExt { a: x, .. } => {
                let wx = self.w(x);
                if lo + w <= wx {
                    self.extract(x, lo, w)
                } else if lo >= wx {
                    self.c(w, 0)
                } else {
                    let y = self.extract(x, lo, wx - lo);
                    self.zext(y, w)
                }
            }
            Node::SExt { a: x, .. } => {
                let wx = self.w(x);
                if lo + w <= wx {
                    self.extract(x, lo, w)
                } else if lo == 0 {
                    self.sext(x, w)
                } else {
                    self.mk(Node::Extract { a, lo, w })
                }
            }
            Node::Extract { a: x, lo: l, .. } => self.extract(x, l + lo, w),
            Node::Ite { c, a: x, b: y } => {
                if self.is_const(x) || self.is_const(y) {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    self.ite(c, p, q)
                } else {
                    self.mk(Node::Extract { a, lo, w })
                }
            }
            Node::Lin { c, t, .. } if lo == 0 => {
                // truncation distributes over sums
                let mut terms = vec![];
                for &(k, e) in t.iter() {
                    let x = self.extract(e, 0, w);
                    let (c2, t2) = self.lin_parts(x);
                    terms.push((k.wrapping_mul(c2), vec![]));
                    terms.push((0, t2.into_iter().map(|(q, e)| (q.wrapping_mul(k), e)).collect()));
                }
                if w == 1 {
                    let mut acc = self.c(1, c as u128);
                    for &(k, e) in t.iter() {
                        if k & 1 == 1 {
                            let x = self.extract(e, 0, 1);
                            acc = self.xor(acc, x);
                        }
                    }
                    return acc;
                }
                let mut cc = c;
                let mut tt = vec![];
                for (k, v) in terms {
                    cc = cc.wrapping_add(k);
                    tt.extend::<Vec<(u64, E)>>(v);
                }
                self.mk_lin(w, cc, tt)
            }
            Node::Bin { op, a: x, b: y, .. }
                if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) =>
            {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            _ => self.mk(Node::Extract { a, lo, w }),
        }
    }

    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match *self.node(a) {
            Node::Const { v, .. } => self.c(w, v),
            Node::ZExt { a, .. } => self.zext(a, w),
            Node::Concat { hi, lo } if self.as_const(hi) == Some(0) => self.zext(lo, w),
            _ => self.mk(Node::ZExt { a, w }),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match *self.node(a) {
            Node::Const { v, .. } => self.c(w, sext_val(v, wa) as u128),
            Node::SExt { a, .. } => self.sext(a, w),
            Node::ZExt { a, .. } => self.zext(a, w),
            _ => {
                if self.range(a).1 <= mask(wa - 1) && wa > 1 {
                    return self.zext(a, w);
                }
                if wa == 1 {
                    let o = self.c(w, u128::MAX);
                    let z = self.c(w, 0);
                    return self.ite(a, o, z);
                }
                self.mk(Node::SExt { a, w })
            }
        }
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.w(c), 1);
        debug_assert_eq!(self.w(a), self.w(b));
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if let Node::Not { a: x } = *self.node(c) {
            return self.ite(x, b, a);
        }
        if self.w(a) == 1 {
            if a == TRUE {
                return self.or(c, b);
            }
            if a == FALSE {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == TRUE {
                let n = self.not(c);
                return self.or(n, a);
            }
            if b == FALSE {
                return self.and(c, a);
            }
        }
        if let Node::Ite { c: c2, a: x, b: y } = *self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
            if y == b {
                let cc = self.and(c, c2);
                return self.ite(cc, x, b);
            }
        }
        if let Node::Ite { c: c2, a: x, b: y } = *self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, y);
            }
        }
        self.mk(Node::Ite { c, a, b })
    }

    // ---------------------------------------------------------------- comparisons

    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return TRUE;
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.b(x == y);
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return FALSE;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        if let Some(k) = self.as_const(b) {
            match self.node(a).clone() {
                Node::Concat { hi, lo } => {
                    let wl = self.w(lo);
                    let wh = self.w(hi);
                    let kl = self.c(wl, k);
                    let kh = self.c(wh, k >> wl);
                    let x = self.eq(lo, kl);
                    if x == FALSE {
                        return FALSE;
                    }
                    let y = self.eq(hi, kh);
                    return self.and(x, y);
                }
                Node::ZExt { a: x, .. } => {
                    let wx = self.w(x);
                    if k > mask(wx) {
                        return FALSE;
                    }
                    let kk = self.c(wx, k);
                    return self.eq(x, kk);
                }
                Node::Ite { c, a: x, b: y } => {
                    if self.is_const(x) || self.is_const(y) {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                Node::Lin { c, t, .. } => {
                    if t.len() == 1 && t[0].0 == 1 {
                        let kk = self.c(w, k.wrapping_sub(c as u128));
                        return self.eq(t[0].1, kk);
                    }
                    if t.len() == 1 && t[0].0 == mask(w) as u64 {
                        let kk = self.c(w, (c as u128).wrapping_sub(k));
                        return self.eq(t[0].1, kk);
                    }
                    if c != 0 {
                        let l = self.mk_lin(w, 0, t.to_vec());
                        let kk = self.c(w, k.wrapping_sub(c as u128));
                        return self.eq(l, kk);
                    }
                }
                Node::Bin { op: BinOp::Xor, a: x, b: y, .. } => {
                    if let Some(q) = self.as_const(y) {
                        let kk = self.c(w, k ^ q);
                        return self.eq(x, kk);
                    }
                }
                _ => {}
            }
        } else if w <= 64 {
            let d = self.sub(a, b);
            if let Some(v) = self.as_const(d) {
                return self.b(v == 0);
            }
            // part-wise equality of concatenations with identical shapes
            if let (Node::Concat { hi: h1, lo: l1 }, Node::Concat { hi: h2, lo: l2 }) =
                (self.node(a).clone(), self.node(b).clone())
            {
                if self.w(l1) == self.w(l2) {
                    let x = self.eq(l1, l2);
                    let y = self.eq(h1, h2);
                    return self.and(x, y);
                }
            }
            if let (Node::ZExt { a: x, .. }, Node::ZExt { a: y, .. }) =
                (self.node(a).clone(), self.node(b).clone())
            {
                if self.w(x) == self.w(y) {
                    return self.eq(x, y);
                }
            }
        }
        self.mk(Node::Cmp { op: CmpOp::Eq, a, b })
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return FALSE;
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 {
            return TRUE;
        }
        if ra.0 >= rb.1 {
            return FALSE;
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        // x < 1  <=>  x == 0 ; (max-1) < x <=> x == max
        if self.as_const(b) == Some(1) {
            let z = self.c(w, 0);
            return self.eq(a, z);
        }
        if self.as_const(a) == Some(0) {
            let z = self.c(w, 0);
            let e = self.eq(b, z);
            return self.not(e);
        }
        match (self.node(a).clone(), self.node(b).clone()) {
            (Node::ZExt { a: x, .. }, Node::ZExt { a: y, .. }) if self.w(x) == self.w(y) => {
                return self.ult(x, y)
            }
            (Node::ZExt { a: x, .. }, Node::Const { v, .. }) => {
                let wx = self.w(x);
                if v <= mask(wx) {
                    let k = self.c(wx, v);
                    return self.ult(x, k);
                }
            }
            (Node::Const { v, .. }, Node::ZExt { a: x, .. }) => {
                let wx = self.w(x);
                if v <= mask(wx) {
                    let k = self.c(wx, v);
                    return self.ult(k, x);
                }
            }
            (Node::Ite { c, a: x, b: y }, Node::Const { .. })
                if self.is_const(x) || self.is_const(y) =>
            {
                let p = self.ult(x, b);
                let q = self.ult(y, b);
                return self.ite(c, p, q);
            }
            (Node::Const { .. }, Node::Ite { c, a: x, b: y })
                if self.is_const(x) || self.is_const(y) =>
            {
                let p = self.ult(a, x);
                let q = self.ult(a, y);
                return self.ite(c, p, q);
            }
            // k < x  canonicalised as not (x < k+1)
            (Node::Const { v, .. }, _) => {
                let k = self.c(w, v + 1);
                let x = self.ult(b, k);
                return self.not(x);
            }
            _ => {}
        }
        self.mk(Node::Cmp { op: CmpOp::Ult, a, b })
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return FALSE;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.b(sext_val(x, w) < sext_val(y, w));
        }
        let half = mask(w - 1);
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 <= half && rb.1 <= half {
            return self.ult(a, b);
        }
        if ra.1 <= half && rb.0 > half {
            return FALSE;
        }
        if ra.0 > half && rb.1 <= half {
            return TRUE;
        }
        // x < 0 : sign bit
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        // -1 < x : not sign bit
        if self.as_const(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if let Node::Ite { c, a: x, b: y } = *self.node(a) {
            if self.is_const(b) && (self.is_const(x) || self.is_const(y)) {
                let p = self.slt(x, b);
                let q = self.slt(y, b);
                return self.ite(c, p, q);
            }
        }
        self.mk(Node::Cmp { op: CmpOp::Slt, a, b })
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    // ---------------------------------------------------------------- files

    pub fn sel(&mut self, file: u32, idx: E) -> E {
        if let Some(i) = self.as_const(idx) {
            let i = i as u64;
            let f = &self.files[file as usize];
            if let Some(&c) = f.cells.get(&i) {
                return c;
            }
            if let Some(z) = f.zones.iter().find(|z| i >= z.0 && i < z.1) {
                return z.2 as E;
            }
            if let Some((start, pat)) = &f.pattern {
                if i >= *start {
                    return pat[((i - start) % pat.len() as u64) as usize];
                }
            }
            if let Some(d) = f.default {
                return d as E;
            }
        }
        self.mk(Node::Sel { file, idx })
    }

    // ---------------------------------------------------------------- rewriting

    /// `rewrite` that leaves the expression alone when it would visit more than `budget` nodes.
    pub fn rewrite_budget(
        &mut self,
        e: E,
        map: &HashMap<E, E>,
        memo: &mut HashMap<E, E>,
        budget: usize,
    ) -> E {
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        // size estimate
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        let mut hit = false;
        while let Some(x) = st.pop() {
            if self.is_const(x) || !seen.insert(x) {
                continue;
            }
            if map.contains_key(&x) {
                hit = true;
                continue;
            }
            if seen.len() > budget {
                memo.insert(e, e);
                return e;
            }
            match self.node(x) {
                Node::Const { .. } | Node::Var { .. } => {}
                Node::Lin { t, .. } => st.extend(t.iter().map(|y| y.1)),
                Node::Bin { a, b, .. } | Node::Cmp { a, b, .. } => {
                    st.push(*a);
                    st.push(*b)
                }
                Node::Not { a }
                | Node::Extract { a, .. }
                | Node::ZExt { a, .. }
                | Node::SExt { a, .. } => st.push(*a),
                Node::Ite { c, a, b } => {
                    st.push(*c);
                    st.push(*a);
                    st.push(*b)
                }
                Node::Concat { hi, lo } => {
                    st.push(*hi);
                    st.push(*lo)
                }
                Node::Sel { idx, .. } => st.push(*idx),
            }
        }
        if !hit {
            memo.insert(e, e);
            return e;
        }
        self.rewrite(e, map, memo)
    }

    /// Rewrites `e` under a substitution, re-simplifying bottom-up.
    pub fn rewrite(&mut self, e: E, map: &HashMap<E, E>, memo: &mut HashMap<E, E>) -> E {
        if let Some(&r) = map.get(&e) {
            return r;
        }
        if self.is_const(e) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.node(e).clone();
        let r = match n {
            Node::Const { .. } | Node::Var { .. } => e,
            Node::Lin { w, c, t } => {
                let mut acc = self.c(w, c as u128);
                let mut changed = false;
                let mut parts = vec![];
                for &(k, x) in t.iter() {
                    let y = self.rewrite(x, map, memo);
                    changed |= y != x;
                    parts.push((k, y));
                }
                if !changed {
                    e
                } else {
                    for (k, y) in parts {
                        let q = self.mul_const(y, k);
                        acc = self.add(acc, q);
                    }
                    acc
                }
            }
            Node::Bin { op, a, b, .. } => {
                let x = self.rewrite(a, map, memo);
                let y = self.rewrite(b, map, memo);
                if x == a && y == b {
                    e
                } else if op == BinOp::Mul {
                    self.mul(x, y)
                } else if op == BinOp::AddW {
                    self.add(x, y)
                } else {
                    self.bin(op, x, y)
                }
            }
            Node::Cmp { op, a, b } => {
                let x = self.rewrite(a, map, memo);
                let y = self.rewrite(b, map, memo);
                if x == a && y == b {
                    e
                } else {
                    match op {
                        CmpOp::Eq => self.eq(x, y),
                        CmpOp::Ult => self.ult(x, y),
                        CmpOp::Slt => self.slt(x, y),
                    }
                }
            }
            Node::Not { a } => {
                let x = self.rewrite(a, map, memo);
                self.not(x)
            }
            Node::Ite { c, a, b } => {
                let k = self.rewrite(c, map, memo);
                if k == TRUE {
                    self.rewrite(a, map, memo)
                } else if k == FALSE {
                    self.rewrite(b, map, memo)
                } else {
                    let x = self.rewrite(a, map, memo);
                    let y = self.rewrite(b, map, memo);
                    if k == c && x == a && y == b {
                        e
                    } else {
                        self.ite(k, x, y)
                    }
                }
            }
            Node::Concat { hi, lo } => {
                let x = self.rewrite(hi, map, memo);
                let y = self.rewrite(lo, map, memo);
                if x == hi && y == lo {
                    e
                } else {
                    self.concat(x, y)
                }
            }
            Node::Extract { a, lo, w } => {
                let x = self.rewrite(a, map, memo);
                if x == a {
                    e
                } else {
                    self.extract(x, lo, w)
                }
            }
            Node::ZExt { a, w } => {
                let x = self.rewrite(a, map, memo);
                if x == a {
                    e
                } else {
                    self.zext(x, w)
                }
            }
            Node::SExt { a, w } => {
                let x = self.rewrite(a, map, memo);
                if x == a {
                    e
                } else {
                    self.sext(x, w)
                }
            }
            Node::Sel { file, idx } => {
                let x = self.rewrite(idx, map, memo);
                if x == idx {
                    e
                } else {
                    let s = self.sel(file, x);
                    map.get(&s).copied().unwrap_or(s)
                }
            }
        };
        memo.insert(e, r);
        r
    }

    pub fn show(&self, e: E, depth: usize) -> String {
        if depth == 0 {
            return "..".into();
        }
        match self.node(e) {
            Node::Const { w, v } => {
                if *w == 1 {
                    format!("{}", *v == 1)
                } else {
                    format!("{:#x}", v)
                }
            }
            Node::Var { id, .. } => format!("{}!{}", self.var_names[*id as usize], id),
            Node::Lin { c, t, .. } => {
                let mut s = String::from("(+");
                for (k, x) in t.iter() {
                    if *k == 1 {
                        s += &format!(" {}", self.show(*x, depth - 1));
                    } else {
                        s += &format!(" {}*{}", *k as i64, self.show(*x, depth - 1));
                    }
                }
                s + &format!(" {:#x})", c)
            }
            Node::Bin { op, a, b, .. } => {
                format!("({:?} {} {})", op, self.show(*a, depth - 1), self.show(*b, depth - 1))
            }
            Node::Cmp { op, a, b } => {
                format!("({:?} {} {})", op, self.show(*a, depth - 1), self.show(*b, depth - 1))
            }
            Node::Not { a } => format!("(not {})", self.show(*a, depth - 1)),
            Node::Ite { c, a, b } => format!(
                "(ite {} {} {})",
                self.show(*c, depth - 1),
                self.show(*a, depth - 1),
                self.show(*b, depth - 1)
            ),
            Node::Concat { hi, lo } => {
                format!("({} ++ {})", self.show(*hi, depth - 1), self.show(*lo, depth - 1))
            }
            Node::Extract { a, lo, w } => {
                format!("{}[{}+{}]", self.show(*a, depth - 1), lo, w)
            }
            Node::ZExt { a, w } => format!("z{}({})", w, self.show(*a, depth - 1)),
            Node::SExt { a, w } => format!("s{}({})", w, self.show(*a, depth - 1)),
            Node::Sel { file, idx } => format!("f{}[{}]", file, self.show(*idx, depth - 1)),
        }
    }

    /// Collects the `Sel` nodes reachable from `roots`.
    pub fn sels(&self, roots: &[E]) -> Vec<E> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st: Vec<E> = roots.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            match self.node(e) {
                Node::Const { .. } | Node::Var { .. } => {}
                Node::Lin { t, .. } => st.extend(t.iter().map(|x| x.1)),
                Node::Bin { a, b, .. } | Node::Cmp { a, b, .. } => {
                    st.push(*a);
                    st.push(*b)
                }
                Node::Not { a } | Node::Extract { a, .. } | Node::ZExt { a, .. } | Node::SExt { a, .. } => {
                    st.push(*a)
                }
                Node::Ite { c, a, b } => {
                    st.push(*c);
                    st.push(*a);
                    st.push(*b)
                }
                Node::Concat { hi, lo } => {
                    st.push(*hi);
                    st.push(*lo)
                }
                Node::Sel { idx, .. } => {
                    out.push(e);
                    st.push(*idx)
                }
            }
        }
        out
    }
}
