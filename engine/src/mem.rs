//! Byte-addressed memory objects with copy-on-write pages and lazily evaluated bulk writes.

use crate::expr::E;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PAGE: u64 = 64;
pub const NONE: E = u32::MAX;

pub type Page = [E; PAGE as usize];

#[derive(Clone, Debug)]
pub enum Bulk {
    /// Bytes `[start, start + n)` come from symbolic file `file` at `pos`; `n <= max`.
    Fill { start: u64, max: u64, file: u32, pos: E, n: E },
    /// Bytes `[dst, dst + n)` come from `src` at `soff`; `n <= max`.
    Copy { dst: E, max: u64, n: E, src: Rc<Obj>, soff: E },
    /// Bytes `[dst, dst + n)` are `byte`.
    Set { dst: E, max: u64, n: E, byte: E },
}

#[derive(Clone, Debug)]
pub struct Under {
    pub bulk: Bulk,
    pub pages: BTreeMap<u32, Rc<Page>>,
    pub next: Option<Rc<Under>>,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u64,
    pub pages: BTreeMap<u32, Rc<Page>>,
    pub under: Option<Rc<Under>>,
    /// Value of bytes never written.
    pub base: E,
    pub heap: bool,
    pub name: Option<Rc<str>>,
}

impl Obj {
    pub fn new(size: u64, heap: bool) -> Obj {
        Obj { size, pages: BTreeMap::new(), under: None, base: 0, heap, name: None }
    }
    pub fn page_byte(pages: &BTreeMap<u32, Rc<Page>>, off: u64) -> E {
        match pages.get(&((off / PAGE) as u32)) {
            Some(p) => p[(off % PAGE) as usize],
            None => NONE,
        }
    }
    pub fn set(&mut self, off: u64, e: E) {
        let p = self
            .pages
            .entry((off / PAGE) as u32)
            .or_insert_with(|| Rc::new([NONE; PAGE as usize]));
        Rc::make_mut(p)[(off % PAGE) as usize] = e;
    }
    /// Forgets page bytes in `[a, b)`.
    pub fn clear(&mut self, a: u64, b: u64) {
        if a >= b {
            return;
        }
        let (pa, pb) = ((a / PAGE) as u32, ((b - 1) / PAGE) as u32);
        let keys: Vec<u32> = self.pages.range(pa..=pb).map(|x| *x.0).collect();
        for k in keys {
            let (s, e) = (k as u64 * PAGE, k as u64 * PAGE + PAGE);
            if a <= s && e <= b {
                self.pages.remove(&k);
            } else {
                let p = Rc::make_mut(self.pages.get_mut(&k).unwrap());
                for i in s.max(a)..e.min(b) {
                    p[(i - s) as usize] = NONE;
                }
            }
        }
    }
    pub fn push_bulk(&mut self, bulk: Bulk) {
        let pages = std::mem::take(&mut self.pages);
        let next = self.under.take();
        self.under = Some(Rc::new(Under { bulk, pages, next }));
    }
    pub fn has_pages_in(pages: &BTreeMap<u32, Rc<Page>>, a: u64, b: u64) -> bool {
        // any defined byte in [a, b)
        if a >= b {
            return false;
        }
        let (pa, pb) = ((a / PAGE) as u32, ((b - 1) / PAGE) as u32);
        for (k, p) in pages.range(pa..=pb) {
            let s = *k as u64 * PAGE;
            for i in s.max(a)..(s + PAGE).min(b) {
                if p[(i - s) as usize] != NONE {
                    return true;
                }
            }
        }
        false
    }
    /// Identity of the contents, usable as a memo key while the object is kept alive.
    pub fn ident(&self, out: &mut Vec<u64>) {
        for (k, p) in &self.pages {
            out.push(*k as u64);
            out.push(Rc::as_ptr(p) as *const u8 as u64);
        }
        out.push(self.under.as_ref().map(|u| Rc::as_ptr(u) as u64).unwrap_or(0));
    }
}
