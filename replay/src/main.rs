//! Native replay of the executor's inputs against the real library and the real standard library.
//!
//! Input (stdin): cases of the form `case <harness>`, one line per intrinsic call, `end`.
//! Output: `fail <assertion>` (or `panic`/`alloc` and exit by abort), `report <name> <value>`, and
//! `done <harness>` per case.

#[path = "../../harness/src/all.rs"]
mod all;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LARGEST: AtomicU64 = AtomicU64::new(0);

struct Alloc;

fn check(n: usize) {
    let n = n as u64;
    if n > LIMIT.load(Relaxed) {
        LIMIT.store(u64::MAX, Relaxed);
        println!("alloc {}", n);
        std::process::abort();
    }
    LARGEST.fetch_max(n, Relaxed);
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Alloc = Alloc;

#[derive(Default, Clone)]
struct File {
    default: u8,
    zones: Vec<(u64, u64, u8)>,
    pattern: Option<(u64, Vec<u8>)>,
    cells: BTreeMap<u64, u8>,
    /// What the harness itself set after creation (position, byte) is checked against the trace.
    runs: Vec<(u64, u64)>,
}

impl File {
    fn byte(&self, p: u64) -> u8 {
        if let Some(&b) = self.cells.get(&p) {
            return b;
        }
        for &(lo, hi, b) in &self.zones {
            if p >= lo && p < hi {
                return b;
            }
        }
        if let Some((s, v)) = &self.pattern {
            if p >= *s && !v.is_empty() {
                return v[((p - s) % v.len() as u64) as usize];
            }
        }
        self.default
    }
}

#[derive(Default)]
struct World {
    lines: std::collections::VecDeque<String>,
    files: Vec<File>,
    paths: u64,
    dir: String,
    ended: bool,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

/// Directory of the registered files.
pub fn prefix() -> String {
    W.with(|w| w.borrow().dir.clone())
}

fn die(why: &str) -> ! {
    println!("broken {}", why);
    std::io::stdout().flush().ok();
    std::process::exit(3);
}

fn next(kind: &str) -> String {
    let l = W.with(|w| w.borrow_mut().lines.pop_front());
    match l {
        Some(l) => match l.strip_prefix(kind) {
            Some(r) => r.trim().to_string(),
            None => die(&format!("expected {} in {:?}", kind, l)),
        },
        None => {
            // The symbolic path ended here (a violation inside it); its inputs are exhausted.
            die("inputs exhausted")
        }
    }
}

fn text(p: *const u8, n: u64) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n as usize) }).into_owned()
}

fn value() -> u64 {
    next("v").parse::<u128>().unwrap_or_else(|_| die("value")) as u64
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or_else(|_| die("hex"))).collect()
}

#[no_mangle]
extern "C" fn sym_u64(lo: u64, hi: u64) -> u64 {
    let v = value();
    if v < lo || v > hi {
        die("value out of range");
    }
    v
}
#[no_mangle]
extern "C" fn sym_bool() -> bool {
    value() != 0
}
#[no_mangle]
unsafe extern "C" fn sym_bytes(p: *mut u8, n: u64) {
    let v = unhex(&next("b"));
    if v.len() as u64 != n {
        die("length");
    }
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
}
#[no_mangle]
extern "C" fn sym_choice(n: u64) -> u64 {
    let v = value();
    if v >= n {
        die("choice out of range");
    }
    v
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        die("assumption");
    }
}
#[no_mangle]
extern "C" fn sym_assert(p: *const u8, n: u64, c: bool) {
    if !c {
        println!("fail {}", text(p, n));
        std::io::stdout().flush().ok();
        // What is bounded need not end once it is out of bounds.
        if std::env::var("SYMEX_STOP").is_ok_and(|s| s == text(p, n)) {
            std::process::exit(0);
        }
        W.with(|w| w.borrow_mut().ended = true);
    }
}
#[no_mangle]
extern "C" fn sym_report(p: *const u8, n: u64, v: u64) {
    println!("report {} {}", text(p, n), v);
}
#[no_mangle]
extern "C" fn sym_cover(_: *const u8, _: u64) {}
#[no_mangle]
extern "C" fn sym_cover_if(_: *const u8, _: u64, _: bool) {}
#[no_mangle]
extern "C" fn sym_case(_: *const u8, _: u64) {}
#[no_mangle]
extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sym_alloc_limit(v: u64) {
    LIMIT.store(v, Relaxed);
}
#[no_mangle]
extern "C" fn sym_file_new() -> u32 {
    let l = next("f");
    let mut f = File::default();
    let mut it = l.split_whitespace();
    f.default = it.next().and_then(|x| x.parse().ok()).unwrap_or_else(|| die("file"));
    for t in it {
        if let Some(z) = t.strip_prefix('z') {
            let v: Vec<&str> = z.split(':').collect();
            f.zones.push((v[0].parse().unwrap(), v[1].parse().unwrap(), u8::from_str_radix(v[2], 16).unwrap()));
        } else if let Some(p) = t.strip_prefix('p') {
            let v: Vec<&str> = p.split(':').collect();
            f.pattern = Some((v[0].parse().unwrap(), unhex(v[1])));
        } else {
            let v: Vec<&str> = t.split(':').collect();
            let p: u64 = v[0].parse().unwrap_or_else(|_| die("position"));
            let b = unhex(v[1]);
            f.runs.push((p, b.len() as u64));
            for (i, x) in b.into_iter().enumerate() {
                f.cells.insert(p.wrapping_add(i as u64), x);
            }
        }
    }
    W.with(|w| {
        let mut w = w.borrow_mut();
        w.files.push(f);
        w.files.len() as u32 - 1
    })
}
#[no_mangle]
extern "C" fn sym_file_default(_: u32, _: u8) {}
#[no_mangle]
extern "C" fn sym_file_zone(_: u32, _: u64, _: u64, _: u8) {}
#[no_mangle]
extern "C" fn sym_file_pattern(_: u32, _: u64, _: *const u8, _: u64) {}
#[no_mangle]
unsafe extern "C" fn sym_file_bytes(f: u32, pos: u64, p: *const u8, n: u64) {
    let b = std::slice::from_raw_parts(p, n as usize);
    W.with(|w| {
        let mut w = w.borrow_mut();
        let f = &mut w.files[f as usize];
        for (i, &x) in b.iter().enumerate() {
            f.cells.insert(pos.wrapping_add(i as u64), x);
        }
    })
}
#[no_mangle]
extern "C" fn sym_at(f: u32, pos: u64) -> u8 {
    W.with(|w| w.borrow().files[f as usize].byte(pos))
}
#[no_mangle]
unsafe extern "C" fn sym_fill(f: u32, pos: u64, p: *mut u8, n: u64) {
    W.with(|w| {
        let w = w.borrow();
        let f = &w.files[f as usize];
        for i in 0..n {
            *p.add(i as usize) = f.byte(pos.wrapping_add(i));
        }
    })
}
/// Writes the file below the scratch directory and returns its number.
#[no_mangle]
extern "C" fn sym_path(f: u32, len: u64) -> u64 {
    W.with(|w| {
        let mut w = w.borrow_mut();
        let k = w.paths;
        w.paths += 1;
        let path = format!("{}{}", w.dir, k);
        if len == u64::MAX {
            std::fs::create_dir(&path).unwrap_or_else(|_| die("create_dir"));
            return k;
        }
        for name in &all::h_api::NAMES[1..] {
            let other = format!("{}{}", path, name);
            let _ = std::fs::remove_file(&other);
            std::os::unix::fs::symlink(&path, other).unwrap_or_else(|_| die("symlink"));
        }
        let file = &w.files[f as usize];
        let mut out = std::fs::File::create(&path).unwrap_or_else(|_| die("create"));
        let dense = file.default != 0 || !file.zones.is_empty() || file.pattern.is_some();
        if len > 1 << 30 || (dense && len > 1 << 26) {
            die("file too large to materialise");
        }
        if dense {
            let v: Vec<u8> = (0..len).map(|p| file.byte(p)).collect();
            out.write_all(&v).unwrap_or_else(|_| die("write"));
        } else {
            out.set_len(len).unwrap_or_else(|_| die("set_len"));
            for (&p, &b) in file.cells.range(..len) {
                out.seek(SeekFrom::Start(p)).unwrap_or_else(|_| die("seek"));
                out.write_all(&[b]).unwrap_or_else(|_| die("write"));
            }
        }
        k
    })
}
#[no_mangle]
extern "C" fn sym_trace(_: *const u8, _: u64, _: u64) {}

fn run(name: &str, lines: Vec<String>, dir: &str) {
    W.with(|w| {
        let mut w = w.borrow_mut();
        *w = World { lines: lines.into(), dir: dir.to_string(), ..World::default() };
    });
    LIMIT.store(u64::MAX, Relaxed);
    let f = all::TABLES.iter().flat_map(|t| t.iter()).find(|x| x.0 == name).map(|x| x.1);
    match f {
        Some(f) => f(),
        None => die("unknown harness"),
    }
    LIMIT.store(u64::MAX, Relaxed);
    println!("done {}", name);
    std::io::stdout().flush().ok();
}

fn main() {
    let dir = std::env::args().nth(1).unwrap_or_else(|| String::from("/nonexistent/"));
    std::panic::set_hook(Box::new(|i| {
        LIMIT.store(u64::MAX, Relaxed);
        println!("panic {}", i.to_string().replace('\n', " "));
        std::io::stdout().flush().ok();
    }));
    let mut text = String::new();
    std::io::stdin().lock().read_to_string(&mut text).unwrap();
    let mut case: Option<(String, Vec<String>)> = None;
    for l in text.as_bytes().lines() {
        let l = l.unwrap();
        if let Some(n) = l.strip_prefix("case ") {
            case = Some((n.to_string(), vec![]));
        } else if l == "end" {
            if let Some((n, v)) = case.take() {
                run(&n, v, &dir);
            }
        } else if let Some((_, v)) = &mut case {
            v.push(l);
        }
    }
}
