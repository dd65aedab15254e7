//! Deterministic random numbers, step budgets, allocation accounting, run statistics.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut r = Rng(0x9E37_79B9_7F4A_7C15);
        for p in parts {
            r.0 ^= p.wrapping_mul(0xD6E8_FEB8_6659_FD93);
            r.next();
            r.0 = r.0.rotate_left(23);
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    // fixed keys: the same value hashes the same in every process
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// Logical steps (callbacks out of the code under test) used by the running call.
pub struct Budget;
thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub fn set_budget(n: u64) {
    STEPS.with(|s| s.set(0));
    LIMIT.with(|s| s.set(n));
}
type Hook = Box<dyn FnMut()>;
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static HOOK: std::cell::RefCell<Option<Hook>> = const { std::cell::RefCell::new(None) };
}
/// The n-th callback from now on runs `f` once.
pub fn arm(n: u64, f: impl FnMut() + 'static) {
    HOOK.with(|h| *h.borrow_mut() = Some(Box::new(f)));
    COUNT.with(|c| c.set(n));
}
/// Did it run?
pub fn disarm() -> bool {
    COUNT.with(|c| c.set(0));
    HOOK.with(|h| h.borrow_mut().take()).is_none()
}
pub fn enter() {
    let n = COUNT.with(|c| c.get());
    if n > 0 {
        COUNT.with(|c| c.set(n - 1));
        if n == 1 {
            let f = HOOK.with(|h| h.borrow_mut().take());
            if let Some(mut f) = f {
                f()
            }
        }
    }
}
pub fn step() {
    enter();
    let n = STEPS.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if n > LIMIT.with(|l| l.get()) {
        LIMIT.with(|l| l.set(u64::MAX));
        panic_any(Budget);
    }
}

#[derive(Debug, Clone)]
pub enum Bad {
    Panic(String),
    Budget,
}
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Bad::Panic(s) => write!(f, "it panicked: {}", s),
            Bad::Budget => write!(f, "it did not end within its step budget"),
        }
    }
}
thread_local!(static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; static GUARDED: Cell<bool> = const { Cell::new(false) };);
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
        } else {
            default(info)
        }
    }));
}
/// Runs code under test; a panic becomes an observation.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Bad> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    r.map_err(|p| {
        // taken, so that nothing of the panic stays allocated
        let said = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        if p.is::<Budget>() { Bad::Budget } else { Bad::Panic(said) }
    })
}

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static TOTAL_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn account(n: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    if n > 0 {
        let over = TOTAL.try_with(|t| {
            t.set(t.get() + n as u64);
            TOTAL_LIMIT.with(|l| t.get() > l.get())
        });
        if over == Ok(true) {
            // cumulative allocation is a deterministic step counter; 78 tells the driver which budget ran out
            unsafe { exit_now(78) }
        }
    }
}
extern "C" {
    #[link_name = "_exit"]
    fn exit_now(code: i32) -> !;
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
pub fn live_bytes() -> isize {
    LIVE.with(|l| l.get())
}
pub fn reset_alloc_budget(limit: u64) {
    TOTAL.with(|t| t.set(0));
    TOTAL_LIMIT.with(|l| l.set(limit));
}

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub facts: BTreeMap<String, String>,
    pub quick: bool,
}
impl Ctx {
    pub fn stat(&mut self, name: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(name) {
            *v += n
        } else {
            self.stats.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let v = self.stats.entry(format!("max {}", name)).or_insert(0);
        *v = (*v).max(n);
    }
    /// One execution of the code under test, judged; `key` identifies it if it was non-trivial.
    pub fn saw(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            self.distinct.insert(k);
        }
    }
    pub fn sample(&mut self, every: u64, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 && self.evals % every == 0 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}
/// The beginning of a long text.
pub fn cut(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut n = n;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}
/// Err is a violation, described.
pub type Verdict = Result<(), String>;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static SALT: Cell<u64> = const { Cell::new(0) };
    static ENDLESS: Cell<bool> = const { Cell::new(false) };
}
/// Set at the start of every case, so that a case does the same alone as in a run.
pub fn salt(n: u64) {
    SALT.with(|s| s.set(n));
    ENDLESS.with(|e| e.set(false));
}
/// The next source may claim to have no end: it is known that its end is not needed.
pub fn no_end(yes: bool) {
    ENDLESS.with(|e| e.set(yes));
}
/// What a source says about its length; always true.
#[derive(Clone, Copy)]
pub struct Hint(u64);
impl Hint {
    pub fn new<T: std::hash::Hash>(of: &T) -> Hint {
        let h = hash_of(&(of, SALT.with(|s| s.get())));
        Hint(if ENDLESS.with(|e| e.replace(false)) && h % 4 != 0 { 9 } else { h / 4 % 6 })
    }
    pub fn of(self, left: usize) -> (usize, Option<usize>) {
        match self.0 {
            0 | 1 => (0, None),
            2 => (left, Some(left)),
            3 => (left, None),
            4 => (0, Some(usize::MAX)),
            5 => (left / 2, Some(left * 2 + 1)),
            _ => (usize::MAX, None),
        }
    }
}
