#![allow(dead_code, unused_imports, static_mut_refs)]
use lokky::scope::{self, AllocMarker, AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Allocator that knows its live blocks and notes everything wrong with how it is used.
pub struct Track {
    blocks: Mutex<Vec<(usize, usize, usize)>>,
    pub bad: Mutex<Vec<std::string::String>>,
    pub allocs: Mutex<usize>,
    pub refuse: std::sync::atomic::AtomicBool,
    pub last: Mutex<(Option<AllocMarker>, &'static str)>,
}
impl Track {
    pub const fn new() -> Self {
        Track {
            blocks: Mutex::new(Vec::new()),
            bad: Mutex::new(Vec::new()),
            allocs: Mutex::new(0),
            refuse: std::sync::atomic::AtomicBool::new(false),
            last: Mutex::new((None, "")),
        }
    }
    pub fn live(&self) -> usize {
        self.blocks.lock().unwrap().len()
    }
    pub fn count(&self) -> usize {
        *self.allocs.lock().unwrap()
    }
    pub fn check(&self) {
        let bad = self.bad.lock().unwrap();
        assert!(bad.is_empty(), "{bad:?}");
    }
}
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if self.refuse.load(std::sync::atomic::Ordering::SeqCst) {
            return std::ptr::null_mut();
        }
        *self.allocs.lock().unwrap() += 1;
        if l.size() == 0 {
            self.bad.lock().unwrap().push("zero-sized request".into());
            return l.align() as *mut u8;
        }
        let p = System.alloc(l);
        // Recognisable contents.
        std::ptr::write_bytes(p, 0xC5, l.size());
        self.blocks.lock().unwrap().push((p as usize, l.size(), l.align()));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let mut b = self.blocks.lock().unwrap();
        match b.iter().position(|x| x.0 == p as usize) {
            Some(i) => {
                let x = b.swap_remove(i);
                if (x.1, x.2) != (l.size(), l.align()) {
                    self.bad.lock().unwrap().push(format!("released {x:?} as {l:?}"));
                }
                std::ptr::write_bytes(p, 0xDD, x.1);
                // Memory is kept so that later uses are seen, not crashes.
            }
            None => self.bad.lock().unwrap().push(format!("released unknown block {l:?}")),
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Scope with one allocator per marker.
pub struct Marked {
    pub plain: &'static Track,
    pub marked: &'static Track,
}
impl Scope for Marked {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        let t = if s.marker() == AllocMarker::None { self.plain } else { self.marked };
        *t.last.lock().unwrap() = (Some(s.marker()), s.ty());
        t
    }
}
pub static PLAIN: Track = Track::new();
pub static MARKED: Track = Track::new();
thread_local! { static ENVS: RefCell<Option<&'static mut Env>> = RefCell::new(None); }
fn env() -> &'static mut Env {
    ENVS.with(|e| {
        let mut e = e.borrow_mut();
        if e.is_none() {
            let s: &'static mut Marked = Box::leak(Box::new(Marked { plain: &PLAIN, marked: &MARKED }));
            *e = Some(Box::leak(Box::new(Env::new(s))));
        }
        let p: *mut Env = &mut **e.as_mut().unwrap();
        unsafe { &mut *p }
    })
}
pub fn init() {
    unsafe { scope::ENV = Some(env) };
    std::panic::set_hook(Box::new(|i| if std::thread::current().name() == Some("main") && QUIET.with(|q| q.get()) == 0 { eprintln!("{i}") }));
}
thread_local! { pub static QUIET: Cell<u32> = Cell::new(0); }
/// Runs a function that may panic.
pub fn caught<R>(f: impl FnOnce() -> R) -> Option<R> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(q.get() - 1));
    r
}

thread_local! {
    static LIVE: RefCell<HashMap<u32, i32>> = RefCell::new(HashMap::new());
    pub static PANIC_AT: Cell<u32> = Cell::new(u32::MAX);
}
/// Element that is counted, and whose destructor panics on request.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct D(pub u32);
impl D {
    pub fn new(n: u32) -> D {
        LIVE.with(|l| *l.borrow_mut().entry(n).or_insert(0) += 1);
        D(n)
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        D::new(self.0)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        LIVE.with(|l| *l.borrow_mut().entry(self.0).or_insert(0) -= 1);
        if PANIC_AT.with(|p| p.get()) == self.0 {
            PANIC_AT.with(|p| p.set(u32::MAX));
            panic!("destructor of {}", self.0);
        }
    }
}
pub fn live(n: u32) -> i32 {
    LIVE.with(|l| *l.borrow().get(&n).unwrap_or(&0))
}
/// No element was dropped more often than created.
pub fn no_double_drop() {
    LIVE.with(|l| for (k, v) in l.borrow().iter() { assert!(*v >= 0, "{k} dropped {} times too often", -v) });
}
/// All elements were dropped.
pub fn all_dropped() {
    LIVE.with(|l| for (k, v) in l.borrow().iter() { assert!(*v == 0, "{k}: {v} left") });
}
// ------------------------------------------------------------------ the demonstration
