//! Driver for Arc and Urc shared between threads. Every thread runs only when the scheduler lets it;
//! control can change hands before every atomic operation, release of memory, destructor and call.
//! Reads scripts, runs each under many schedules, prints one trace per schedule.
//!
//! Script:   S <arc|urc> <threads> <p:list | d:preemptions:max:seed>
//!           <thread or m> <operation> [h=handle] [n=new handle] [t=thread]
use lokky::arc::{self, Arc};
use lokky::scope::{AllocSelector, Env, Envelop, Envelope, Scope, ScopeRecv};
use lokky::urc::{self, Fence, Urc};
use lokky::ScopePtr;
use lokky_verif_core::verif::{set_hook, Hook, Kind, Op as AtOp};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex, MutexGuard};

const MAX_STEPS: u32 = 1500;
const SPURIOUS: u8 = 16;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
    /// Announcement of an operation. It is made as late as possible, that is when the thread next gets its turn.
    static PENDING: RefCell<String> = const { RefCell::new(String::new()) };
    /// Whether anything is recorded.
    static ON: Cell<bool> = const { Cell::new(false) };
}

// ------------------------------------------------------------------ global state of one run

#[derive(Clone, Copy)]
struct Block {
    addr: usize,
    size: usize,
    align: usize,
    live: bool,
}

#[derive(Clone)]
struct Decision {
    enabled: Vec<u8>,
    /// What is done without further instructions.
    default: u8,
    /// The thread that goes on if nothing else is chosen; 0 when it cannot or only spins.
    cont: u8,
    chosen: u8,
    preempt: u32,
}

struct Run {
    ev: String,
    head: String,
    blocks: Vec<Block>,
    locs: Vec<usize>,
    vals: u32,
    // Scheduling.
    n: usize,
    cur: usize,
    done: Vec<bool>,
    weak: Vec<bool>,
    spun: Vec<bool>,
    prefix: Vec<u8>,
    dec: Vec<Decision>,
    preempt: u32,
    same: u32,
    steps: u32,
    fail: Vec<bool>,
    /// Handles on their way to a thread.
    mail: Vec<Vec<(u32, H)>>,
}

static RUN: Mutex<Option<Run>> = Mutex::new(None);
static CV: [Condvar; 6] = [const { Condvar::new() }; 6];

fn lock() -> MutexGuard<'static, Option<Run>> {
    RUN.lock().unwrap_or_else(|e| e.into_inner())
}
fn run<R>(f: impl FnOnce(&mut Run) -> R) -> R {
    f(lock().as_mut().unwrap())
}

impl Run {
    /// Who takes the next step? `t` is the thread at a decision point (0: none can go on).
    fn decide(&mut self, t: usize, spin: bool) -> usize {
        let enabled: Vec<u8> = (1..=self.n).filter(|i| !self.done[*i]).map(|i| i as u8).collect();
        if enabled.is_empty() {
            return 0;
        }
        let goes_on = t != 0 && !self.done[t] && !spin && self.same < 60;
        let next = |from: usize| {
            (1..=self.n).map(|d| (from + d - 1) % self.n + 1).find(|i| !self.done[*i]).unwrap()
        };
        let default = if goes_on { t } else { next(t) } as u8;
        let mut c = default;
        if self.dec.len() < self.prefix.len() {
            c = self.prefix[self.dec.len()];
            let k = (c % SPURIOUS) as usize;
            if k == 0 || k > self.n || self.done[k] {
                c = default;
            }
        }
        let spurious = c >= SPURIOUS;
        let k = (c % SPURIOUS) as usize;
        // There is no point in waiting twice in a row.
        let mut all: Vec<u8> = enabled.iter().copied().filter(|x| !(spin && enabled.len() > 1 && *x as usize == t)).collect();
        for e in &enabled {
            if self.weak[*e as usize] {
                all.push(*e + SPURIOUS);
            }
        }
        if goes_on && k != t {
            self.preempt += 1;
        }
        self.dec.push(Decision { enabled: all, default, cont: if goes_on { t as u8 } else { 0 }, chosen: c, preempt: self.preempt });
        self.same = if k == self.cur { self.same + 1 } else { 0 };
        self.cur = k;
        self.fail[k] = spurious && self.weak[k];
        k
    }
}

/// The thread may lose control here. Returns whether a weak compare-exchange should fail.
fn point(spin: bool, weak: bool) -> bool {
    let t = TID.get();
    if t == 0 || !ON.get() {
        return false;
    }
    let mut g = lock();
    let r = g.as_mut().unwrap();
    r.steps += 1;
    if r.steps > MAX_STEPS {
        finish_early(r, "stuck");
    }
    r.weak[t] = weak;
    let k = r.decide(t, spin);
    if k != t {
        CV[k].notify_one();
        while g.as_ref().unwrap().cur != t {
            g = CV[t].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    let r = g.as_mut().unwrap();
    r.weak[t] = false;
    announce(r);
    std::mem::take(&mut r.fail[t])
}
fn announce(r: &mut Run) {
    PENDING.with_borrow_mut(|p| {
        r.ev.push_str(p);
        p.clear();
    });
}

fn finish_early(r: &mut Run, what: &str) -> ! {
    let _ = writeln!(r.ev, "{{\"op\":\"{what}\",\"t\":{}}}", TID.get());
    let s = format!("T {}\n{}", r.head, r.ev);
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
    unsafe { _exit(3) }
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn signal(n: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

/// The process is about to die: print what there is of the trace.
extern "C" fn on_signal(n: i32) {
    unsafe {
        signal(n, 0);
        // The lock may be held by this thread.
        let r = &*(std::ptr::addr_of!(CURRENT));
        if let Some(p) = r {
            let run = &**p;
            write(1, b"T ".as_ptr(), 2);
            write(1, run.head.as_ptr(), run.head.len());
            write(1, b"\n".as_ptr(), 1);
            write(1, run.ev.as_ptr(), run.ev.len());
            if n == 14 || n == 27 {
                let s = b"{\"op\":\"stuck\",\"t\":0}\n";
                write(1, s.as_ptr(), s.len());
            }
        }
        _exit(if n == 14 || n == 27 { 4 } else { 100 + n });
    }
}
static mut CURRENT: Option<*const Run> = None;

fn log(s: std::fmt::Arguments) {
    if ON.get() {
        run(|r| {
            announce(r);
            let _ = r.ev.write_fmt(s);
            r.ev.push('\n');
        });
    }
}
macro_rules! ev { ($($a:tt)*) => { log(format_args!($($a)*)) } }

fn block_of(r: &Run, addr: usize) -> usize {
    // Later blocks first: memory is not given back during a run, so only one can match.
    r.blocks.iter().rposition(|b| b.addr <= addr && addr < b.addr + b.size.max(1)).map_or(0, |i| i + 1)
}
fn blk<T>(p: *const T) -> usize {
    run(|r| block_of(r, p as usize))
}

// ------------------------------------------------------------------ hooks

fn orders(o: Ordering) -> (u8, u8) {
    match o {
        Ordering::Relaxed => (0, 0),
        Ordering::Acquire => (1, 0),
        Ordering::Release => (0, 1),
        _ => (1, 1),
    }
}
fn before(_addr: usize, kind: Kind, weak: bool) -> bool {
    point(kind == Kind::Spin, weak)
}
fn after(o: AtOp) {
    if !ON.get() {
        return;
    }
    let t = TID.get();
    let (a, z) = orders(o.ord);
    run(|r| {
        announce(r);
        let k = match o.kind {
            Kind::Load => "ld",
            Kind::Store => "st",
            Kind::Rmw => "rmw",
            Kind::CasFail => "cf",
            Kind::Fence => {
                let _ = writeln!(r.ev, "{{\"op\":\"fe\",\"t\":{t},\"a\":{a},\"z\":{z}}}");
                return;
            }
            Kind::Spin => return,
        };
        let b = block_of(r, o.addr);
        let l = match r.locs.iter().position(|x| *x == o.addr) {
            Some(i) => i,
            None => {
                r.locs.push(o.addr);
                r.locs.len() - 1
            }
        } + 1;
        let c = |x: u64| (x as i64).clamp(-9, 999);
        let _ = writeln!(
            r.ev,
            "{{\"op\":\"at\",\"t\":{t},\"k\":\"{k}\",\"b\":{b},\"l\":{l},\"a\":{a},\"z\":{z},\"o\":{},\"n\":{}}}",
            c(o.old), c(o.new)
        );
    });
}
static HOOK: Hook = Hook { before, after };

// ------------------------------------------------------------------ memory

struct Mem;
unsafe impl GlobalAlloc for Mem {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size().max(1), l.align()));
        std::ptr::write_bytes(p, 0xC5, l.size());
        let t = TID.get();
        run(|r| {
            announce(r);
            r.blocks.push(Block { addr: p as usize, size: l.size(), align: l.align(), live: true });
            let _ = writeln!(r.ev, "{{\"op\":\"al\",\"t\":{t},\"b\":{}}}", r.blocks.len());
        });
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point(false, false);
        let t = TID.get();
        run(|r| {
            announce(r);
            let b = block_of(r, p as usize);
            let mut ok = 0;
            if b > 0 {
                let x = &mut r.blocks[b - 1];
                ok = (x.live && x.addr == p as usize && x.size == l.size() && x.align == l.align()) as u8;
                if x.live {
                    std::ptr::write_bytes(x.addr as *mut u8, 0xDD, x.size);
                }
                x.live = false;
            }
            let _ = writeln!(r.ev, "{{\"op\":\"fr\",\"t\":{t},\"b\":{b},\"ok\":{ok}}}");
        });
    }
}
struct Sc;
impl Scope for Sc {
    fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
        &Mem
    }
}
thread_local! { static ENVS: Cell<*mut Env> = const { Cell::new(std::ptr::null_mut()) }; }
fn env() -> &'static mut Env {
    let mut p = ENVS.get();
    if p.is_null() {
        p = Box::leak(Box::new(Env::new(Box::leak(Box::new(Sc)))));
        ENVS.set(p);
    }
    unsafe { &mut *p }
}

// ------------------------------------------------------------------ values

struct Val {
    id: u32,
    gen: Cell<u32>,
    own: RefCell<Vec<H>>,
}
unsafe impl Send for Val {}
unsafe impl Sync for Val {}
fn small(x: u32) -> i64 {
    if x < 1000 { x as i64 } else { 999 }
}
impl Val {
    fn new() -> Val {
        let id = run(|r| {
            r.vals += 1;
            r.vals
        });
        ev!("{{\"op\":\"vn\",\"t\":{},\"v\":{id}}}", TID.get());
        Val { id, gen: Cell::new(0), own: RefCell::new(vec![]) }
    }
    fn note(&self, what: &str) {
        ev!("{{\"op\":\"{what}\",\"t\":{},\"v\":{},\"b\":{},\"g\":{}}}", TID.get(), small(self.id), blk(self), small(self.gen.get()));
    }
    fn touch(&mut self) {
        self.gen.set(self.gen.get().wrapping_add(1));
        self.note("vw");
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        self.note("vr");
        let mut v = Val::new();
        v.gen = self.gen.clone();
        ev!("{{\"op\":\"vg\",\"t\":{},\"v\":{},\"g\":{}}}", TID.get(), v.id, small(v.gen.get()));
        v
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        point(false, false);
        self.note("vd");
        if self.id < 1000 {
            self.own.get_mut().clear();
        } else {
            // Not a value at all.
            self.own = RefCell::new(vec![]);
        }
    }
}

enum H {
    As(Arc<Val>),
    Aw(arc::Weak<Val>),
    Ae(Envelope<'static, Arc<Val>>),
    Us(Urc<Val>),
    Uw(urc::Weak<Val>),
    Ue(Envelope<'static, Urc<Val>>),
    Fb(ScopePtr<Fence<Val>>),
    Fv(Fence<Val>),
    V(Val),
}
unsafe impl Send for H {}
struct Recv;
impl<'a> ScopeRecv<'a> for Recv {}

// ------------------------------------------------------------------ operations

#[derive(Clone)]
struct Step {
    thr: usize,
    op: String,
    h: u32,
    n: u32,
    to: usize,
}
type Table = BTreeMap<u32, H>;

fn call_of(f: &str, h: u32, n: i64) {
    PENDING.with_borrow_mut(|p| {
        let _ = writeln!(p, "{{\"op\":\"call\",\"t\":{},\"f\":\"{f}\",\"h\":{h},\"n\":{n}}}", TID.get());
    });
}
fn call(s: &Step) {
    call_of(&s.op, s.h, s.n as i64);
}
fn ret(s: &Step, r: &str, x: i64, v: i64, b: usize) {
    ev!(
        "{{\"op\":\"ret\",\"t\":{},\"f\":\"{}\",\"h\":{},\"n\":{},\"r\":\"{r}\",\"x\":{x},\"v\":{v},\"b\":{b}}}",
        TID.get(), s.op, s.h, s.n
    );
}
fn num(x: usize) -> i64 {
    (x as i64).clamp(-9, 999)
}

/// Executes one operation if its handle is there and of the right kind.
fn step(s: &Step, tab: &mut Table, arc: bool) {
    let t = TID.get();
    if s.op == "recv" {
        point(false, false);
        let got = run(|r| if r.mail[t].is_empty() { None } else { Some(r.mail[t].remove(0)) });
        if let Some((h, x)) = got {
            ev!("{{\"op\":\"rcv\",\"t\":{t},\"h\":{h}}}");
            tab.insert(h, x);
        }
        return;
    }
    if s.op == "new" {
        call(s);
        let data = Val::new();
        let h = if arc { H::As(Arc::new(data)) } else { H::Us(Urc::new(data)) };
        let (v, b) = match &h {
            H::As(a) => (a.id, blk(&**a as *const Val)),
            H::Us(a) => (a.id, blk(&**a as *const Val)),
            _ => unreachable!(),
        };
        ret(s, "ok", 0, small(v), b);
        tab.insert(s.n, h);
        return;
    }
    let Some(mut h) = tab.remove(&s.h) else { return };
    macro_rules! back { () => { { tab.insert(s.h, h); } } }
    match (s.op.as_str(), &mut h) {
        ("give", _) => {
            ev!("{{\"op\":\"snd\",\"t\":{t},\"h\":{},\"to\":{}}}", s.h, s.to);
            run(|r| r.mail[s.to].push((s.h, h)));
        }
        ("send", H::As(_) | H::Aw(_) | H::Ae(_) | H::Ue(_) | H::Fv(_)) => {
            point(false, false);
            ev!("{{\"op\":\"snd\",\"t\":{t},\"h\":{},\"to\":{}}}", s.h, s.to);
            run(|r| r.mail[s.to].push((s.h, h)));
        }
        ("own", _) => {
            // Only before the threads start.
            let into = match tab.get(&s.n) {
                Some(H::As(a)) => &**a,
                Some(H::Us(u)) => &**u,
                _ => return back!(),
            };
            ev!("{{\"op\":\"own\",\"t\":{t},\"h\":{},\"v\":{}}}", s.h, into.id);
            into.own.borrow_mut().push(h);
        }
        ("drop", _) => {
            let v = if let H::V(v) = &h { small(v.id) } else { 0 };
            let f = if v > 0 { "udrop" } else { "drop" };
            call_of(f, s.h, v);
            drop(h);
            ev!("{{\"op\":\"ret\",\"t\":{t},\"f\":\"{f}\",\"h\":{},\"n\":{v},\"r\":\"ok\",\"x\":0,\"v\":0,\"b\":0}}", s.h);
        }
        ("clone", H::As(a)) => {
            call(s);
            let x = H::As(a.clone());
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.n, x);
            back!();
        }
        ("clone", H::Us(a)) => {
            call(s);
            let x = H::Us(a.clone());
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.n, x);
            back!();
        }
        ("down", H::As(a)) => {
            call(s);
            let x = H::Aw(Arc::downgrade(a));
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.n, x);
            back!();
        }
        ("down", H::Us(a)) => {
            call(s);
            let x = H::Uw(Urc::downgrade(a));
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.n, x);
            back!();
        }
        ("env", H::As(a)) => {
            call(s);
            let x = H::Ae(a.envelop(&Recv));
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.n, x);
            back!();
        }
        ("env", H::Us(a)) => {
            call(s);
            let x = H::Ue(a.envelop(&Recv));
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.n, x);
            back!();
        }
        ("open", H::Ae(_)) => {
            call(s);
            let H::Ae(e) = h else { unreachable!() };
            let x = H::As(Recv.recv(e));
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.h, x);
        }
        ("open", H::Ue(_)) => {
            call(s);
            let H::Ue(e) = h else { unreachable!() };
            let x = H::Us(Recv.recv(e));
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.h, x);
        }
        ("read", H::As(_) | H::Us(_)) => {
            call(s);
            let v: &Val = match &h {
                H::As(a) => a,
                H::Us(a) => a,
                _ => unreachable!(),
            };
            v.note("vr");
            ret(s, "ok", 0, small(v.id), blk(v));
            back!();
        }
        ("getmut", H::As(_) | H::Us(_)) => {
            call(s);
            let m = match &mut h {
                H::As(a) => Arc::get_mut(a),
                H::Us(a) => Urc::get_mut(a),
                _ => unreachable!(),
            };
            match m {
                Some(v) => {
                    v.touch();
                    ret(s, "some", 0, small(v.id), blk(v));
                }
                None => ret(s, "none", 0, 0, 0),
            }
            back!();
        }
        ("mm", H::As(_) | H::Us(_)) => {
            call(s);
            let v = match &mut h {
                H::As(a) => Arc::make_mut(a),
                H::Us(a) => Urc::make_mut(a),
                _ => unreachable!(),
            };
            v.touch();
            ret(s, "ok", 0, small(v.id), blk(v));
            back!();
        }
        ("unwrap", H::As(_) | H::Us(_)) => {
            call(s);
            let r = match h {
                H::As(a) => Arc::try_unwrap(a).map_err(H::As),
                H::Us(a) => Urc::try_unwrap(a).map_err(H::Us),
                _ => unreachable!(),
            };
            match r {
                Ok(v) => {
                    ret(s, "ok", small(v.gen.get()), small(v.id), 0);
                    tab.insert(s.h, H::V(v));
                }
                Err(x) => {
                    ret(s, "err", 0, 0, 0);
                    tab.insert(s.h, x);
                }
            }
        }
        ("sc", H::As(a)) => {
            call(s);
            let x = Arc::strong_count(a);
            ret(s, "ok", num(x), 0, 0);
            back!();
        }
        ("wc", H::As(a)) => {
            call(s);
            let x = Arc::weak_count(a);
            ret(s, "ok", num(x), 0, 0);
            back!();
        }
        ("sole", H::Us(a)) => {
            call(s);
            let x = Urc::is_sole_strong_fence(a);
            ret(s, "ok", x as i64, 0, 0);
            back!();
        }
        ("fsc", H::Us(_) | H::Fb(_) | H::Fv(_)) => {
            call(s);
            let f: &Fence<Val> = match &h {
                H::Us(a) => Urc::fence_of(a),
                H::Fb(f) => f,
                H::Fv(f) => f,
                _ => unreachable!(),
            };
            let mut x = num(f.strong_count());
            if f.is_strong() != (x > 0) || f.is_weak() == (x > 0) {
                x = -1;
            }
            if let H::Us(a) = &h {
                if num(Urc::fence_strong_count(a)) != x {
                    x = -1;
                }
            }
            ret(s, "ok", x, 0, 0);
            back!();
        }
        ("fwc", H::Us(_) | H::Fb(_) | H::Fv(_)) => {
            call(s);
            let f: &Fence<Val> = match &h {
                H::Us(a) => Urc::fence_of(a),
                H::Fb(f) => f,
                H::Fv(f) => f,
                _ => unreachable!(),
            };
            let mut x = num(f.weak_count());
            if let H::Us(a) = &h {
                if num(Urc::fence_weak_count(a)) != x {
                    x = -1;
                }
            }
            ret(s, "ok", x, 0, 0);
            back!();
        }
        ("det", H::Us(_)) => {
            call(s);
            let H::Us(a) = h else { unreachable!() };
            match Urc::try_into_fence(a) {
                Ok(f) => {
                    ret(s, "ok", 0, 0, 0);
                    tab.insert(s.h, H::Fb(f));
                }
                Err(a) => {
                    ret(s, "err", 0, 0, 0);
                    tab.insert(s.h, H::Us(a));
                }
            }
        }
        ("unbox", H::Fb(_)) => {
            call(s);
            let H::Fb(f) = h else { unreachable!() };
            let f = f.into_inner();
            ret(s, "ok", 0, 0, 0);
            tab.insert(s.h, H::Fv(f));
        }
        ("att", H::Fv(_)) => {
            call(s);
            let H::Fv(f) = h else { unreachable!() };
            let u = f.into_urc();
            ret(s, "ok", 0, small(u.id), blk(&*u as *const Val));
            tab.insert(s.h, H::Us(u));
        }
        _ => back!(),
    }
}

fn guarded(s: &Step, tab: &mut Table, arc: bool) {
    if catch_unwind(AssertUnwindSafe(|| step(s, tab, arc))).is_err() {
        ret(s, "panic", 0, 0, 0);
    }
}

fn worker(t: usize, prog: Vec<Step>, arc: bool) {
    TID.set(t);
    ON.set(true);
    {
        // Wait for the first turn.
        let mut g = lock();
        while g.as_ref().unwrap().cur != t {
            g = CV[t].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    let mut tab = Table::new();
    let mine = run(|r| {
        let m = &mut r.mail[t];
        let n = m.len();
        m.drain(..n).collect::<Vec<_>>()
    });
    for (h, x) in mine {
        ev!("{{\"op\":\"rcv\",\"t\":{t},\"h\":{h}}}");
        tab.insert(h, x);
    }
    for s in &prog {
        guarded(s, &mut tab, arc);
    }
    while let Some(h) = tab.keys().next().copied() {
        guarded(&Step { thr: t, op: "drop".into(), h, n: 0, to: 0 }, &mut tab, arc);
    }
    let mut g = lock();
    let r = g.as_mut().unwrap();
    r.done[t] = true;
    let k = r.decide(0, false);
    if k == 0 {
        r.cur = 0;
    }
    CV[k].notify_one();
    ON.set(false);
}

/// What one execution can differ in from another: what each thread did, and the order of the
/// threads' accesses to each block.
fn essence(t: &str) -> (BTreeMap<&str, Vec<&str>>, BTreeMap<&str, Vec<&str>>) {
    let (mut a, mut b): (BTreeMap<&str, Vec<&str>>, BTreeMap<&str, Vec<&str>>) = Default::default();
    let field = |l: &'_ str, k: &str| -> Option<(usize, usize)> {
        let i = l.find(k)? + k.len();
        Some((i, i + l[i..].find([',', '}']).unwrap_or(l.len() - i)))
    };
    for l in t.lines().skip(1) {
        let Some((i, j)) = field(l, "\"t\":") else { continue };
        let mine = a.entry(&l[i..j]).or_default();
        if mine.last() == Some(&l) {
            continue;
        }
        mine.push(l);
        if l.starts_with("{\"op\":\"ret\"") {
            continue;
        }
        if let Some((x, y)) = field(l, "\"b\":") {
            b.entry(&l[x..y]).or_default().push(&l[i..j]);
        }
    }
    (a, b)
}

/// One execution under one schedule. Returns the trace and the decisions.
fn execute(head: &str, n: usize, arc: bool, prog: &[Step], prefix: &[u8]) -> (String, Vec<Decision>) {
    *lock() = Some(Run {
        ev: String::with_capacity(1 << 14),
        head: format!("{head},\"pre\":[{}]", prefix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        blocks: vec![],
        locs: vec![],
        vals: 0,
        n,
        cur: 0,
        done: vec![false; n + 1],
        weak: vec![false; n + 1],
        spun: vec![false; n + 1],
        prefix: prefix.to_vec(),
        dec: vec![],
        preempt: 0,
        same: 0,
        steps: 0,
        fail: vec![false; n + 1],
        mail: (0..=n).map(|_| vec![]).collect(),
    });
    unsafe { CURRENT = Some(lock().as_ref().unwrap() as *const Run) };
    ON.set(true);
    let mut tab = Table::new();
    for s in prog.iter().filter(|s| s.thr == 0) {
        guarded(s, &mut tab, arc);
    }
    // What was not given away goes to the first thread.
    while let Some(h) = tab.keys().next().copied() {
        guarded(&Step { thr: 0, op: "give".into(), h, n: 0, to: 1 }, &mut tab, arc);
    }
    ev!("{{\"op\":\"spawn\",\"t\":0}}");
    let hs: Vec<_> = (1..=n)
        .map(|t| {
            let p: Vec<Step> = prog.iter().filter(|s| s.thr == t).cloned().collect();
            std::thread::Builder::new().stack_size(1 << 18).spawn(move || worker(t, p, arc)).unwrap()
        })
        .collect();
    {
        let mut g = lock();
        let r = g.as_mut().unwrap();
        let k = r.decide(0, false);
        CV[k].notify_one();
        while g.as_ref().unwrap().cur != 0 {
            g = CV[0].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    for h in hs {
        let _ = h.join();
    }
    ev!("{{\"op\":\"join\",\"t\":0}}");
    // Handles still on their way.
    let left: Vec<(u32, H)> = run(|r| r.mail.iter_mut().flat_map(|m| m.drain(..).collect::<Vec<_>>()).collect());
    for (h, x) in left {
        ev!("{{\"op\":\"rcv\",\"t\":0,\"h\":{h}}}");
        tab.insert(h, x);
    }
    while let Some(h) = tab.keys().next().copied() {
        guarded(&Step { thr: 0, op: "drop".into(), h, n: 0, to: 0 }, &mut tab, arc);
    }
    ev!("{{\"op\":\"end\",\"t\":0}}");
    ON.set(false);
    unsafe { CURRENT = None };
    let r = lock().take().unwrap();
    for b in &r.blocks {
        unsafe { System.dealloc(b.addr as *mut u8, Layout::from_size_align_unchecked(b.size.max(1), b.align)) };
    }
    (format!("T {}\n{}", r.head, r.ev), r.dec)
}

fn main() {
    unsafe {
        lokky::scope::ENV = Some(env);
        for n in [4, 6, 7, 8, 11, 14, 27] {
            signal(n, on_signal as *const () as usize);
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    set_hook(&HOOK);
    let start: usize = std::env::args().nth(1).map_or(0, |a| a.parse().unwrap());
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let out = std::io::stdout();
    for (id, script) in text.split("\n.\n").enumerate() {
        if id < start || script.trim().is_empty() {
            continue;
        }
        let mut lines = script.lines();
        let hd: Vec<&str> = lines.next().unwrap().split(' ').collect();
        let arc = hd[1] == "arc";
        let n: usize = hd[2].parse().unwrap();
        let mut prog = vec![];
        let mut nh = 1;
        for l in lines {
            let p: Vec<&str> = l.split(' ').collect();
            let mut s = Step { thr: if p[0] == "m" { 0 } else { p[0].parse().unwrap() }, op: p[1].into(), h: 0, n: 0, to: 0 };
            for kv in &p[2..] {
                let (k, v) = kv.split_once('=').unwrap();
                let v: u32 = v.parse().unwrap();
                match k {
                    "h" => s.h = v,
                    "n" => s.n = v,
                    _ => s.to = v as usize,
                }
            }
            nh = nh.max(s.h).max(s.n);
            prog.push(s);
        }
        let head = format!("{{\"id\":{id},\"fam\":\"{}\",\"n\":{n},\"nh\":{nh}", hd[1]);
        {
            // In case the process dies without a word.
            let mut o = out.lock();
            let _ = writeln!(o, "T {head},\"pre\":[]");
            let _ = o.flush();
        }
        let mode: Vec<&str> = hd[3].split(':').collect();
        harness::watchdog(3);
        if mode[0] == "p" {
            let pre: Vec<u8> = mode[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let (t, _) = execute(&head, n, arc, &prog, &pre);
            let mut o = out.lock();
            let _ = o.write_all(t.as_bytes());
        } else {
            let bound: u32 = mode[1].parse().unwrap();
            let max: usize = mode[2].parse().unwrap();
            let mut seed: u64 = mode[3].parse::<u64>().unwrap() * 2 + 1;
            let mut rnd = move |n: usize| {
                seed ^= seed << 13;
                seed ^= seed >> 7;
                seed ^= seed << 17;
                (seed % n as u64) as usize
            };
            let mut seen: HashSet<u64> = HashSet::new();
            let mut front: Vec<Vec<u8>> = vec![vec![]];
            let mut runs = 0;
            while !front.is_empty() && runs < max {
                harness::watchdog(3);
                let pre = front.swap_remove(rnd(front.len()));
                let (t, dec) = execute(&head, n, arc, &prog, &pre);
                runs += 1;
                for i in pre.len()..dec.len() {
                    let d = &dec[i];
                    let used = if i == 0 { 0 } else { dec[i - 1].preempt };
                    for a in &d.enabled {
                        let k = *a % SPURIOUS;
                        let cost = used + (d.cont != 0 && k != d.cont) as u32;
                        let spurious = dec[..i].iter().filter(|x| x.chosen >= SPURIOUS).count() + (*a >= SPURIOUS) as usize;
                        if *a == d.chosen || cost > bound || spurious > 1 {
                            continue;
                        }
                        let mut p: Vec<u8> = dec[..i].iter().map(|x| x.chosen).collect();
                        p.push(*a);
                        front.push(p);
                    }
                }
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                essence(&t).hash(&mut h);
                if seen.insert(h.finish()) {
                    let mut o = out.lock();
                    let _ = o.write_all(t.as_bytes());
                }
            }
        }
        let mut o = out.lock();
        let _ = writeln!(o, "E");
        let _ = o.flush();
    }
}
