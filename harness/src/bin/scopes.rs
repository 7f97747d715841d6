//! Driver for scopes: threads each run a nest of spawned scopes, one step at a time.
use harness::*;
use lokky::boxed::Box as LBox;
use lokky::scope::{AllocMarker, AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};

// What a log entry tells; the numbers are those of the specification.
const INIT: i64 = 1; // initializer: scope passed, current scope
const PROBE: i64 = 2; // current scope, scope that served an allocation
const BODY: i64 = 3; // body begins: current scope, scope passed (-1 when damaged)
const DROP: i64 = 4; // destructor: scope, current scope, (count)
const AFTER: i64 = 5; // nested spawn is over: current scope, result
const CAUGHT: i64 = 6; // a panic was caught: current scope, payload
const RET: i64 = 7; // spawn returned: current scope, result
const ENVCUR: i64 = 8; // a separate environment: its current scope, current scope
const NID: usize = 128;

thread_local! {
    static LOG: RefCell<Vec<[i64; 4]>> = const { RefCell::new(vec![]) };
    static SERVED: Cell<i64> = const { Cell::new(-1) };
    static KIND: RefCell<[(u8, i64); NID]> = const { RefCell::new([(b'n', 0); NID]) };
    static QUIT: Cell<bool> = const { Cell::new(false) };
    static ENVP: Cell<*mut Env> = const { Cell::new(std::ptr::null_mut()) };
    static BASE: Cell<u32> = const { Cell::new(100) };
}

fn log(k: i64, a: i64, b: i64, c: i64) {
    LOG.with(|l| l.borrow_mut().push([k, a, b, c]))
}

struct IdAlloc(u32);
unsafe impl GlobalAlloc for IdAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        SERVED.with(|s| s.set(self.0 as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if SERVED.with(|s| s.get()) != self.0 as i64 {
            SERVED.with(|s| s.set(-1))
        }
        System.dealloc(p, l)
    }
}
static A: [IdAlloc; NID] = {
    let mut a = [const { IdAlloc(0) }; NID];
    let mut i = 0;
    while i < NID {
        a[i] = IdAlloc(i as u32);
        i += 1;
    }
    a
};
fn served_by(s: &dyn Scope) -> i64 {
    let a = s.alloc_for(AllocSelector::new::<u32>()) as *const dyn GlobalAlloc as *const IdAlloc as usize;
    let lo = A.as_ptr() as usize;
    if a >= lo && a < lo + std::mem::size_of_val(&A) {
        ((a - lo) / std::mem::size_of::<IdAlloc>()) as i64
    } else {
        -1
    }
}
fn cur() -> i64 {
    served_by(lokky::scope::current(&()))
}
fn probe() {
    SERVED.with(|s| s.set(-2));
    let b = LBox::new(7u32);
    drop(b);
    let c = cur();
    log(PROBE, c, SERVED.with(|s| s.get()), 0);
}

/// A scope value of some size.
trait Sc: Scope + 'static {
    fn make(id: u32) -> Self;
    fn id(&self) -> i64; // -1 when the value is damaged
    fn bump(&mut self);
}
thread_local!(static THROWN: Cell<i64> = const { Cell::new(0) });
fn throw(v: i64) -> ! {
    THROWN.with(|t| t.set(t.get() + 1));
    panic_any(v)
}
fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    let n = THROWN.with(|t| t.get());
    let r = catch_unwind(AssertUnwindSafe(f));
    THROWN.with(|t| t.set(n));
    r
}
/// Runs it in a destructor while another panic unwinds the stack.
fn amid_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct G<'a, F: FnOnce() -> R, R>(Option<F>, &'a mut Option<R>);
    impl<F: FnOnce() -> R, R> Drop for G<'_, F, R> {
        fn drop(&mut self) {
            *self.1 = self.0.take().map(|f| f());
        }
    }
    let mut out = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _g = G(Some(f), &mut out);
        std::panic::resume_unwind(Box::new(()));
    }));
    out.unwrap()
}
fn gone(id: i64, cnt: i64) {
    log(DROP, id, cur(), cnt);
    if !(0..NID as i64).contains(&id) {
        return;
    }
    match KIND.with(|k| k.borrow()[id as usize].0) {
        b'p' => probe(),
        b's' => nested(id as u32 + 40),
        b'e' => ENVP.with(|e| {
            let e = e.get();
            log(ENVCUR, unsafe { served_by((*e).current(&())) }, cur(), 0)
        }),
        b'x' if THROWN.with(|t| t.get()) == 0 => throw(id + 100),
        _ => (),
    }
}
fn nested(id: u32) {
    let r = lokky::scope::spawn(
        |s| {
            log(INIT, served_by(s), cur(), 0);
            S16::make(id)
        },
        |s| {
            log(BODY, cur(), s.id(), 0);
            probe();
            id as i64
        },
    );
    log(AFTER, cur(), (r == id as i64) as i64, 0);
}
const SALT: u64 = 0x5C09_E5C0_1234_5678;

macro_rules! scope_type {
    ($n:ident, { $($f:tt)* }, $make:expr, $id:expr, $bump:expr, $cnt:expr, $kill:expr) => {
        #[allow(dead_code)]
        struct $n { $($f)* }
        impl Sc for $n {
            fn make(id: u32) -> Self { $make(id) }
            fn id(&self) -> i64 { $id(self) }
            fn bump(&mut self) { $bump(self) }
        }
        impl Scope for $n {
            fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
                let i = $id(self);
                &A[if i < 0 { NID - 1 } else { i as usize % NID }]
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                let (i, n) = ($id(self), $cnt(self));
                gone(i, n);
                $kill(self);
            }
        }
    };
}
scope_type!(S1, { id: u8 }, |i| S1 { id: i as u8 }, |s: &S1| s.id as i64,
    |s: &mut S1| KIND.with(|k| k.borrow_mut()[s.id as usize].1 += 1),
    |s: &S1| KIND.with(|k| k.borrow()[s.id as usize % NID].1), |s: &mut S1| s.id = 126);
scope_type!(S8, { id: u32, cnt: u32 }, |i| S8 { id: i, cnt: 0 }, |s: &S8| s.id as i64,
    |s: &mut S8| s.cnt += 1, |s: &S8| s.cnt as i64, |s: &mut S8| s.id = 126);
scope_type!(S16, { id: u32, cnt: u32, salt: u64 }, |i| S16 { id: i, cnt: 0, salt: SALT },
    |s: &S16| if s.salt == SALT { s.id as i64 } else { -1 },
    |s: &mut S16| s.cnt += 1, |s: &S16| s.cnt as i64, |s: &mut S16| s.salt = 0);
scope_type!(SBig, { a: [u64; 30], id: u32, cnt: u32, b: [u64; 30] },
    |i| SBig { a: [SALT; 30], id: i, cnt: 0, b: [SALT; 30] },
    |s: &SBig| if s.a == [SALT; 30] && s.b == [SALT; 30] { s.id as i64 } else { -1 },
    |s: &mut SBig| s.cnt += 1, |s: &SBig| s.cnt as i64, |s: &mut SBig| s.a = [0; 30]);
scope_type!(SHeap, { id: Box<u32>, cnt: Vec<u8> }, |i| SHeap { id: Box::new(i), cnt: vec![] },
    |s: &SHeap| *s.id as i64, |s: &mut SHeap| s.cnt.push(1), |s: &SHeap| s.cnt.len() as i64, |s: &mut SHeap| *s.id = 126);

#[repr(align(64))]
struct SAl {
    s: S16,
}
impl Sc for SAl {
    fn make(id: u32) -> Self {
        SAl { s: S16::make(id) }
    }
    fn id(&self) -> i64 {
        if self as *const _ as usize % 64 == 0 { self.s.id() } else { -1 }
    }
    fn bump(&mut self) {
        self.s.bump()
    }
}
impl Scope for SAl {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        if self.id() < 0 { &A[NID - 1] } else { self.s.alloc_for(s) }
    }
}
/// A scope without any bytes: it is its type that tells who it is.
struct SZero<const I: usize>;
impl<const I: usize> Sc for SZero<I> {
    fn make(_: u32) -> Self {
        SZero
    }
    fn id(&self) -> i64 {
        I as i64
    }
    fn bump(&mut self) {
        KIND.with(|k| k.borrow_mut()[I].1 += 1)
    }
}
impl<const I: usize> Scope for SZero<I> {
    fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
        &A[I]
    }
}
impl<const I: usize> Drop for SZero<I> {
    fn drop(&mut self) {
        gone(I as i64, KIND.with(|k| k.borrow()[I].1));
    }
}

/// Results of several shapes.
trait Res {
    fn of(v: i64) -> Self;
    fn val(self) -> i64;
}
impl Res for i64 {
    fn of(v: i64) -> Self {
        v
    }
    fn val(self) -> i64 {
        self
    }
}
struct Wide([i64; 40]);
impl Res for Wide {
    fn of(v: i64) -> Self {
        Wide([v; 40])
    }
    fn val(self) -> i64 {
        if self.0 == [self.0[0]; 40] { self.0[0] } else { -1 }
    }
}
impl Res for String {
    fn of(v: i64) -> Self {
        v.to_string()
    }
    fn val(self) -> i64 {
        self.parse().unwrap_or(-1)
    }
}
impl Res for Result<(), u8> {
    fn of(v: i64) -> Self {
        if v == 0 { Ok(()) } else { Err(v as u8) }
    }
    fn val(self) -> i64 {
        match self {
            Ok(()) => 0,
            Err(v) => v as i64,
        }
    }
}

#[derive(Clone, Debug)]
struct Op {
    name: String,
    k: usize,
    id: u32,
    z: String,
    i: u8,
    d: u8,
    c: bool,
    u: bool,
    r: String,
    v: i64,
}
impl Op {
    fn parse(line: &str) -> Op {
        let get = |k: &str| {
            line.split_whitespace().skip(1).find_map(|w| w.split_once('=').filter(|x| x.0 == k)).map(|x| x.1.to_string())
        };
        let s = |k: &str, d: &str| get(k).unwrap_or(d.to_string());
        let n = |k: &str| get(k).map_or(0, |x| x.parse::<i64>().unwrap());
        Op {
            name: line.split_whitespace().next().unwrap().into(),
            k: n("k") as usize,
            id: n("id") as u32,
            z: s("z", "8"),
            i: s("i", "n").as_bytes()[0],
            d: s("d", "n").as_bytes()[0],
            c: n("c") != 0,
            u: n("u") != 0,
            r: s("r", "i"),
            v: n("v"),
        }
    }
}

struct Link {
    rx: Receiver<Op>,
    tx: Sender<Vec<[i64; 4]>>,
}
impl Link {
    fn ack(&self) {
        let l = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let _ = self.tx.send(l);
    }
}

fn spawn_as<S: Sc, R: Res>(l: &Link, op: &Op) -> i64 {
    KIND.with(|k| k.borrow_mut()[op.id as usize] = (op.d, 0));
    lokky::scope::spawn(
        |s| {
            log(INIT, served_by(s), cur(), 0);
            match op.i {
                b'p' => probe(),
                b's' => nested(op.id + 20),
                b'x' => throw(op.id as i64 + 200),
                b'y' => {
                    let _s = S::make(op.id);
                    throw(op.id as i64 + 200)
                }
                _ => (),
            }
            S::make(op.id)
        },
        |s: &mut S| {
            log(BODY, cur(), s.id(), 0);
            l.ack();
            R::of(level(l, s))
        },
    )
    .val()
}
fn spawn_size<R: Res>(l: &Link, op: &Op) -> i64 {
    macro_rules! zero {
        ($($n:literal)*) => {
            match op.id { $($n => spawn_as::<SZero<$n>, i64>(l, op),)* _ => spawn_as::<S1, R>(l, op) }
        };
    }
    match op.z.as_str() {
        "0" => zero!(1 2 3 4 5 6 7 8 9 10 11 12),
        "1" => spawn_as::<S1, R>(l, op),
        "8" => spawn_as::<S8, R>(l, op),
        "big" => spawn_as::<SBig, R>(l, op),
        "al" => spawn_as::<SAl, R>(l, op),
        "heap" => spawn_as::<SHeap, R>(l, op),
        _ => spawn_as::<S16, R>(l, op),
    }
}
fn spawn_any(l: &Link, op: &Op) -> i64 {
    match op.r.as_str() {
        "w" => spawn_size::<Wide>(l, op),
        "s" => spawn_size::<String>(l, op),
        "u" => spawn_size::<Result<(), u8>>(l, op),
        _ => spawn_size::<i64>(l, op),
    }
}
fn payload(e: Box<dyn std::any::Any + Send>) -> i64 {
    e.downcast_ref::<i64>().copied().unwrap_or(-1)
}

/// Steps inside the body of a scope (or at the base). Returns the result of the body.
fn level<S: Sc>(l: &Link, me: &mut S) -> i64 {
    loop {
        let op = l.rx.recv().unwrap();
        match op.name.as_str() {
            "spawn" => {
                if op.c {
                    match (if op.u { amid_unwinding(|| catch(|| spawn_any(l, &op))) } else { catch(|| spawn_any(l, &op)) }) {
                        Ok(v) => log(RET, cur(), v, 0),
                        Err(e) => log(CAUGHT, cur(), payload(e), 0),
                    }
                } else {
                    let v = spawn_any(l, &op);
                    log(RET, cur(), v, 0);
                }
                if QUIT.with(|q| q.get()) {
                    return 0;
                }
            }
            "probe" => probe(),
            "bump" => me.bump(),
            "ret" => return op.v,
            "panic" => throw(op.v),
            "env" => env_test(&op),
            "quit" => {
                QUIT.with(|q| q.set(true));
                return 0;
            }
            _ => (),
        }
        l.ack();
    }
}

/// An environment of its own, next to the one of the thread.
fn env_test(op: &Op) {
    let mut base = S16::make(op.id);
    KIND.with(|k| k.borrow_mut()[op.id as usize].0 = b'n');
    let mut env = Env::new(unsafe { &mut *(&mut base as *mut S16) });
    let p = &mut env as *mut Env;
    ENVP.with(|e| e.set(p));
    let seen = || log(ENVCUR, unsafe { served_by((*p).current(&())) }, cur(), 0);
    seen();
    KIND.with(|k| k.borrow_mut()[op.id as usize + 20].0 = b'e');
    let r = catch(|| unsafe {
        (*p).spawn(
            |s| {
                log(INIT, served_by(s), cur(), 0);
                SBig::make(op.id + 20)
            },
            |_| {
                seen();
                if op.v == 1 {
                    throw(op.id as i64);
                }
                5i64
            },
        )
    });
    seen();
    log(RET, cur(), match r { Ok(v) => v, Err(e) => payload(e) }, 0);
}

struct Base;
impl Scope for Base {
    fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
        &A[BASE.with(|b| b.get()) as usize]
    }
}
impl Sc for Base {
    fn make(_: u32) -> Self {
        Base
    }
    fn id(&self) -> i64 {
        -1
    }
    fn bump(&mut self) {}
}
fn env() -> &'static mut Env {
    thread_local! {
        static E: *mut Env = Box::into_raw(Box::new(Env::new(Box::leak(Box::new(Base)))));
    }
    E.with(|e| unsafe { &mut **e })
}

fn worker(k: usize, l: Link) {
    BASE.with(|b| b.set(100 + k as u32));
    loop {
        if let Err(e) = catch(|| level(&l, &mut Base)) {
            log(CAUGHT, cur(), payload(e), 0);
            if QUIT.with(|q| q.get()) {
                l.ack();
                return;
            }
        } else if QUIT.with(|q| q.get()) {
            l.ack();
            return;
        }
        // A return of the base is a return of nothing.
        l.ack();
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
#[inline(never)]
fn markers() -> (Vec<i64>, Vec<i64>) {
    let (m1, s1) = sel_a::make();
    let (m2, s2) = sel_b::make();
    let mut ms = m1;
    ms.extend(m2);
    ms.push((0, AllocMarker::default()));
    let mut ss = s1;
    ss.extend(s2);
    let mut bad = vec![];
    let mut n = 0;
    for (i, x) in &ms {
        for (j, y) in &ms {
            n += 1;
            if (x == y) != (i == j) || (x != y) != (i != j) || (i == j && hash_of(x) != hash_of(y)) {
                bad.extend([*i, *j]);
            }
        }
    }
    for (i, x) in &ss {
        if x.marker() != ms[(*i / 100) as usize].1 {
            bad.extend([*i, -1]);
        }
        for (j, y) in &ss {
            n += 1;
            let ty = i % 100 == j % 100;
            if (x == y) != (i == j)
                || (x != y) != (i != j)
                || (i == j && hash_of(x) != hash_of(y))
                || (x.ty() == y.ty()) != ty
                || (x.marker() == y.marker()) != (i / 100 == j / 100)
            {
                bad.extend([*i, *j]);
            }
        }
    }
    (vec![n, ms.len() as i64, ss.len() as i64], bad)
}

fn emit(op: &Op, log: Vec<[i64; 4]>, num: Vec<i64>) {
    let mut j = Json::new();
    j.s("op", &op.name);
    j.n("k", op.k as i64);
    j.n("id", op.id as i64);
    j.s("i", &(op.i as char).to_string());
    j.s("d", &(op.d as char).to_string());
    j.n("c", op.c as i64);
    j.n("v", op.v);
    let mut s = String::from("[");
    for (i, e) in log.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s += &format!("[{},{},{},{}]", e[0], e[1], e[2], e[3]);
    }
    s.push(']');
    j.raw("lg", &s);
    j.ns("num", num);
    j.s("res", "ok");
    out_line(&j.end());
}

fn main() {
    init();
    unsafe { lokky::scope::ENV = Some(env) };
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let from: usize = std::env::args().nth(1).map_or(0, |s| s.parse().unwrap());
    for (i, block) in input.split("\n.\n").enumerate() {
        if i < from {
            continue;
        }
        let lines: Vec<&str> = block.lines().filter(|l| !l.trim().is_empty()).collect();
        if lines.is_empty() {
            continue;
        }
        let mut h = lines[0].split_whitespace().skip(1); // S <id> <threads>
        let id = h.next().unwrap();
        let n: usize = h.next().unwrap().parse().unwrap();
        println!("T {{\"id\":\"{id}\",\"n\":{n},\"dbg\":{}", cfg!(debug_assertions) as i32);
        watchdog(3);
        let mut links = vec![];
        for k in 0..n {
            let (tx, rx) = channel();
            let (atx, arx) = channel();
            let t = std::thread::spawn(move || worker(k, Link { rx, tx: atx }));
            links.push((tx, arx, t));
        }
        let mut ops: Vec<Op> = lines[1..].iter().map(|l| Op::parse(l)).collect();
        for k in 0..n {
            ops.push(Op { k, ..Op::parse("quit") });
        }
        for op in ops {
            if op.name == "mk" {
                let (num, bad) = markers();
                emit(&op, vec![], [num, bad].concat());
                continue;
            }
            let _ = links[op.k].0.send(op.clone());
            match links[op.k].1.recv() {
                Ok(l) => emit(&op, l, vec![]),
                Err(_) => std::process::abort(),
            }
        }
        for (_, _, t) in links {
            let _ = t.join();
        }
        println!("E");
    }
}
