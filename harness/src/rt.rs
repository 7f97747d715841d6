//! Runtime shared by the drivers: tracking allocators, tracked element types, fault injection
//! and the writer of trace events. Single-threaded drivers use it through thread-locals.
#![allow(static_mut_refs)]

use lokky::scope::{AllocMarker, AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ log of one step

#[derive(Default)]
pub struct Step {
    pub anomalies: Vec<&'static str>,
    pub drops: Vec<u32>,
    pub created: Vec<(u32, u32, u32)>, // uid, val, source uid (0 = none)
    pub reqs: Vec<Req>,
    pub calls: Vec<i64>, // callback log
    pub zdrops: u32,
    pub zcreated: u32,
    pub why: i64, // the reason an error gave: 1 the size cannot be represented, 2 the allocator refused
}

#[derive(Clone, Copy)]
pub struct Req {
    pub kind: u8, // b'a', b'r', b'd', b'f' (refused allocation), b'g' (refused resize)
    pub blk: u32,
    pub aid: u32,
    pub size: usize,
    pub align: usize,
    pub blk2: u32,
    pub size2: usize,
    pub marker: i32,
    pub ty: i32,
}

thread_local! {
    pub static STEP: RefCell<Step> = RefCell::new(Step::default());
    static INJ: Cell<(u32, u32, bool)> = const { Cell::new((0, 0, false)) }; // counter, target, fired
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn anomaly(s: &'static str) {
    STEP.with(|st| {
        if let Ok(mut st) = st.try_borrow_mut() {
            if st.anomalies.len() < 8 && !st.anomalies.contains(&s) {
                st.anomalies.push(s)
            }
        }
    })
}

/// Notes the reason that a returned error gives.
pub fn why(e: &dyn std::fmt::Debug) {
    let s = format!("{e:?}");
    let w = match (s.contains("CapacityOverflow"), s.contains("AllocError")) {
        (true, false) => 1,
        (false, true) => 2,
        _ => 0,
    };
    STEP.with(|st| st.borrow_mut().why = w);
}

/// Marker payload of injected panics.
pub struct Injected;

pub fn arm(k: u32) {
    INJ.with(|i| i.set((0, k, false)));
}
/// Suspend injection. Returns the state to restore.
pub fn disarm() -> (u32, u32, bool) {
    INJ.with(|i| {
        let s = i.get();
        i.set((s.0, 0, s.2));
        s
    })
}
pub fn rearm(s: (u32, u32, bool)) {
    INJ.with(|i| i.set(s));
}
pub fn fired() -> bool {
    INJ.with(|i| i.get().2)
}
/// A callback into user code. Panics if it is the chosen one.
pub fn tick() {
    let fire = INJ.with(|i| {
        let (c, t, f) = i.get();
        let c = c + 1;
        let fire = t != 0 && c == t && !f && !std::thread::panicking();
        i.set((c, t, f || fire));
        fire
    });
    if fire {
        std::panic::panic_any(Injected);
    }
}
pub fn call(x: i64) {
    STEP.with(|s| s.borrow_mut().calls.push(x));
}

// ------------------------------------------------------------------ tracked elements

#[derive(Clone, Copy, PartialEq)]
enum Life {
    Alive,
    Dead,
}

#[derive(Default)]
pub struct Registry {
    life: Vec<(Option<Life>, u32)>,
}
impl Default for Life {
    fn default() -> Self {
        Life::Dead
    }
}

thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
    static ZLIVE: Cell<i64> = const { Cell::new(0) };
}

pub fn reg_reset() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.life.clear();
        r.life.push((None, 0));
    });
    ZLIVE.with(|z| z.set(0));
}
pub fn reg_live() -> Vec<u32> {
    REG.with(|r| {
        r.borrow()
            .life
            .iter()
            .enumerate()
            .filter(|(_, l)| l.0 == Some(Life::Alive))
            .map(|(i, _)| i as u32)
            .collect()
    })
}
pub fn reg_count() -> usize {
    REG.with(|r| r.borrow().life.len())
}
pub fn zlive() -> i64 {
    ZLIVE.with(|z| z.get())
}

fn reg_new(val: u32, src: u32) -> u32 {
    let uid = REG.with(|r| {
        let mut r = r.borrow_mut();
        r.life.push((Some(Life::Alive), val));
        (r.life.len() - 1) as u32
    });
    STEP.with(|s| s.borrow_mut().created.push((uid, val, src)));
    uid
}
fn reg_val(uid: u32) -> Option<u32> {
    REG.with(|r| r.borrow().life.get(uid as usize).map(|l| l.1))
}
fn reg_set(uid: u32, val: u32) {
    REG.with(|r| {
        if let Some(l) = r.borrow_mut().life.get_mut(uid as usize) {
            l.1 = val
        }
    })
}
/// Check that an element is alive.
fn reg_look(uid: u32) -> bool {
    let l = REG.with(|r| r.borrow().life.get(uid as usize).map(|l| l.0));
    match l {
        Some(Some(Life::Alive)) => true,
        Some(Some(Life::Dead)) => {
            anomaly("dead_read");
            false
        }
        _ => {
            anomaly("garbage");
            false
        }
    }
}
fn reg_drop(uid: u32) {
    let l = REG.with(|r| {
        let mut r = r.borrow_mut();
        match r.life.get_mut(uid as usize) {
            Some(l) => {
                let old = l.0;
                if old.is_some() {
                    l.0 = Some(Life::Dead);
                }
                old
            }
            None => None,
        }
    });
    match l {
        Some(Life::Alive) => STEP.with(|s| s.borrow_mut().drops.push(uid)),
        Some(Life::Dead) => anomaly("double_drop"),
        None => anomaly("garbage"),
    }
}

pub trait Tok: 'static + Clone + Ord + std::hash::Hash + std::fmt::Debug {
    const NAME: &'static str;
    /// Whether individual elements have an identity.
    const IDENT: bool;
    fn make(val: u32) -> Self;
    /// Identity and value, checking that the element is alive and intact.
    fn look(&self) -> (u32, u32);
    fn val(&self) -> u32 {
        self.look().1
    }
    fn set_val(&mut self, v: u32);
    /// Extend by references, for `Copy` types.
    fn extend_refs<const N: usize>(_: &mut lokky::small_vec::SmallVec<Self, N>, _: &[u32]) -> bool {
        false
    }
}

fn mix(uid: u32, val: u32) -> u32 {
    (uid.wrapping_mul(0x9E37_79B1) ^ val.wrapping_mul(0x85EB_CA6B) ^ 0x5bd1_e995) & 0xffff
}

thread_local!(static ODD: Cell<bool> = const { Cell::new(false) });
/// While on, a quarter of the values are like a NaN: not equal to anything, themselves included,
/// and neither below nor above it.
pub fn odd(on: bool) {
    ODD.with(|o| o.set(on))
}
fn is_odd(val: u32) -> bool {
    val % 4 == 1 && ODD.with(|o| o.get())
}

macro_rules! tok_common {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                let (a, b) = (self.val(), o.val());
                tick();
                a == b && !is_odd(a)
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                let (a, b) = (self.val(), o.val());
                if is_odd(a) || is_odd(b) {
                    return None;
                }
                Some(a.cmp(&b))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.val().cmp(&o.val())
            }
        }
        impl std::hash::Hash for $t {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.val().hash(h)
            }
        }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{}{}", self.val(), flags(f))
            }
        }
    };
}

/// The format that is asked for, beyond the plain one.
pub fn flags(f: &std::fmt::Formatter) -> String {
    let (w, p) = (f.width(), f.precision());
    let (a, s, z) = (f.alternate(), f.sign_plus(), f.sign_aware_zero_pad());
    if w.is_none() && p.is_none() && !a && !s && !z {
        return String::new();
    }
    format!("/{w:?}{p:?}{a}{s}{z}{:?}{:?}", f.fill(), f.align().map(|a| match a {
        std::fmt::Alignment::Left => 0,
        std::fmt::Alignment::Right => 1,
        std::fmt::Alignment::Center => 2,
    }))
}

/// The text a container prints for debugging, if in every format it is the one of its contents.
pub fn debug_text(c: &dyn std::fmt::Debug, x: &dyn std::fmt::Debug) -> String {
    if format!("{c:#?}|{c:>9.3?}|{c:+08?}|{c:*^7?}") != format!("{x:#?}|{x:>9.3?}|{x:+08?}|{x:*^7?}") {
        return format!("{c:?}, but as {c:#?}|{c:>9.3?}|{c:+08?}|{c:*^7?} in other formats");
    }
    format!("{c:?}")
}
/// The same for the text it displays.
pub fn shown_text(c: &dyn std::fmt::Display, x: &dyn std::fmt::Display) -> String {
    if format!("{c:#}|{c:>9.3}|{c:+08}|{c:*^7}") != format!("{x:#}|{x:>9.3}|{x:+08}|{x:*^7}") {
        return format!("{c}, but as {c:#}|{c:>9.3}|{c:+08}|{c:*^7} in other formats");
    }
    format!("{c}")
}

/// Core of the identified tokens: `chk` detects memory that is not a token.
#[repr(C)]
pub struct Tok8 {
    uid: u32,
    vc: u32,
}
impl Tok for Tok8 {
    const NAME: &'static str = "t8";
    const IDENT: bool = true;
    fn make(val: u32) -> Self {
        Self::with_src(val, 0)
    }
    fn look(&self) -> (u32, u32) {
        let (uid, vc) = (self.uid, self.vc);
        let val = vc >> 16;
        if vc & 0xffff != mix(uid, val) {
            anomaly("garbage");
            return (0, 0);
        }
        if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
            anomaly("misaligned");
        }
        reg_look(uid);
        (uid, val)
    }
    fn set_val(&mut self, v: u32) {
        self.look();
        self.vc = v << 16 | mix(self.uid, v);
        reg_set(self.uid, v);
    }
}
impl Tok8 {
    fn with_src(val: u32, src: u32) -> Self {
        let uid = reg_new(val, src);
        Tok8 {
            uid,
            vc: val << 16 | mix(uid, val),
        }
    }
}
impl Clone for Tok8 {
    fn clone(&self) -> Self {
        let (uid, val) = self.look();
        tick();
        Tok8::with_src(val, uid)
    }
}
impl Drop for Tok8 {
    fn drop(&mut self) {
        let (uid, vc) = (self.uid, self.vc);
        if vc & 0xffff != mix(uid, vc >> 16) {
            anomaly("garbage");
        } else {
            reg_drop(uid);
        }
        tick();
    }
}
tok_common!(Tok8);

pub struct Tok1(u8);
impl Tok for Tok1 {
    const NAME: &'static str = "t1";
    const IDENT: bool = true;
    fn make(val: u32) -> Self {
        Tok1(reg_new(val, 0) as u8)
    }
    fn look(&self) -> (u32, u32) {
        let uid = self.0 as u32;
        if reg_look(uid) {
            (uid, reg_val(uid).unwrap())
        } else {
            (uid, 0)
        }
    }
    fn set_val(&mut self, v: u32) {
        self.look();
        reg_set(self.0 as u32, v);
    }
}
impl Clone for Tok1 {
    fn clone(&self) -> Self {
        let (uid, val) = self.look();
        tick();
        Tok1(reg_new(val, uid) as u8)
    }
}
impl Drop for Tok1 {
    fn drop(&mut self) {
        reg_drop(self.0 as u32);
        tick();
    }
}
tok_common!(Tok1);

#[repr(align(64))]
#[derive(Clone)]
pub struct Tok64(Tok8);
impl Tok for Tok64 {
    const NAME: &'static str = "t64";
    const IDENT: bool = true;
    fn make(val: u32) -> Self {
        Tok64(Tok8::make(val))
    }
    fn look(&self) -> (u32, u32) {
        if (self as *const Self as usize) % 64 != 0 {
            anomaly("misaligned");
        }
        self.0.look()
    }
    fn set_val(&mut self, v: u32) {
        self.0.set_val(v)
    }
}
tok_common!(Tok64);

pub struct TokBig {
    t: Tok8,
    pad: [u8; 1032],
}
impl Tok for TokBig {
    const NAME: &'static str = "big";
    const IDENT: bool = true;
    fn make(val: u32) -> Self {
        let t = Tok8::make(val);
        let p = t.uid as u8 ^ 0x5a;
        TokBig { t, pad: [p; 1032] }
    }
    fn look(&self) -> (u32, u32) {
        let p = self.t.uid as u8 ^ 0x5a;
        if self.pad.iter().any(|b| *b != p) {
            anomaly("garbage");
        }
        self.t.look()
    }
    fn set_val(&mut self, v: u32) {
        self.t.set_val(v)
    }
}
impl Clone for TokBig {
    fn clone(&self) -> Self {
        let t = self.t.clone();
        let p = t.uid as u8 ^ 0x5a;
        TokBig { t, pad: [p; 1032] }
    }
}
tok_common!(TokBig);

/// Without size, but not without alignment.
#[repr(align(64))]
pub struct Zst;
impl Tok for Zst {
    const NAME: &'static str = "zst";
    const IDENT: bool = false;
    fn make(_: u32) -> Self {
        ZLIVE.with(|z| z.set(z.get() + 1));
        STEP.with(|s| s.borrow_mut().zcreated += 1);
        Zst
    }
    fn look(&self) -> (u32, u32) {
        if (self as *const Self as usize) % 64 != 0 {
            anomaly("misaligned");
        }
        (0, 0)
    }
    fn set_val(&mut self, _: u32) {}
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        tick();
        Zst::make(0)
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        self.look();
        ZLIVE.with(|z| z.set(z.get() - 1));
        STEP.with(|s| s.borrow_mut().zdrops += 1);
        tick();
    }
}
tok_common!(Zst);
impl Default for Zst {
    fn default() -> Self {
        Zst::make(0)
    }
}
impl std::fmt::Display for Zst {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "<{}>{}", self.val(), flags(f))
    }
}

/// What a comparison says of values some of which are equal to nothing: of the two, and of the
/// first with itself.
pub fn partial<A: PartialOrd>(a: &A, b: &A) -> Vec<i64> {
    odd(true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut v = vec![];
        for (a, b) in [(a, b), (a, a)] {
            v.extend([
                (a == b) as i64,
                (a != b) as i64,
                a.partial_cmp(b).map_or(9, |x| x as i64),
                (a < b) as i64,
                (a <= b) as i64,
                (a > b) as i64,
                (a >= b) as i64,
            ]);
        }
        v
    }));
    odd(false);
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}

/// Plain data, `Copy`.
#[derive(Clone, Copy, Eq, Hash)]
pub struct Pod(u32);
impl PartialEq for Pod {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && !is_odd(self.val())
    }
}
impl PartialOrd for Pod {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        let (a, b) = (self.val(), o.val());
        if is_odd(a) || is_odd(b) {
            return None;
        }
        Some(a.cmp(&b))
    }
}
impl Ord for Pod {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.val().cmp(&o.val())
    }
}
impl Default for Pod {
    fn default() -> Self {
        Pod::make(7)
    }
}
impl std::fmt::Display for Pod {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "<{}>{}", self.val(), flags(f))
    }
}
impl std::fmt::Debug for Pod {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}{}", self.val(), flags(f))
    }
}
impl Tok for Pod {
    const NAME: &'static str = "pod";
    const IDENT: bool = false;
    fn make(val: u32) -> Self {
        Pod(val ^ 0x00a5_0000)
    }
    fn look(&self) -> (u32, u32) {
        let v = self.0 ^ 0x00a5_0000;
        if v > 0xffff {
            anomaly("garbage");
            return (0, 0);
        }
        (0, v)
    }
    fn set_val(&mut self, v: u32) {
        *self = Pod::make(v)
    }
    fn extend_refs<const N: usize>(sv: &mut lokky::small_vec::SmallVec<Self, N>, v: &[u32]) -> bool {
        let src: Vec<Pod> = v.iter().map(|x| Pod::make(*x)).collect();
        let src: &'static [Pod] = src.leak();
        sv.extend(src.iter());
        true
    }
}

// ------------------------------------------------------------------ tracking allocator

pub const NMARK: u32 = 3; // marker 0 = none, 1, 2
pub const RZ: usize = 64; // red zone on both sides
pub const MAX_BLOCK: usize = 1 << 24;

pub struct M1;
pub struct M2;

pub fn marker(m: u32) -> AllocMarker {
    match m {
        0 => AllocMarker::None,
        1 => AllocMarker::new::<M1>(),
        _ => AllocMarker::new::<M2>(),
    }
}
pub fn marker_id(m: AllocMarker) -> i32 {
    for i in 0..NMARK {
        if marker(i) == m {
            return i as i32;
        }
    }
    -1
}

struct Block {
    id: u32,
    aid: u32,
    size: usize,
    align: usize,
    base: usize,
    raw_layout: Layout,
    live: bool,
    /// Lies in this slot of guarded memory.
    slot: Option<usize>,
}

// Guarded memory: slots of a few pages with an inaccessible page behind each. A block ends
// (but for its alignment) where its slot ends, and its slot becomes inaccessible when the block
// is released, so that reading beyond it or after its release ends the process.
const PAGE: usize = 4096;
const SLOT_DATA: usize = 4 * PAGE;
const SLOT: usize = SLOT_DATA + PAGE;
const SLOTS: usize = 512;
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

#[derive(Default)]
struct Guarded {
    base: usize,
    used: usize,
}
impl Guarded {
    fn on(&mut self) {
        if self.base != 0 {
            return;
        }
        // SAFETY: a new private mapping.
        unsafe {
            let p = mmap(std::ptr::null_mut(), SLOT * SLOTS, 0, 0x22, -1, 0);
            if p as isize == -1 {
                return;
            }
            for i in 0..SLOTS {
                if mprotect(p.add(i * SLOT), SLOT_DATA, 3) != 0 {
                    return;
                }
            }
            self.base = p as usize;
        }
    }
    fn protect(&self, slot: usize, prot: i32) {
        // SAFETY: a slot of our own mapping.
        unsafe { mprotect((self.base + slot * SLOT) as *mut u8, SLOT_DATA, prot) };
    }
}

#[derive(Default)]
struct Heap {
    blocks: BTreeMap<usize, Block>,
    next_id: u32,
    fail_at: u32,
    fail_all: bool,
    nreq: u32,
    refused: u32,
    sel: Option<AllocSelector>,
    sel_aid: u32,
    types: Vec<AllocSelector>,
    total: usize,
    guarded: Guarded,
}
struct Shared(std::cell::UnsafeCell<Option<Heap>>, std::sync::Mutex<()>);
unsafe impl Sync for Shared {}
static HEAP: Shared = Shared(std::cell::UnsafeCell::new(None), std::sync::Mutex::new(()));

fn heap<R>(f: impl FnOnce(&mut Heap) -> R) -> R {
    let _g = HEAP.1.lock().unwrap_or_else(|e| e.into_inner());
    // SAFETY: protected by the mutex.
    let h = unsafe { &mut *HEAP.0.get() };
    f(h.get_or_insert_with(Default::default))
}

/// An allocator of the harness. `aid` identifies it.
pub struct TrackAlloc(pub u32);

const POISON_NEW: u8 = 0xA7;
const POISON_FREE: u8 = 0xDF;
const ZONE: u8 = 0xC3;

fn push_req(r: Req) {
    STEP.with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            if s.reqs.len() < 4096 {
                s.reqs.push(r)
            }
        }
    })
}

impl Heap {
    fn refuse(&mut self, size: usize) -> bool {
        self.nreq += 1;
        let inj = self.fail_at != 0
            && (self.nreq == self.fail_at || (self.fail_all && self.nreq >= self.fail_at));
        if inj || size > MAX_BLOCK || self.total > (1 << 28) {
            self.refused += 1;
            true
        } else {
            false
        }
    }
    fn new_block(&mut self, aid: u32, layout: Layout) -> (usize, u32) {
        if self.guarded.base != 0
            && self.guarded.used < SLOTS
            && layout.align() <= PAGE
            && layout.size() + layout.align() + RZ <= SLOT_DATA
        {
            let slot = self.guarded.used;
            self.guarded.used += 1;
            let end = self.guarded.base + slot * SLOT + SLOT_DATA;
            let addr = (end - layout.size()) & !(layout.align() - 1);
            let raw = Layout::from_size_align(end - addr + RZ, 1).unwrap();
            unsafe {
                let p = (addr - RZ) as *mut u8;
                p.write_bytes(ZONE, raw.size());
                p.add(RZ).write_bytes(POISON_NEW, layout.size());
            }
            return self.note(aid, layout, addr, addr - RZ, raw, Some(slot));
        }
        let a = layout.align().max(16);
        let front = (RZ + a - 1) / a * a;
        let raw = Layout::from_size_align(front + layout.size() + RZ, a).unwrap();
        let p = unsafe { std::alloc::alloc(raw) };
        assert!(!p.is_null());
        unsafe {
            p.write_bytes(ZONE, raw.size());
            p.add(front).write_bytes(POISON_NEW, layout.size());
        }
        self.note(aid, layout, p as usize + front, p as usize, raw, None)
    }
    fn note(&mut self, aid: u32, l: Layout, addr: usize, base: usize, raw: Layout, slot: Option<usize>) -> (usize, u32) {
        self.next_id += 1;
        self.total += raw.size();
        let id = self.next_id;
        let b = Block { id, aid, size: l.size(), align: l.align(), base, raw_layout: raw, live: true, slot };
        self.blocks.insert(addr, b);
        (addr, id)
    }
    fn zones_ok(b: &Block, addr: usize) -> bool {
        unsafe {
            let front = addr - b.base;
            let base = b.base as *const u8;
            (0..front).all(|i| *base.add(i) == ZONE)
                && (front + b.size..b.raw_layout.size()).all(|i| *base.add(i) == ZONE)
        }
    }
    /// Release checks. Returns the id of the block.
    fn release(&mut self, aid: u32, addr: usize, layout: Layout) -> u32 {
        match self.blocks.get_mut(&addr) {
            None => {
                anomaly("foreign_free");
                0
            }
            Some(b) => {
                if !b.live {
                    anomaly("double_free");
                    return b.id;
                }
                if b.aid != aid {
                    anomaly("wrong_allocator");
                }
                if b.size != layout.size() || b.align != layout.align() {
                    anomaly("wrong_layout");
                }
                if !Self::zones_ok(b, addr) {
                    anomaly("out_of_bounds");
                }
                b.live = false;
                match b.slot {
                    Some(i) => self.guarded.protect(i, 0),
                    None => unsafe { (addr as *mut u8).write_bytes(POISON_FREE, b.size) },
                }
                b.id
            }
        }
    }
    fn sel_ids(&mut self, aid: u32) -> (i32, i32) {
        // Selector used last with this allocator.
        match self.sel {
            Some(s) if self.sel_aid == aid => {
                let ty = self.types.iter().position(|t| {
                    *t == AllocSelectorOf(s).without_marker(t)
                });
                (marker_id(s.marker()), ty.map_or(-1, |i| i as i32))
            }
            _ => (-2, -2),
        }
    }
}

struct AllocSelectorOf(AllocSelector);
impl AllocSelectorOf {
    /// A selector equal to `t` exactly if the types are the same.
    fn without_marker(&self, t: &AllocSelector) -> AllocSelector {
        if self.0.ty() == t.ty() {
            *t
        } else {
            self.0
        }
    }
}

unsafe impl GlobalAlloc for TrackAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        heap(|h| {
            if layout.size() == 0 {
                anomaly("zero_size");
            }
            let (marker, ty) = h.sel_ids(self.0);
            let mut r = Req {
                kind: b'a',
                blk: 0,
                aid: self.0,
                size: layout.size(),
                align: layout.align(),
                blk2: 0,
                size2: 0,
                marker,
                ty,
            };
            if h.refuse(layout.size()) {
                r.kind = b'f';
                push_req(r);
                return std::ptr::null_mut();
            }
            let (addr, id) = h.new_block(self.0, layout);
            r.blk = id;
            push_req(r);
            addr as *mut u8
        })
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        heap(|h| {
            if layout.size() == 0 {
                anomaly("zero_size");
            }
            let blk = h.release(self.0, ptr as usize, layout);
            push_req(Req {
                kind: b'd',
                blk,
                aid: self.0,
                size: layout.size(),
                align: layout.align(),
                blk2: 0,
                size2: 0,
                marker: 0,
                ty: 0,
            });
        })
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        heap(|h| {
            if layout.size() == 0 || new_size == 0 {
                anomaly("zero_size");
            }
            let mut r = Req {
                kind: b'r',
                blk: 0,
                aid: self.0,
                size: layout.size(),
                align: layout.align(),
                blk2: 0,
                size2: new_size,
                marker: 0,
                ty: 0,
            };
            if h.refuse(new_size) {
                r.kind = b'g';
                r.blk = h.blocks.get(&(ptr as usize)).map_or(0, |b| b.id);
                push_req(r);
                return std::ptr::null_mut();
            }
            let Ok(nl) = Layout::from_size_align(new_size, layout.align()) else {
                anomaly("wrong_layout");
                return std::ptr::null_mut();
            };
            // A resized block always moves.
            let old = h.blocks.get(&(ptr as usize)).filter(|b| b.live).map(|b| b.size);
            let (addr, id) = h.new_block(self.0, nl);
            if let Some(old) = old {
                std::ptr::copy_nonoverlapping(ptr, addr as *mut u8, old.min(new_size));
            }
            r.blk = h.release(self.0, ptr as usize, layout);
            r.blk2 = id;
            push_req(r);
            addr as *mut u8
        })
    }
}

/// Which block an address lies in: (id, live, size).
pub fn block_at(addr: usize) -> Option<(u32, bool, usize)> {
    heap(|h| {
        h.blocks.range(..=addr).next_back().and_then(|(a, b)| {
            if addr < a + b.size.max(1) {
                Some((b.id, b.live, b.size - (addr - a).min(b.size)))
            } else {
                None
            }
        })
    })
}

pub fn live_blocks() -> Vec<u32> {
    heap(|h| h.blocks.values().filter(|b| b.live).map(|b| b.id).collect())
}

/// Check that nothing was written around blocks, or into those already released.
pub fn check_blocks() {
    heap(|h| {
        for (a, b) in &h.blocks {
            if b.live {
                if !Heap::zones_ok(b, *a) {
                    anomaly("out_of_bounds");
                }
            } else if b.slot.is_some() {
                // Nobody can have written there.
            } else if !(0..b.size).all(|i| unsafe { *((*a + i) as *const u8) } == POISON_FREE) {
                anomaly("write_after_free");
            }
        }
    })
}

pub fn heap_reset(types: &[AllocSelector]) {
    heap(|h| {
        for (_, b) in std::mem::take(&mut h.blocks) {
            if let Some(i) = b.slot {
                if !b.live {
                    h.guarded.protect(i, 3);
                }
                continue;
            }
            unsafe { std::alloc::dealloc(b.base as *mut u8, b.raw_layout) };
        }
        let mut guarded = std::mem::take(&mut h.guarded);
        guarded.used = 0;
        if !cfg!(debug_assertions) {
            guarded.on();
        }
        *h = Heap::default();
        h.guarded = guarded;
        h.types = types.to_vec();
    })
}
pub fn heap_arm(fail_at: u32, all: bool) {
    heap(|h| {
        h.fail_at = fail_at;
        h.fail_all = all;
        h.nreq = 0;
        h.refused = 0;
    })
}
pub fn heap_refused() -> u32 {
    heap(|h| h.refused)
}

// ------------------------------------------------------------------ scopes

pub const NSCOPE: u32 = 8;
static ALLOCS: [TrackAlloc; (NSCOPE * NMARK) as usize + 1] = {
    let mut a = [const { TrackAlloc(0) }; (NSCOPE * NMARK) as usize + 1];
    let mut i = 0;
    while i < a.len() {
        a[i] = TrackAlloc(i as u32);
        i += 1;
    }
    a
};

/// A scope that selects allocator `scope * NMARK + marker + 1`.
pub struct TrackScope {
    pub id: u32,
    pub pad: [u64; 3],
}
impl TrackScope {
    pub fn new(id: u32) -> Self {
        TrackScope { id, pad: [0x5C09_E5C0; 3] }
    }
}
impl Scope for TrackScope {
    fn alloc_for(&self, selector: AllocSelector) -> &dyn GlobalAlloc {
        if self.pad != [0x5C09_E5C0; 3] {
            anomaly("dead_scope");
        }
        let m = marker_id(selector.marker()).max(0) as u32;
        let aid = (self.id % NSCOPE) * NMARK + m + 1;
        heap(|h| {
            h.sel = Some(selector);
            h.sel_aid = aid;
        });
        &ALLOCS[aid as usize]
    }
}
impl Drop for TrackScope {
    fn drop(&mut self) {
        self.pad = [0; 3];
    }
}

fn env() -> &'static mut Env {
    thread_local! {
        static E: *mut Env = Box::into_raw(Box::new(Env::new(Box::leak(Box::new(TrackScope::new(0))))));
    }
    E.with(|e| unsafe { &mut **e })
}

pub fn init() {
    unsafe { lokky::scope::ENV = Some(env) };
    std::panic::set_hook(Box::new(|_| {}));
}

// ------------------------------------------------------------------ output

pub struct Json(pub String);
impl Json {
    pub fn new() -> Self {
        Json(String::from("{"))
    }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        let _ = write!(self.0, "\"{k}\":");
    }
    pub fn s(&mut self, k: &str, v: &str) -> &mut Self {
        self.key(k);
        let _ = write!(self.0, "\"{}\"", v.replace('\\', "\\\\").replace('"', "\\\""));
        self
    }
    pub fn n(&mut self, k: &str, v: i64) -> &mut Self {
        self.key(k);
        let _ = write!(self.0, "{v}");
        self
    }
    pub fn ns<I: IntoIterator<Item = i64>>(&mut self, k: &str, v: I) -> &mut Self {
        self.key(k);
        self.0.push('[');
        for (i, x) in v.into_iter().enumerate() {
            let _ = write!(self.0, "{}{x}", if i > 0 { "," } else { "" });
        }
        self.0.push(']');
        self
    }
    pub fn ss<'a, I: IntoIterator<Item = &'a str>>(&mut self, k: &str, v: I) -> &mut Self {
        self.key(k);
        self.0.push('[');
        for (i, x) in v.into_iter().enumerate() {
            let x: String = x.chars().map(|c| if c == '"' || c == '\\' || c < ' ' { '?' } else { c }).collect();
            let _ = write!(self.0, "{}\"{x}\"", if i > 0 { "," } else { "" });
        }
        self.0.push(']');
        self
    }
    pub fn raw(&mut self, k: &str, v: &str) -> &mut Self {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn pairs(&mut self, k: &str, v: &[(u32, u32)]) -> &mut Self {
        self.key(k);
        self.0.push_str(&pairs(v));
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
pub fn pairs(v: &[(u32, u32)]) -> String {
    let mut s = String::from("[");
    for (i, (a, b)) in v.iter().enumerate() {
        let _ = write!(s, "{}[{a},{b}]", if i > 0 { "," } else { "" });
    }
    s.push(']');
    s
}

/// TLC integers have 32 bits.
pub fn clamp(n: usize) -> i64 {
    if n > (1 << 30) {
        1 << 30
    } else {
        n as i64
    }
}

pub fn out_line(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

/// Take the log of the step that just ended and add it to an event.
pub fn step_fields(j: &mut Json) {
    let st = STEP.with(|s| std::mem::take(&mut *s.borrow_mut()));
    j.n("why", st.why);
    j.ss("an", st.anomalies.iter().copied());
    j.ns("dr", st.drops.iter().map(|x| *x as i64));
    let mut s = String::from("[");
    for (i, (a, b, c)) in st.created.iter().enumerate() {
        let _ = write!(s, "{}[{a},{b},{c}]", if i > 0 { "," } else { "" });
    }
    s.push(']');
    j.raw("cr", &s);
    j.ns("lg", st.calls.iter().copied());
    j.n("zd", st.zdrops as i64);
    j.n("zc", st.zcreated as i64);
    let mut s = String::from("[");
    for (i, r) in st.reqs.iter().enumerate() {
        let _ = write!(
            s,
            "{}{{\"k\":\"{}\",\"b\":{},\"a\":{},\"s\":{},\"al\":{},\"b2\":{},\"s2\":{},\"m\":{},\"t\":{}}}",
            if i > 0 { "," } else { "" },
            r.kind as char,
            r.blk,
            r.aid,
            clamp(r.size),
            clamp(r.align),
            r.blk2,
            clamp(r.size2),
            r.marker,
            r.ty
        );
    }
    s.push(']');
    j.raw("rq", &s);
}
pub fn step_reset() {
    STEP.with(|s| *s.borrow_mut() = Step::default());
}

/// Run `f`, telling apart: completed, injected panic, other panic.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, bool> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.is::<Injected>())
}

extern "C" {
    fn alarm(seconds: u32) -> u32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
}
/// End the process (by SIGPROF or SIGALRM) should it work for `cpu` seconds or wait for twenty.
pub fn watchdog(cpu: u32) {
    unsafe {
        setitimer(2, &[0, 0, cpu as i64, 0], std::ptr::null_mut());
        alarm(20);
    }
}
pub fn quiet(q: bool) {
    QUIET.with(|c| c.set(q));
}

pub fn parse_list(s: &str) -> Vec<u32> {
    if s == "-" {
        vec![]
    } else {
        s.split(',').map(|x| x.parse().unwrap()).collect()
    }
}
