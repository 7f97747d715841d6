//! Driver for contents of any size: two containers of elements that each have a number of their
//! own, observed as runs of consecutive numbers.
use harness::{out_line, watchdog, Json};
use lokky::scope::{AllocSelector, Env, Scope};
use lokky::small_vec::SmallVec;
use lokky::string::String as LStr;
use lokky::vec::Vec as LVec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::Read;

// ------------------------------------------------------------------ memory

thread_local! {
    static BLOCKS: RefCell<HashMap<usize, Layout>> = RefCell::new(HashMap::new());
    static BADMEM: Cell<i64> = const { Cell::new(0) };
}
fn bad() {
    BADMEM.with(|b| b.set(b.get() + 1))
}
/// Checks that blocks come back once, with the layout they were requested with.
struct Chk;
unsafe impl GlobalAlloc for Chk {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            bad();
            return l.align() as *mut u8;
        }
        let p = System.alloc(l);
        BLOCKS.with(|b| b.borrow_mut().insert(p as usize, l));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match BLOCKS.with(|b| b.borrow_mut().remove(&(p as usize))) {
            None => bad(),
            Some(was) => {
                if was != l {
                    bad()
                }
                std::ptr::write_bytes(p, 0xdd, was.size());
                System.dealloc(p, was)
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        match BLOCKS.with(|b| b.borrow_mut().remove(&(p as usize))) {
            None => {
                bad();
                p
            }
            Some(was) => {
                if was != l || size == 0 {
                    bad()
                }
                let q = System.realloc(p, was, size.max(1));
                BLOCKS.with(|b| b.borrow_mut().insert(q as usize, Layout::from_size_align_unchecked(size.max(1), was.align())));
                q
            }
        }
    }
}
static CHK: Chk = Chk;
struct Sc;
impl Scope for Sc {
    fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
        &CHK
    }
}
fn env() -> &'static mut Env {
    thread_local!(static E: Cell<*mut Env> = const { Cell::new(std::ptr::null_mut()) });
    E.with(|e| {
        if e.get().is_null() {
            e.set(Box::into_raw(Box::new(Env::new(Box::leak(Box::new(Sc))))));
        }
        unsafe { &mut *e.get() }
    })
}

// ------------------------------------------------------------------ elements

thread_local! {
    static LIFE: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static GONE: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static TWICE: Cell<i64> = const { Cell::new(0) };
    static NEXT: Cell<u32> = const { Cell::new(1) };
    static BY: Cell<u32> = const { Cell::new(0) };
}
fn wrong() {
    TWICE.with(|t| t.set(t.get() + 1))
}
struct W(u32);
fn born(v: u32) -> W {
    LIFE.with(|l| {
        let mut l = l.borrow_mut();
        let v = v as usize;
        if v > 1 << 24 {
            wrong();
            return;
        }
        if l.len() <= v {
            l.resize(v + v / 2 + 16, 0)
        }
        if l[v] != 0 {
            wrong()
        }
        l[v] = 1;
    });
    W(v)
}
fn fresh() -> u32 {
    NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    })
}
impl Clone for W {
    fn clone(&self) -> Self {
        born(self.0.wrapping_add(BY.with(|b| b.get())))
    }
}
impl Drop for W {
    fn drop(&mut self) {
        let v = self.0 as usize;
        LIFE.with(|l| match l.borrow_mut().get_mut(v) {
            Some(x) if *x == 1 => {
                *x = 2;
                GONE.with(|g| g.borrow_mut().push(v as u32))
            }
            _ => wrong(),
        })
    }
}

/// What elements are compared by: copies, of the last copying, count as their originals.
impl W {
    fn key(&self) -> u32 {
        let by = BY.with(|b| b.get());
        if self.0 >= by { self.0 - by } else { self.0 }
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        self.key() == o.key()
    }
}
impl Eq for W {}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for W {
    fn cmp(&self, o: &W) -> std::cmp::Ordering {
        self.key().cmp(&o.key())
    }
}
impl std::hash::Hash for W {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}

fn compare<C: Ord + std::hash::Hash>(a: &C, b: &C) {
    use std::hash::{BuildHasher, BuildHasherDefault};
    let h = BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default();
    let o = a.cmp(b);
    let all = a.partial_cmp(b) == Some(o) && b.cmp(a) == o.reverse()
        && [a < b, a <= b, a > b, a >= b] == [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()];
    CMP.with(|c| c.set([(a == b) as i64, (a != b) as i64, o as i64, (h.hash_one(a) == h.hash_one(b)) as i64, all as i64]));
}
fn told(x: [usize; 3]) {
    CMP.with(|c| c.set([x[0].min(1 << 30) as i64, x[1].min(1 << 30) as i64, x[2].min(1 << 30) as i64, 0, 0]))
}

fn ch(v: u32) -> char {
    char::from_u32(if v < 0xD800 { v } else { v + 0x800 }).unwrap_or('\u{10ffff}')
}
fn val(c: char) -> u32 {
    let c = c as u32;
    if c < 0xD800 { c } else { c - 0x800 }
}

fn runs<I: IntoIterator<Item = u32>>(it: I) -> String {
    let mut rs: Vec<(u32, u32)> = vec![];
    for v in it {
        let n = rs.len();
        match rs.last_mut() {
            Some(r) if r.0 as u64 + r.1 as u64 == v as u64 => r.1 += 1,
            _ if n < 60 => rs.push((v & 0x3fff_ffff, 1)),
            _ => {
                rs.push((0, 0)); // too many to be right
                break;
            }
        }
    }
    let mut s = String::from("[");
    for (i, r) in rs.iter().enumerate() {
        if i > 0 {
            s.push(',')
        }
        s += &format!("[{},{}]", r.0, r.1);
    }
    s + "]"
}

thread_local!(static CMP: Cell<[i64; 5]> = const { Cell::new([0; 5]) });

// ------------------------------------------------------------------ containers

#[derive(Clone, Default)]
struct Op {
    op: String,
    i: usize,
    j: usize,
    n: usize,
    m: usize,
}

trait Con {
    fn step(&mut self, o: &Op, y: &mut [Vec<u32>; 2]) -> bool;
    fn seen(&self) -> [Vec<u32>; 2];
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
}

/// A copy: what it clones gets new numbers.
fn copying<R>(f: impl FnOnce() -> R) -> R {
    let n = NEXT.with(|n| n.get());
    BY.with(|b| b.set(n));
    let r = f();
    NEXT.with(|x| x.set(2 * n));
    r
}

macro_rules! sequence {
    ($name:ident, $t:ty, ($($g:tt)*), ($($a:tt)*), $place:expr) => {
        struct $name<$($g)*> { a: $t, b: $t }
        impl<$($g)*> Con for $name<$($a)*> {
            fn step(&mut self, o: &Op, y: &mut [Vec<u32>; 2]) -> bool {
                let a = &mut self.a;
                match &o.op[..] {
                    "ext" => a.extend((0..o.n).map(|_| born(fresh()))),
                    "push" => (0..o.n).for_each(|_| a.push(born(fresh()))),
                    "rw" => a.resize_with(a.len() + o.n, || born(fresh())),
                    "trunc" => a.truncate(o.n),
                    "clear" => a.clear(),
                    "drain" => {
                        let mut d = a.drain(o.i..o.j);
                        for _ in 0..o.n {
                            match d.next() { Some(w) => y[0].push(w.0), None => break }
                        }
                        for _ in 0..o.m {
                            match d.next_back() { Some(w) => y[1].push(w.0), None => break }
                        }
                        if d.len() != (o.j - o.i).saturating_sub(o.n + o.m) { wrong() }
                    }
                    "into" => {
                        let all = std::mem::take(a).into_vec_();
                        let n = all.len();
                        let mut d = all.into_iter();
                        for _ in 0..o.n {
                            match d.next() { Some(w) => y[0].push(w.0), None => break }
                        }
                        for _ in 0..o.m {
                            match d.next_back() { Some(w) => y[1].push(w.0), None => break }
                        }
                        if d.len() != n.saturating_sub(o.n + o.m) { wrong() }
                    }
                    "split" => { let x = parted(a, o.i, o.n); self.b = x }
                    "append" => a.append(&mut self.b),
                    "swap" => std::mem::swap(a, &mut self.b),
                    "ins" => a.insert(o.i, born(fresh())),
                    "rem" => if a.len() > 0 { y[0].push(a.remove(o.i).0) },
                    "srem" => if a.len() > 0 { y[0].push(a.swap_remove(o.i).0) },
                    "pop" => for _ in 0..o.n {
                        match a.pop() { Some(w) => y[1].push(w.0), None => break }
                    },
                    "retain" => a.retain(|w| (w.0 as usize) < o.i || w.0 as usize >= o.j),
                    "dedup" => a.dedup_by_key(|w| w.0 as usize / o.n),
                    "clone" => {
                        let x = copying(|| match o.n {
                            0 => a.clone(),
                            1 => <$t>::from(a.as_slice()),
                            _ => <$t>::from(a.as_mut_slice()),
                        });
                        self.b = x
                    }
                    "exts" => copying(|| a.extend_from_slice(&self.b)),
                    "shrink" => a.shrink_to_fit(),
                    "cmp" => compare(&self.a, &self.b),
                    "shrto" => {
                        let was = a.capacity();
                        a.shrink_to(o.n);
                        told([was, a.capacity(), a.len()])
                    }
                    "new" => {
                        self.b = if o.m == 0 { <$t>::with_capacity(o.n) } else { <$t>::new() };
                        if o.m == 1 { self.b.reserve(o.n) }
                        if o.m == 2 { self.b.reserve_exact(o.n) }
                        told([self.b.capacity(), 0, 0])
                    }
                    "room" => {
                        match o.m {
                            0 => a.reserve(o.n),
                            1 => a.reserve_exact(o.n),
                            2 => if a.try_reserve(o.n).is_err() { return false },
                            _ => if a.try_reserve_exact(o.n).is_err() { return false },
                        }
                        let (at, cap) = (a.as_slice().as_ptr(), a.capacity());
                        (0..o.n).for_each(|_| a.push(born(fresh())));
                        told([cap, (at == a.as_slice().as_ptr() && cap == a.capacity()) as usize, 0])
                    }
                    "place" => {
                        let x = std::mem::take(a);
                        *a = $place(x, o.n)
                    }
                    _ => return false,
                }
                true
            }
            fn seen(&self) -> [Vec<u32>; 2] {
                [self.a.as_slice().iter().map(|w| w.0).collect(), self.b.as_slice().iter().map(|w| w.0).collect()]
            }
            fn len(&self) -> usize { self.a.len() }
            fn cap(&self) -> usize { self.a.capacity() }
        }
    };
}
trait IntoVec {
    fn into_vec_(self) -> LVec<W>;
}
impl IntoVec for LVec<W> {
    fn into_vec_(self) -> LVec<W> {
        self
    }
}
impl<const N: usize> IntoVec for SmallVec<W, N> {
    fn into_vec_(self) -> LVec<W> {
        self.into_vec()
    }
}
fn place_vec(v: LVec<W>, n: usize) -> LVec<W> {
    match n {
        0 => LVec::from(v.into_boxed_slice()),
        1 => v.into_iter().collect(),
        _ => SmallVec::<W, 9>::from(v).into_vec(),
    }
}
fn place_small<const N: usize>(mut v: SmallVec<W, N>, n: usize) -> SmallVec<W, N> {
    match n {
        0 => v.move_to_heap(),
        1 => drop(v.try_move_to_stack()),
        2 => v = SmallVec::from(v.into_vec()),
        3 => v = SmallVec::from(v.into_boxed_slice()),
        _ => v = v.into_vec().into_iter().collect(),
    }
    v
}
trait Parted: Sized {
    fn parted(&mut self, at: usize, n: usize) -> Self;
}
fn parted<P: Parted>(p: &mut P, at: usize, n: usize) -> P {
    p.parted(at, n)
}
impl Parted for LVec<W> {
    fn parted(&mut self, at: usize, _: usize) -> Self {
        self.split_off(at)
    }
}
impl<const N: usize> Parted for SmallVec<W, N> {
    fn parted(&mut self, at: usize, n: usize) -> Self {
        match n {
            0 => self.split_off(at),
            1 => SmallVec::from(self.split_off_into::<9>(at).into_vec()),
            _ => SmallVec::from(self.split_off_into::<400>(at).into_vec()),
        }
    }
}
trait ExtendVec {
    fn extend(&mut self, it: impl Iterator<Item = W>);
}
impl ExtendVec for LVec<W> {
    fn extend(&mut self, it: impl Iterator<Item = W>) {
        self.extend_from_iter(it)
    }
}
sequence!(V, LVec<W>, (), (), place_vec);
sequence!(S, SmallVec<W, N>, (const N: usize), (N), place_small);

struct T {
    a: LStr,
    b: LStr,
}
impl T {
    fn at(&self, i: usize) -> usize {
        self.a.as_str().char_indices().nth(i).map_or(self.a.len(), |x| x.0)
    }
}
impl Con for T {
    fn step(&mut self, o: &Op, y: &mut [Vec<u32>; 2]) -> bool {
        match &o.op[..] {
            "ext" => self.a.extend((0..o.n).map(|_| ch(fresh()))),
            "push" => (0..o.n).for_each(|_| self.a.push(ch(fresh()))),
            "rw" => {
                let s: String = (0..o.n).map(|_| ch(fresh())).collect();
                self.a.push_str(&s)
            }
            "trunc" => {
                let k = self.at(o.n);
                self.a.truncate(k)
            }
            "clear" => self.a.clear(),
            "split" => {
                let k = self.at(o.i);
                self.b = self.a.split_off(k)
            }
            "append" => {
                self.a += self.b.as_str();
                self.b.clear()
            }
            "swap" => std::mem::swap(&mut self.a, &mut self.b),
            "ins" => {
                let k = self.at(o.i);
                self.a.insert(k, ch(fresh()))
            }
            "insb" => {
                let k = self.at(o.i);
                self.a.insert_str(k, self.b.as_str())
            }
            "rem" => {
                let k = self.at(o.i);
                if self.a.len() > 0 {
                    y[0].push(val(self.a.remove(k)))
                }
            }
            "pop" => {
                for _ in 0..o.n {
                    match self.a.pop() {
                        Some(c) => y[1].push(val(c)),
                        None => break,
                    }
                }
            }
            "retain" => self.a.retain(|c| (val(c) as usize) < o.i || val(c) as usize >= o.j),
            "clone" => self.b = match o.n {
                0 => self.a.clone(),
                1 => LStr::from(self.a.as_str()),
                _ => LStr::from(&self.a),
            },
            "exts" => match o.n {
                0 => self.a.push_str(self.b.as_str()),
                1 => self.a.extend(self.b.as_str().chars()),
                2 => self.a.extend(self.b.as_str().split_inclusive(|c| val(c) % 997 == 0)),
                3 => self.a.extend(self.b.as_str().chars().map(|c| LStr::from(c)).filter(|_| true)),
                _ => {
                    use std::fmt::Write;
                    let _ = write!(self.a, "{}", self.b);
                }
            },
            "shrink" => self.a.shrink_to_fit(),
            "cmp" => compare(&self.a, &self.b),
            "shrto" => {
                let was = self.a.capacity();
                self.a.shrink_to(o.n);
                told([was, self.a.capacity(), self.a.len()])
            }
            "new" => {
                self.b = if o.m == 0 { LStr::with_capacity(o.n) } else { LStr::new() };
                if o.m == 1 {
                    self.b.reserve(o.n)
                }
                if o.m == 2 {
                    self.b.reserve_exact(o.n)
                }
                told([self.b.capacity(), 0, 0])
            }
            "room" => {
                let s: String = (0..o.n).map(|_| ch(fresh())).collect();
                match o.m {
                    0 => self.a.reserve(s.len()),
                    1 => self.a.reserve_exact(s.len()),
                    2 => {
                        if self.a.try_reserve(s.len()).is_err() {
                            return false;
                        }
                    }
                    _ => {
                        if self.a.try_reserve_exact(s.len()).is_err() {
                            return false;
                        }
                    }
                }
                let (at, cap) = (self.a.as_str().as_ptr(), self.a.capacity());
                self.a.push_str(&s);
                told([1 << 30, (at == self.a.as_str().as_ptr() && cap == self.a.capacity()) as usize, 0])
            }
            "recode" => {
                self.b = match o.n {
                    0 => {
                        let mut v = LVec::new();
                        v.extend_from_slice(self.a.as_bytes());
                        match LStr::from_utf8(v) {
                            Ok(s) => s,
                            Err(_) => return false,
                        }
                    }
                    1 => {
                        let v: Vec<u16> = self.a.as_str().encode_utf16().collect();
                        match LStr::from_utf16(&v) {
                            Ok(s) => s,
                            Err(_) => return false,
                        }
                    }
                    2 => self.a.as_str().chars().collect(),
                    _ => self.a.as_str().parse().unwrap_or_default(),
                }
            }
            _ => return false,
        }
        true
    }
    fn seen(&self) -> [Vec<u32>; 2] {
        [&self.a, &self.b].map(|s| match std::str::from_utf8(s.as_bytes()) {
            Ok(s) => s.chars().map(val).collect(),
            Err(_) => vec![0, 0],
        })
    }
    fn len(&self) -> usize {
        self.a.as_str().chars().count()
    }
    fn cap(&self) -> usize {
        // In characters, at least as many as there are when all bytes fit.
        if self.a.capacity() >= self.a.len() { 1 << 30 } else { 0 }
    }
}

// ------------------------------------------------------------------

fn emit(o: &Op, c: Option<&dyn Con>, y: [Vec<u32>; 2], ok: bool) {
    let mut j = Json::new();
    j.s("op", &o.op);
    j.n("i", o.i as i64).n("j", o.j as i64).n("n", o.n as i64).n("m", o.m as i64);
    let [a, b] = c.map_or([vec![], vec![]], |c| c.seen());
    j.raw("a", &runs(a));
    j.raw("b", &runs(b));
    let [f, mut k] = y;
    k.reverse();
    j.raw("y1", &runs(f));
    j.raw("y2", &runs(k));
    let mut g = GONE.with(|g| std::mem::take(&mut *g.borrow_mut()));
    g.sort();
    j.raw("gone", &runs(g));
    j.n("twice", TWICE.with(|t| t.replace(0)).min(1 << 20));
    j.n("mem", BADMEM.with(|t| t.replace(0)).min(1 << 20));
    j.n("blocks", BLOCKS.with(|b| b.borrow().len()) as i64);
    j.n("len", c.map_or(0, |c| c.len()).min(1 << 30) as i64);
    j.n("cap", c.map_or(0, |c| c.cap()).min(1 << 30) as i64);
    j.ns("num", CMP.with(|c| c.replace([0; 5])));
    j.s("res", if ok { "ok" } else { "failed" });
    out_line(&j.end());
}

fn play(lines: &[String]) {
    unsafe { lokky::scope::ENV = Some(env) };
    let mut h = lines[0].split_whitespace().skip(1); // S <id> <kind>
    let id = h.next().unwrap();
    let kind = h.next().unwrap();
    println!("T {{\"id\":\"{id}\",\"k\":\"{kind}\",\"dbg\":{}", cfg!(debug_assertions) as i32);
    watchdog(10);
    LIFE.with(|l| l.borrow_mut().clear());
    NEXT.with(|n| n.set(1));
    let mut c: Box<dyn Con> = match kind {
        "vec" => Box::new(V { a: LVec::new(), b: LVec::new() }),
        "sv4" => Box::new(S::<4> { a: SmallVec::new(), b: SmallVec::new() }),
        "sv300" => Box::new(S::<300> { a: SmallVec::new(), b: SmallVec::new() }),
        "sv70000" => Box::new(S::<70000> { a: SmallVec::new(), b: SmallVec::new() }),
        "str" => Box::new(T { a: LStr::new(), b: LStr::new() }),
        _ => panic!("unknown configuration"),
    };
    for line in &lines[1..] {
        let mut w = line.split_whitespace();
        let mut o = Op { op: w.next().unwrap().into(), ..Op::default() };
        for kv in w {
            let (k, v) = kv.split_once('=').unwrap();
            let v: usize = v.parse().unwrap();
            match k {
                "i" => o.i = v,
                "j" => o.j = v,
                "n" => o.n = v,
                _ => o.m = v,
            }
        }
        // Positions that exist.
        let l = c.len();
        match &o.op[..] {
            "drain" => {
                o.i %= l + 1;
                o.j = o.i + o.j % (l - o.i + 1);
                o.n = o.n.min(o.j - o.i);
                o.m = o.m.min(o.j - o.i - o.n);
            }
            "into" => {
                o.n = o.n.min(l);
                o.m = o.m.min(l - o.n)
            }
            "split" | "ins" | "insb" => o.i %= l + 1,
            "rem" | "srem" => o.i %= l.max(1),
            "trunc" => o.n %= l + 1,
            "dedup" => o.n = o.n.max(l / 12).max(1),
            "new" | "room" | "shrto" => o.n %= 1 << 18,
            _ => (),
        }
        let mut y = [vec![], vec![]];
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.step(&o, &mut y))).unwrap_or(false);
        emit(&o, Some(&*c), y, ok);
    }
    drop(c);
    emit(&Op { op: "end".into(), ..Op::default() }, None, [vec![], vec![]], true);
    println!("E");
}

fn main() {
    harness::init();
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let from: usize = std::env::args().nth(1).map_or(0, |s| s.parse().unwrap());
    for (i, block) in input.split("\n.\n").enumerate() {
        let lines: Vec<String> = block.lines().filter(|l| !l.trim().is_empty()).map(|s| s.to_string()).collect();
        if i < from || lines.is_empty() {
            continue;
        }
        // Some of the containers are large and moved around.
        let t = std::thread::Builder::new().stack_size(1 << 26).spawn(move || play(&lines)).unwrap();
        if t.join().is_err() {
            std::process::abort()
        }
    }
}
