//! Driver for Vec, SmallVec, Box<[T]> and IntoIter: runs scripts (one operation per line) and
//! writes what happened at every step.
use harness::*;
use lokky::boxed::Box as LBox;
use lokky::scope::AllocSelector;
use lokky::small_vec::SmallVec;
use lokky::vec::{IntoIter, Vec as LVec};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::ops::{Bound, IndexMut};

const NSLOT: usize = 4;
const W: usize = 3; // inline capacity of the second kind of SmallVec

enum Obj<T: Tok, const N: usize> {
    V(LVec<T>),
    S(SmallVec<T, N>),
    W(SmallVec<T, W>),
    B(LBox<[T]>),
    I(IntoIter<T>),
    L(&'static mut [T]),
}

struct Ctx<T: Tok, const N: usize> {
    slots: Vec<Option<Obj<T, N>>>,
    last: Vec<String>,
    nscope: u32,
}

struct Op<'a> {
    name: &'a str,
    kv: HashMap<&'a str, &'a str>,
    line: &'a str,
}
impl<'a> Op<'a> {
    fn parse(line: &'a str) -> Self {
        let mut it = line.split_whitespace();
        let name = it.next().unwrap();
        let kv = it.map(|p| p.split_once('=').unwrap()).collect();
        Op { name, kv, line }
    }
    fn u(&self, k: &str) -> usize {
        self.kv.get(k).map_or(0, |v| v.parse().unwrap_or(0))
    }
    fn s(&self, k: &str) -> &'a str {
        self.kv.get(k).copied().unwrap_or("")
    }
    fn vs(&self) -> Vec<u32> {
        self.kv.get("v").map_or(vec![], |v| parse_list(v))
    }
    /// A size, possibly a huge one: `Hi`.
    fn size<T>(&self, k: &str, len: usize) -> usize {
        let s = self.s(k);
        let sz = std::mem::size_of::<T>().max(1);
        match s.strip_prefix('H') {
            None => s.parse().unwrap_or(0),
            Some("0") => usize::MAX,
            Some("1") => isize::MAX as usize / sz + 1,
            Some("2") => isize::MAX as usize / sz,
            Some("3") if len > 1 => usize::MAX - len + 2, // len + n wraps to 1
            Some("3") => usize::MAX,
            Some("4") => (usize::MAX / sz).saturating_add(2), // n * size wraps
            Some(_) => (1usize << 62) / sz,
        }
    }
}

#[derive(Default)]
struct Out<T> {
    res: &'static str,
    ret: Vec<T>,               // elements handed out
    seen: Vec<(u32, u32)>,     // elements looked at
    num: Vec<i64>,
    ins: Vec<(u32, u32)>,
    ob: Vec<(Vec<(u32, u32)>, i64)>,
    txt: Vec<String>,
}

/// What one view shows, and whether it is where the elements are.
fn seen_by<T: Tok>(out: &mut Out<T>, base: *const T, s: &[T]) {
    let at = s.is_empty() || std::ptr::eq(base, s.as_ptr());
    out.ob.push((looks(s), at as i64));
}

macro_rules! views {
    ($out:expr, $v:expr, $base:ident, $T:ty, [$($c:expr),*], [$($m:expr),*], $dbg:expr) => {{
        let v = $v;
        let base = v.$base().as_ptr();
        $( { let f: fn(&_) -> &[$T] = $c; seen_by($out, base, f(&*v)); } )*
        $( {
            // What is written through a view is what the others show.
            let f: fn(&mut _) -> &mut [$T] = $m;
            let at = { let s = f(&mut *v); s.reverse(); s.is_empty() || std::ptr::eq(base, s.as_ptr()) };
            $out.ob.push((looks(v.$base()), if at { 2 } else { 0 }));
            f(&mut *v).reverse();
        } )*
        $out.txt.extend($dbg(&*v));
    }};
}

fn looks<T: Tok>(s: &[T]) -> Vec<(u32, u32)> {
    s.iter().take(12000).map(|e| e.look()).collect()
}

/// Whether the slice lies where an object may keep elements: returns the block (-1 inline,
/// 0 none) or None if the memory is not valid.
fn place<T>(p: *const T, cap: usize, inline: Option<(usize, usize)>) -> Option<i64> {
    let bytes = cap.saturating_mul(std::mem::size_of::<T>());
    if let Some((a, l)) = inline {
        let p = p as usize;
        return if p >= a && p + bytes <= a + l { Some(-1) } else { None };
    }
    if bytes == 0 || std::mem::size_of::<T>() == 0 {
        return Some(0);
    }
    match block_at(p as usize) {
        Some((id, true, rest)) if bytes <= rest => Some(id as i64),
        _ => None,
    }
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn observe<T: Tok, const N: usize>(o: &Option<Obj<T, N>>) -> String {
    let mut j = Json::new();
    match o {
        None => {
            j.s("k", "-");
            j.raw("xs", "[]");
            j.n("cap", 0).n("hp", 0).n("blk", 0).n("mk", 0);
        }
        Some(Obj::V(v)) => {
            let cap = v.capacity();
            let blk = place(v.as_ptr(), cap, None);
            let len_ok = v.len() <= cap && v.as_slice().len() == v.len();
            let ok = v.is_empty() == (v.len() == 0)
                && v.is_full() == (v.len() == cap)
                && (!len_ok || (v.spare_len() == cap - v.len() && v.spare_capacity().len() == cap - v.len()));
            if !ok || !len_ok {
                anomaly("inconsistent")
            }
            j.s("k", "v");
            if blk.is_none() || !len_ok {
                anomaly("bad_storage");
                j.raw("xs", "[]");
            } else {
                j.pairs("xs", &looks(&v[..]));
            }
            j.n("cap", clamp(cap)).n("hp", 1).n("blk", blk.unwrap_or(-9));
            j.n("mk", marker_id(v.marker()) as i64);
        }
        Some(Obj::S(v)) => observe_sv(&mut j, "s", v),
        Some(Obj::W(v)) => observe_sv(&mut j, "w", v),
        Some(Obj::B(b)) => {
            let blk = place(b.as_ptr(), b.len(), None);
            j.s("k", "b");
            if blk.is_none() {
                anomaly("bad_storage");
                j.raw("xs", "[]");
            } else {
                j.pairs("xs", &looks(&b[..]));
            }
            j.n("cap", clamp(b.len())).n("hp", 1).n("blk", blk.unwrap_or(-9)).n("mk", 0);
        }
        Some(Obj::I(i)) => {
            let s = i.as_slice();
            let ok = i.len() == s.len()
                && i.size_hint() == (s.len(), Some(s.len()))
                && i.as_ref().len() == s.len();
            if !ok {
                anomaly("inconsistent");
            }
            let blk = if s.is_empty() {
                // The iterator owns its block also when nothing is left in it.
                let p = s.as_ptr() as usize;
                let b = block_at(p).or_else(|| block_at(p - 1));
                Some(b.map_or(0, |b| if std::mem::size_of::<T>() == 0 { 0 } else { b.0 as i64 }))
            } else {
                place(s.as_ptr(), s.len(), None)
            };
            j.s("k", "i");
            if blk.is_none() {
                anomaly("bad_storage");
                j.raw("xs", "[]");
            } else {
                j.pairs("xs", &looks(s));
            }
            j.n("cap", clamp(s.len())).n("hp", 1).n("blk", blk.unwrap_or(-9)).n("mk", 0);
        }
        Some(Obj::L(s)) => {
            let blk = place(s.as_ptr(), s.len(), None);
            j.s("k", "l");
            if blk.is_none() {
                anomaly("bad_storage");
                j.raw("xs", "[]");
            } else {
                j.pairs("xs", &looks(s));
            }
            j.n("cap", clamp(s.len())).n("hp", 1).n("blk", blk.unwrap_or(-9)).n("mk", 0);
        }
    }
    j.end()
}

fn observe_sv<T: Tok, const N: usize>(j: &mut Json, k: &str, v: &SmallVec<T, N>) {
    let cap = v.capacity();
    let heap = v.is_heap();
    let at = v as *const _ as usize;
    let inside = {
        let p = v.as_ptr() as usize;
        p >= at && p < at + std::mem::size_of_val(v).max(1)
    };
    let blk = if heap {
        place(v.as_ptr(), cap, None)
    } else {
        place(v.as_ptr(), cap, Some((at, std::mem::size_of_val(v))))
    };
    // What is reported about the storage has to be the truth.
    if std::mem::size_of::<T>() != 0 && cap > 0 && inside == heap {
        anomaly("storage_lie");
    }
    let len_ok = v.len() <= cap && v.as_slice().len() == v.len();
    let ok = v.is_empty() == (v.len() == 0)
        && v.is_full() == (v.len() == cap)
        && v.is_stack() != heap
        && (!len_ok || (v.spare_len() == cap - v.len() && v.spare_capacity().len() == cap - v.len()));
    if !ok || !len_ok {
        anomaly("inconsistent")
    }
    j.s("k", k);
    if blk.is_none() || !len_ok {
        anomaly("bad_storage");
        j.raw("xs", "[]");
    } else {
        j.pairs("xs", &looks(v.as_slice()));
    }
    j.n("cap", clamp(cap)).n("hp", heap as i64).n("blk", blk.unwrap_or(-9)).n("mk", -1);
}

/// A key: the value halved, or one that equals every key at most one away.
struct Key(u32, bool);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        if self.1 {
            self.0.abs_diff(o.0) <= 1
        } else {
            self.0 / 2 == o.0 / 2
        }
    }
}

/// Creates its elements when they are asked for.
struct Src<T> {
    vals: std::vec::IntoIter<u32>,
    hint: usize,
    made: std::rc::Rc<std::cell::RefCell<Vec<(u32, u32)>>>,
    _p: std::marker::PhantomData<T>,
}
impl<T: Tok> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick();
        let v = self.vals.next()?;
        let e = T::make(v);
        self.made.borrow_mut().push(e.look());
        Some(e)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint.min(self.vals.len()), None)
    }
}

fn make<T: Tok>(v: u32, ins: &mut Vec<(u32, u32)>) -> T {
    let e = T::make(v);
    ins.push(e.look());
    e
}

macro_rules! arr {
    ($vals:expr, $out:expr, $f:expr, $($n:literal)*) => {
        match $vals.len() {
            $($n => {
                let mut it = $vals.iter();
                let ins = &mut $out.ins;
                let a: [T; $n] = std::array::from_fn(|_| make::<T>(*it.next().unwrap(), ins));
                Some($f(a.into()))
            })*
            _ => None,
        }
    };
}

fn bounds<T>(op: &Op, len: usize) -> (Bound<usize>, Bound<usize>) {
    use Bound::*;
    let n = op.size::<T>("n", len);
    let m = op.size::<T>("m", len);
    match op.s("s") {
        "f" => (Unbounded, Unbounded),
        "r" => (Included(n), Excluded(m)),
        "ri" => (Included(n), Included(m)),
        "rf" => (Included(n), Unbounded),
        "rt" => (Unbounded, Excluded(m)),
        "rti" => (Unbounded, Included(m)),
        _ => (Excluded(n), Excluded(m)),
    }
}

/// Operations common to Vec and SmallVec.
macro_rules! common_ops {
    ($v:expr, $op:expr, $out:expr, $T:ty, $extend:ident, $asmut:ident) => {{
        let v = $v;
        let op = $op;
        let out = &mut *$out;
        let len = v.len();
        match op.name {
            "push" => {
                let e = make::<$T>(op.vs()[0], &mut out.ins);
                v.push(e)
            }
            "pop" => match v.pop() {
                Some(e) => out.ret.push(e),
                None => out.res = "none",
            },
            "ins" => {
                let e = make::<$T>(op.vs()[0], &mut out.ins);
                v.insert(op.size::<$T>("n", len), e)
            }
            "rem" => out.ret.push(v.remove(op.size::<$T>("n", len))),
            "swr" => out.ret.push(v.swap_remove(op.size::<$T>("n", len))),
            "trunc" => v.truncate(op.size::<$T>("n", len)),
            "clear" => v.clear(),
            "exts" => {
                let src: Vec<$T> = op.vs().iter().map(|x| <$T>::make(*x)).collect();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.extend_from_slice(&src)));
                quietly(|| drop(src));
                if let Err(e) = r {
                    std::panic::resume_unwind(e)
                }
            }
            "exti" => {
                let made = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
                let src = Src::<$T> {
                    vals: op.vs().into_iter(),
                    hint: op.u("n"),
                    made: made.clone(),
                    _p: Default::default(),
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.$extend(src)));
                out.ins = made.borrow().clone();
                if let Err(e) = r {
                    std::panic::resume_unwind(e)
                }
            }
            "resize" => {
                let e = make::<$T>(op.vs()[0], &mut out.ins);
                v.resize(op.size::<$T>("n", len), e)
            }
            "resizew" => {
                let mut x = op.vs()[0];
                let mut made = vec![];
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    v.resize_with(op.size::<$T>("n", len), || {
                        tick();
                        x += 1;
                        if x > 20000 {
                            panic!("too many")
                        }
                        make(x - 1, &mut made)
                    })
                }));
                out.ins = made;
                if let Err(e) = r {
                    std::panic::resume_unwind(e)
                }
            }
            "retain" => {
                let mask = op.u("m");
                v.retain(|e| {
                    let x = e.val();
                    call(x as i64);
                    tick();
                    mask >> (x % 16) & 1 == 1
                })
            }
            "dedup" => v.dedup(),
            "dedupk" => {
                let near = op.u("m") == 1;
                v.dedup_by_key(|e| {
                    let x = e.val();
                    tick();
                    Key(x, near)
                })
            }
            "dedupby" => {
                let mode = op.u("m");
                v.dedup_by(|a, b| {
                    let (x, y) = (a.val(), b.val());
                    call((x * 1000 + y) as i64);
                    tick();
                    match mode {
                        0 => x == y,
                        1 => x <= y + 1 && y <= x + 1,
                        2 => {
                            // Merging into the kept one.
                            if x == y {
                                b.set_val(y + 1);
                                true
                            } else {
                                false
                            }
                        }
                        _ => x > y,
                    }
                })
            }
            "reserve" => v.reserve(op.size::<$T>("n", len)),
            "reservex" => v.reserve_exact(op.size::<$T>("n", len)),
            "treserve" => {
                if let Err(x) = v.try_reserve(op.size::<$T>("n", len)) {
                    why(&x);
                    out.res = "err"
                }
            }
            "treservex" => {
                if let Err(x) = v.try_reserve_exact(op.size::<$T>("n", len)) {
                    why(&x);
                    out.res = "err"
                }
            }
            "shrinkf" => v.shrink_to_fit(),
            "shrink" => v.shrink_to(op.size::<$T>("n", len)),
            "set" => {
                let e = make::<$T>(op.vs()[0], &mut out.ins);
                let n = op.size::<$T>("n", len);
                let old = std::mem::replace(&mut v[n], e);
                out.ret.push(old);
            }
            "get" => {
                let n = op.size::<$T>("n", len);
                match v.get(n) {
                    Some(e) => out.num.push(e.look().1 as i64),
                    None => out.num.push(-1),
                }
                let x = v[n].look();
                out.seen.push(x);
                let p: &[$T] = v.as_ref();
                out.seen.push(p[n].look());
                let p: &[$T] = std::borrow::Borrow::borrow(&*v);
                out.seen.push(p[n].look());
                let p: &mut [$T] = v.as_mut_slice();
                out.seen.push(p[n].look());
                let p: &mut [$T] = std::borrow::BorrowMut::borrow_mut(&mut *v);
                out.seen.push(p[n].look());
            }
            "drain" => {
                let b = bounds::<$T>(op, len);
                let mut d = v.drain(b);
                for c in op.s("t").chars() {
                    match c {
                        'n' | 'b' => {
                            let e = if c == 'n' { d.next() } else { d.next_back() };
                            match e {
                                Some(e) => {
                                    out.ob.push((vec![e.look()], 1));
                                    out.ret.push(e);
                                }
                                None => out.ob.push((vec![], 0)),
                            }
                        }
                        'l' => {
                            let h = d.size_hint();
                            let l = d.len();
                            out.ob.push((vec![], if h == (l, Some(l)) { clamp(l) } else { -1 }))
                        }
                        _ => {
                            let s = looks(d.as_slice());
                            let l = s.len() as i64;
                            out.ob.push((s, l))
                        }
                    }
                }
                if op.s("e") == "F" {
                    std::mem::forget(d)
                } else {
                    drop(d)
                }
            }
            "fill" => {
                // Uses the reported spare room to its very end (at most 8 elements).
                let vals = op.vs();
                let sp = v.spare_capacity_mut();
                let k = sp.len();
                let k2 = k.min(vals.len());
                for i in 0..k2 {
                    sp[i].write(make(vals[i], &mut out.ins));
                }
                // Elements written beyond the length are not part of the collection: read back.
                for i in 0..k2 {
                    out.ret.push(unsafe { sp[i].assume_init_read() });
                }
                if k > 0 && std::mem::size_of::<$T>() > 0 {
                    let p = sp[k - 1].as_mut_ptr() as *mut u8;
                    unsafe { p.write_bytes(0x77, std::mem::size_of::<$T>()) };
                }
                out.num.push(clamp(k));
            }
            _ => {
                out.res = "unknown";
            }
        }
    }};
}

/// Run without injected panics.
fn quietly<R>(f: impl FnOnce() -> R) -> R {
    let k = disarm();
    let r = f();
    rearm(k);
    r
}

fn vec_op<T: Tok>(v: &mut LVec<T>, op: &Op, out: &mut Out<T>) {
    match op.name {
        "theap" | "toheap" | "tostack" | "extr" => out.res = "skip",
        "setlen" => {
            // Shrinking only; the elements cut off are read out first.
            let n = op.u("n").min(v.len());
            let l = v.len();
            unsafe {
                for i in n..l {
                    out.ret.push(std::ptr::read(&v[i]));
                }
                v.set_len(n);
            }
        }
        _ => common_ops!(v, op, out, T, extend_from_iter, as_mut),
    }
}

fn sv_op<T: Tok, const N: usize>(v: &mut SmallVec<T, N>, op: &Op, out: &mut Out<T>) {
    let len = v.len();
    match op.name {
        "setlen" => out.res = "skip",
        "extr" => {
            if !T::extend_refs(v, &op.vs()) {
                out.res = "skip"
            }
        }
        "theap" => {
            if let Err(x) = v.try_move_to_heap_and_reserve_exact(op.size::<T>("n", len)) {
                why(&x);
                out.res = "err"
            }
        }
        "toheap" => v.move_to_heap(),
        "tostack" => {
            if v.try_move_to_stack().is_err() {
                out.res = "err"
            }
        }
        _ => common_ops!(v, op, out, T, extend, as_mut_slice),
    }
}

fn cmp_all<A, T: Tok>(a: &A, b: &A, out: &mut Out<T>)
where
    A: Hash + Ord,
    A: std::ops::Deref<Target = [T]>,
{
    let o = |x: std::cmp::Ordering| x as i64;
    out.num = vec![
        (a == b) as i64,
        (a != b) as i64,
        o(a.cmp(b)),
        a.partial_cmp(b).map_or(9, o),
        (a < b) as i64,
        (a <= b) as i64,
        (a > b) as i64,
        (a >= b) as i64,
        (hash_of(a) == hash_of(b)) as i64,
        (hash_of(a) == hash_of(&a[..])) as i64,
        (hash_of(b) == hash_of(&b[..])) as i64,
    ];
    out.num.extend(partial(a, b));
}

fn exec<T: Tok, const N: usize>(c: &mut Ctx<T, N>, op: &Op, out: &mut Out<T>) {
    let a = op.u("a");
    let b = op.u("b");
    let k = op.s("s");
    let m = op.u("m") as u32;
    let skip = |out: &mut Out<T>| out.res = "skip";
    match op.name {
        "new" | "newm" | "def" | "cap" | "capm" | "tcap" | "tcapm" => {
            if c.slots[a].is_some() {
                return skip(out);
            }
            let n = op.size::<T>("n", 0);
            macro_rules! ctor {
                ($t:ty) => {
                    match op.name {
                        "new" => Some(<$t>::new()),
                        "def" => Some(<$t>::default()),
                        "newm" => Some(<$t>::with_marker(marker(m))),
                        "cap" => Some(<$t>::with_capacity(n)),
                        "capm" => Some(<$t>::with_capacity_and_marker(n, marker(m))),
                        "tcap" => <$t>::try_with_capacity(n).map_err(|x| why(&x)).ok(),
                        _ => <$t>::try_with_capacity_and_marker(n, marker(m)).map_err(|x| why(&x)).ok(),
                    }
                };
            }
            c.slots[a] = match k {
                "v" => ctor!(LVec<T>).map(Obj::V),
                "s" => ctor!(SmallVec<T, N>).map(Obj::S),
                _ => ctor!(SmallVec<T, W>).map(Obj::W),
            };
            if c.slots[a].is_none() {
                out.res = "err"
            }
        }
        "slice" | "mslice" => {
            if c.slots[a].is_some() {
                return skip(out);
            }
            let mut src: Vec<T> = op.vs().iter().map(|x| T::make(*x)).collect();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if op.name == "slice" {
                    match k {
                        "v" => Obj::V(LVec::from(&src[..])),
                        "s" => Obj::S(SmallVec::from(&src[..])),
                        _ => Obj::W(SmallVec::from(&src[..])),
                    }
                } else {
                    match k {
                        "v" => Obj::V(LVec::from(&mut src[..])),
                        "s" => Obj::S(SmallVec::from(&mut src[..])),
                        _ => Obj::W(SmallVec::from(&mut src[..])),
                    }
                }
            }));
            quietly(|| drop(src));
            match r {
                Ok(o) => c.slots[a] = Some(o),
                Err(e) => std::panic::resume_unwind(e),
            }
        }
        "arr" => {
            let vals = op.vs();
            if c.slots[a].is_some() || vals.len() > 6 {
                return skip(out);
            }
            c.slots[a] = match k {
                "v" => arr!(vals, out, Obj::V, 0 1 2 3 4 5 6),
                "s" => arr!(vals, out, Obj::S, 0 1 2 3 4 5 6),
                _ => arr!(vals, out, Obj::W, 0 1 2 3 4 5 6),
            };
        }
        "iter" => {
            if c.slots[a].is_some() {
                return skip(out);
            }
            let made = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
            let src = Src::<T> {
                vals: op.vs().into_iter(),
                hint: op.u("n"),
                made: made.clone(),
                _p: Default::default(),
            };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match k {
                "v" => Obj::V(src.collect()),
                "s" => Obj::S(src.collect()),
                _ => Obj::W(src.collect()),
            }));
            out.ins = made.borrow().clone();
            match r {
                Ok(o) => c.slots[a] = Some(o),
                Err(e) => std::panic::resume_unwind(e),
            }
        }
        "clone" => {
            if c.slots[b].is_some() {
                return skip(out);
            }
            let o = match &c.slots[a] {
                Some(Obj::V(v)) => Obj::V(v.clone()),
                Some(Obj::S(v)) => Obj::S(v.clone()),
                Some(Obj::W(v)) => Obj::W(v.clone()),
                _ => return skip(out),
            };
            c.slots[b] = Some(o);
        }
        "append" => {
            if a == b {
                return skip(out);
            }
            let mut other = c.slots[b].take();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                match (&mut c.slots[a], &mut other) {
                    (Some(Obj::V(x)), Some(Obj::V(y))) => x.append(y),
                    (Some(Obj::S(x)), Some(Obj::S(y))) => x.append(y),
                    (Some(Obj::W(x)), Some(Obj::W(y))) => x.append(y),
                    _ => out.res = "skip",
                }
            }));
            c.slots[b] = other;
            if let Err(e) = r {
                std::panic::resume_unwind(e)
            }
        }
        "splitoff" | "splitinto" => {
            if c.slots[b].is_some() || a == b {
                return skip(out);
            }
            let into = op.name == "splitinto";
            let o = match &mut c.slots[a] {
                Some(Obj::V(v)) if !into => Obj::V(v.split_off(op.size::<T>("n", v.len()))),
                Some(Obj::S(v)) if !into => Obj::S(v.split_off(op.size::<T>("n", v.len()))),
                Some(Obj::W(v)) if !into => Obj::W(v.split_off(op.size::<T>("n", v.len()))),
                Some(Obj::S(v)) => Obj::W(v.split_off_into::<W>(op.size::<T>("n", v.len()))),
                Some(Obj::W(v)) => Obj::S(v.split_off_into::<N>(op.size::<T>("n", v.len()))),
                _ => return skip(out),
            };
            c.slots[b] = Some(o);
        }
        "boxs" | "intovec" | "intoit" | "boxvec" | "boxsv" | "fromvec" | "leak" | "drop" | "forget"
        | "dwd" | "vecbox" => {
            let o = c.slots[a].take();
            let o = match (op.name, o) {
                ("drop", None) | ("forget", None) => return skip(out),
                ("drop", Some(o @ Obj::L(_))) => {
                    c.slots[a] = Some(o);
                    return skip(out);
                }
                ("drop", Some(o)) => {
                    drop(o);
                    None
                }
                ("forget", Some(o)) => {
                    std::mem::forget(o);
                    None
                }
                ("boxs", Some(Obj::V(v))) => Some(Obj::B(v.into_boxed_slice())),
                ("boxs", Some(Obj::S(v))) => Some(Obj::B(v.into_boxed_slice())),
                ("boxs", Some(Obj::W(v))) => Some(Obj::B(v.into_boxed_slice())),
                ("intovec", Some(Obj::S(v))) => Some(Obj::V(v.into_vec())),
                ("intovec", Some(Obj::W(v))) => Some(Obj::V(v.into_vec())),
                ("intoit", Some(Obj::V(v))) => Some(Obj::I(v.into_iter())),
                ("boxvec", Some(Obj::B(x))) => Some(Obj::V(LVec::from(x))),
                ("boxsv", Some(Obj::B(x))) => Some(if k == "w" {
                    Obj::W(SmallVec::from(x))
                } else {
                    Obj::S(SmallVec::from(x))
                }),
                ("fromvec", Some(Obj::V(x))) => Some(if k == "w" {
                    Obj::W(SmallVec::from(x))
                } else {
                    Obj::S(SmallVec::from(x))
                }),
                ("leak", Some(Obj::V(v))) => Some(Obj::L(v.leak())),
                ("dwd", Some(Obj::V(v))) => {
                    v.dealloc_without_drop();
                    None
                }
                (_, o) => {
                    out.res = "skip";
                    o
                }
            };
            c.slots[a] = o;
        }
        "next" | "back" => match &mut c.slots[a] {
            Some(Obj::I(i)) => {
                let e = if op.name == "next" { i.next() } else { i.next_back() };
                match e {
                    Some(e) => out.ret.push(e),
                    None => out.res = "none",
                }
            }
            _ => skip(out),
        },
        "itset" => match &mut c.slots[a] {
            Some(Obj::I(i)) => {
                let e = make::<T>(op.vs()[0], &mut out.ins);
                let n = op.u("n");
                out.ret.push(std::mem::replace(&mut i.as_slice_mut()[n], e));
            }
            _ => skip(out),
        },
        "cmp" => match (&c.slots[a], &c.slots[b]) {
            (Some(Obj::V(x)), Some(Obj::V(y))) => cmp_all(x, y, out),
            (Some(Obj::S(x)), Some(Obj::S(y))) => cmp_all(x, y, out),
            (Some(Obj::W(x)), Some(Obj::W(y))) => cmp_all(x, y, out),
            (Some(Obj::B(x)), Some(Obj::B(y))) => cmp_all(x, y, out),
            _ => skip(out),
        },
        "asv" => {
            // Views of a SmallVec as itself.
            match &mut c.slots[a] {
                Some(Obj::S(v)) => {
                    let r: &SmallVec<T, N> = v.as_ref();
                    out.seen = looks(r.as_slice());
                    let r: &mut SmallVec<T, N> = v.as_mut();
                    out.seen.extend(looks(r.as_slice()));
                }
                _ => skip(out),
            }
        }
        "view" => {
            use std::borrow::{Borrow, BorrowMut};
            match &mut c.slots[a] {
                Some(Obj::V(v)) => views!(
                    out, v, as_slice, T,
                    [|v: &LVec<T>| v.as_slice(), |v: &LVec<T>| &**v, |v: &LVec<T>| v.as_ref(), |v: &LVec<T>| v.borrow(),
                     |v: &LVec<T>| &v[..], |v: &LVec<T>| &v[0..], |v: &LVec<T>| &v[..v.len()],
                     // SAFETY: what a pointer to the elements is for.
                     |v: &LVec<T>| unsafe { std::slice::from_raw_parts(v.as_ptr(), v.len()) }],
                    [|v: &mut LVec<T>| v.as_mut_slice(), |v: &mut LVec<T>| &mut **v,
                     |v: &mut LVec<T>| AsMut::<[T]>::as_mut(v), |v: &mut LVec<T>| v.borrow_mut(),
                     |v: &mut LVec<T>| &mut v[..], |v: &mut LVec<T>| &mut v[0..],
                     // SAFETY: as above.
                     |v: &mut LVec<T>| unsafe { let n = v.len(); std::slice::from_raw_parts_mut(v.as_mut(), n) }],
                    |v: &LVec<T>| Some(debug_text(v, &&**v))
                ),
                Some(Obj::S(v)) => sv_views(v, out),
                Some(Obj::W(v)) => sv_views(v, out),
                Some(Obj::B(v)) => views!(
                    out, v, as_ref, T,
                    [|v: &LBox<[T]>| &**v, |v: &LBox<[T]>| v.as_ref()],
                    [|v: &mut LBox<[T]>| &mut **v, |v: &mut LBox<[T]>| v.as_mut()],
                    |v: &LBox<[T]>| Some(debug_text(v, &&**v))
                ),
                Some(Obj::I(v)) => views!(
                    out, v, as_slice, T,
                    [|v: &IntoIter<T>| v.as_slice(), |v: &IntoIter<T>| v.as_ref()],
                    [|v: &mut IntoIter<T>| v.as_slice_mut()],
                    |_: &IntoIter<T>| None::<String>
                ),
                _ => skip(out),
            }
        }
        "nop" => {}
        _ => match &mut c.slots[a] {
            Some(Obj::V(v)) => vec_op(v, op, out),
            Some(Obj::S(v)) => sv_op(v, op, out),
            Some(Obj::W(v)) => sv_op(v, op, out),
            _ => skip(out),
        },
    }
}

fn sv_views<T: Tok, const N: usize>(v: &mut SmallVec<T, N>, out: &mut Out<T>) {
    use std::borrow::{Borrow, BorrowMut};
    let n = v.len();
    for i in 0..n {
        let at = std::ptr::eq(&v[i], &v.as_slice()[i]);
        out.seen.push(if at { v[i].look() } else { (0, 0) });
        v[i].look();
        out.seen.push(IndexMut::index_mut(v, i).look());
    }
    views!(
        out, v, as_slice, T,
        [|v: &SmallVec<T, N>| v.as_slice(), |v: &SmallVec<T, N>| &**v, |v: &SmallVec<T, N>| v.as_ref(),
         |v: &SmallVec<T, N>| v.borrow(), |v: &SmallVec<T, N>| AsRef::<SmallVec<T, N>>::as_ref(v).as_slice(),
         // SAFETY: what a pointer to the elements is for.
         |v: &SmallVec<T, N>| unsafe { std::slice::from_raw_parts(v.as_ptr(), v.len()) }],
        [|v: &mut SmallVec<T, N>| v.as_mut_slice(), |v: &mut SmallVec<T, N>| &mut **v,
         |v: &mut SmallVec<T, N>| AsMut::<[T]>::as_mut(v), |v: &mut SmallVec<T, N>| v.borrow_mut(),
         |v: &mut SmallVec<T, N>| AsMut::<SmallVec<T, N>>::as_mut(v).as_mut_slice(),
         // SAFETY: as above.
         |v: &mut SmallVec<T, N>| unsafe { let n = v.len(); std::slice::from_raw_parts_mut(v.as_mut_ptr(), n) }],
        |v: &SmallVec<T, N>| Some(debug_text(v, &&**v))
    );
}

fn emit<T: Tok, const N: usize>(c: &mut Ctx<T, N>, op: &Op, out: Out<T>, inj: bool, af: u32) {
    let mut j = Json::new();
    j.s("op", op.name);
    j.n("a", op.u("a") as i64).n("b", op.u("b") as i64);
    let code = |s: &str| -> i64 {
        match s.strip_prefix('H') {
            Some(i) => 2_000_000_000 + i.parse::<i64>().unwrap(),
            None => s.parse().unwrap_or(0),
        }
    };
    j.n("n", code(op.s("n"))).n("m", code(op.s("m")));
    j.s("s", op.s("s"));
    j.ss("t", op.s("t").chars().map(|c| match c {
        'n' => "n",
        'b' => "b",
        'l' => "l",
        _ => "s",
    }));
    j.s("e", op.s("e"));
    j.ns("v", op.vs().iter().map(|x| *x as i64));
    j.s("res", if out.res.is_empty() { "ok" } else { out.res });
    j.n("inj", inj as i64).n("af", af as i64);
    j.n("pk", op.u("pk") as i64);
    j.pairs("in", &out.ins);
    let ret: Vec<_> = out.ret.iter().map(|e| e.look()).collect();
    j.pairs("ret", &ret);
    j.pairs("seen", &out.seen);
    j.ns("num", out.num.iter().copied());
    let ob: Vec<String> = out
        .ob
        .iter()
        .map(|(x, n)| format!("{{\"x\":{},\"n\":{}}}", pairs(x), n))
        .collect();
    j.raw("ob", &format!("[{}]", ob.join(",")));
    j.ss("txt", out.txt.iter().map(|s| s.as_str()));
    // What was handed out is dropped by its new owner.
    drop(out.ret);
    let mut ch = Vec::new();
    for i in 0..NSLOT {
        let s = observe(&c.slots[i]);
        if s != c.last[i] {
            ch.push(format!("{{\"i\":{i},\"o\":{s}}}"));
            c.last[i] = s;
        }
    }
    check_blocks();
    step_fields(&mut j);
    j.raw("sl", &format!("[{}]", ch.join(",")));
    out_line(&j.end());
    step_reset();
}

/// Runs operations until the end of the list, or until the scope is left.
fn run_ops<T: Tok, const N: usize>(c: &mut Ctx<T, N>, ops: &mut std::slice::Iter<Op>, depth: u32) -> bool {
    while let Some(op) = ops.next() {
        match op.name {
            "enter" => {
                c.nscope += 1;
                let id = c.nscope % NSCOPE;
                let r = guarded(|| {
                    lokky::scope::spawn(
                        |_| TrackScope::new(id),
                        |_| {
                            emit(c, op, Out::<T> { num: vec![id as i64], ..new_out() }, false, 0);
                            run_ops(c, ops, depth + 1)
                        },
                    )
                });
                if let Ok(false) = r {
                    return false;
                }
            }
            "leave" if depth > 0 => {
                emit(c, op, new_out(), false, 0);
                return true;
            }
            "leavep" if depth > 0 => {
                emit(c, op, new_out(), false, 0);
                std::panic::panic_any(Injected);
            }
            _ => {
                let mut out = new_out();
                step_reset();
                arm(op.u("pk") as u32);
                heap_arm(op.u("fk") as u32, op.u("fa") != 0);
                let r = guarded(|| exec(c, op, &mut out));
                let inj = fired();
                arm(0);
                let af = heap_refused();
                heap_arm(0, false);
                if let Err(_) = r {
                    out.res = "panic";
                }
                emit(c, op, out, inj, af);
            }
        }
    }
    false
}

fn new_out<T>() -> Out<T> {
    Out {
        res: "",
        ret: vec![],
        seen: vec![],
        num: vec![],
        ins: vec![],
        ob: vec![],
        txt: vec![],
    }
}

fn run<T: Tok, const N: usize>(head: &str, lines: &[&str]) {
    let (id, rest) = head.split_once(' ').unwrap_or((head, ""));
    heap_reset(&[AllocSelector::new::<T>()]);
    reg_reset();
    step_reset();
    println!(
        "T {{\"id\":\"{id}\",\"hd\":\"{rest}\",\"ty\":\"{}\",\"N\":{N},\"W\":{W},\"esz\":{},\"al\":{},\"dbg\":{}",
        if T::IDENT { "u" } else if T::NAME == "zst" { "z" } else { "p" },
        std::mem::size_of::<T>(),
        std::mem::align_of::<T>(),
        cfg!(debug_assertions) as i32,
    );
    watchdog(3);
    let mut c = Ctx::<T, N> {
        slots: (0..NSLOT).map(|_| None).collect(),
        last: vec![],
        nscope: 0,
    };
    c.last = c.slots.iter().map(observe).collect();
    let ops: Vec<Op> = lines.iter().map(|l| Op::parse(l)).collect();
    run_ops(&mut c, &mut ops.iter(), 0);
    // The end: everything left is dropped.
    step_reset();
    let mut out = new_out();
    let r = guarded(|| {
        for s in &mut c.slots {
            match s.take() {
                Some(o @ Obj::L(_)) => *s = Some(o),
                o => drop(o),
            }
        }
    });
    if r.is_err() {
        out.res = "panic";
    }
    // Elements and blocks still there.
    out.num = live_blocks().iter().map(|x| *x as i64).collect();
    let op = Op::parse("end");
    let live: Vec<(u32, u32)> = reg_live().iter().map(|u| (*u, 0)).collect();
    out.seen = live;
    emit(&mut c, &op, out, false, 0);
    let _ = op.line;
    println!("E");
    for s in c.slots {
        std::mem::forget(s);
    }
}

fn main() {
    init();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    // Which scripts to run: a range of indices.
    let from: usize = std::env::args().nth(1).map_or(0, |s| s.parse().unwrap());
    for (i, block) in text.split("\n.\n").enumerate() {
        if i < from {
            continue;
        }
        let lines: Vec<&str> = block.lines().filter(|l| !l.trim().is_empty()).collect();
        if lines.is_empty() {
            continue;
        }
        let head = lines[0]; // S <id> <type> <N>
        let h: Vec<&str> = head.split_whitespace().collect();
        let hd = format!("{} {}", h[1], h[2]);
        let ops = &lines[1..];
        match (h[2], h[3]) {
            ("t8", "0") => run::<Tok8, 0>(&hd, ops),
            ("t8", "1") => run::<Tok8, 1>(&hd, ops),
            ("t8", "2") => run::<Tok8, 2>(&hd, ops),
            ("t8", "4") => run::<Tok8, 4>(&hd, ops),
            ("t1", "2") => run::<Tok1, 2>(&hd, ops),
            ("t1", "8") => run::<Tok1, 8>(&hd, ops),
            ("zst", "0") => run::<Zst, 0>(&hd, ops),
            ("zst", "2") => run::<Zst, 2>(&hd, ops),
            ("t64", "1") => run::<Tok64, 1>(&hd, ops),
            ("big", "2") => run::<TokBig, 2>(&hd, ops),
            ("pod", "3") => run::<Pod, 3>(&hd, ops),
            ("t8", "300") => run::<Tok8, 300>(&hd, ops),
            ("pod", "300") => run::<Pod, 300>(&hd, ops),
            _ => panic!("unknown configuration {head}"),
        }
    }
}
