//! Driver for the sequential behaviour of Rc, Arc, Urc and Box. Reads scripts, prints traces.
use harness::*;
use lokky::boxed::Box as LBox;
use lokky::scope::{AllocSelector, Envelop, Envelope, ScopeRecv};
use lokky::ScopePtr;
use std::borrow::{Borrow, BorrowMut};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display, Formatter, Write as _};
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::mem::MaybeUninit;

struct Recv;
impl ScopeRecv<'static> for Recv {}

/// One of Rc, Arc, Urc.
trait Fam: 'static + Sized {
    const KIND: &'static str;
    type S<T: 'static>: 'static;
    type W<T: 'static>: 'static;
    type F<T: 'static>: 'static;
    fn new<T: 'static>(v: T) -> Self::S<T>;
    fn try_new<T: 'static>(_: T, _pin: bool) -> Result<Self::S<T>, bool>;
    fn clone<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn down<T: 'static>(s: &Self::S<T>) -> Self::W<T>;
    fn up<T: 'static>(_: &Self::W<T>) -> Option<Option<Self::S<T>>> {
        None
    }
    fn wclone<T: 'static>(_: &Self::W<T>) -> Option<Self::W<T>> {
        None
    }
    fn wnull<T: 'static>(_: bool) -> Option<Self::W<T>> {
        None
    }
    fn get<T: 'static>(s: &Self::S<T>) -> &T;
    fn as_ptr<T: 'static>(s: &Self::S<T>) -> *const T;
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T>;
    fn unwrap<T: 'static>(s: Self::S<T>) -> Result<T, Self::S<T>>;
    fn make_mut<T: 'static + Clone>(s: &mut Self::S<T>) -> &mut T;
    /// strong count, weak count, whether it is the only strong group
    fn counts<T: 'static>(s: &Self::S<T>) -> (i64, i64, i64);
    fn wcounts<T: 'static>(_: &Self::W<T>) -> (i64, i64) {
        (-1, -1)
    }
    fn wptr<T: 'static>(_: &Self::W<T>) -> Option<*const T> {
        None
    }
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool;
    fn wptr_eq<T: 'static>(_: &Self::W<T>, _: &Self::W<T>) -> Option<bool> {
        None
    }
    fn env<T: 'static + Send + Sync>(_: &Self::S<T>) -> Option<Envelope<'static, Self::S<T>>> {
        None
    }
    fn fence<T: 'static>(s: Self::S<T>) -> Result<Self::F<T>, (Self::S<T>, bool)> {
        Err((s, false))
    }
    fn unfence<T: 'static>(f: Self::F<T>) -> Self::S<T>;
    fn fcounts<T: 'static>(f: &Self::F<T>) -> (i64, i64, i64);
    fn frombox<T: 'static>(b: LBox<T>) -> Result<Self::S<T>, LBox<T>> {
        Err(b)
    }
    fn cmp<T: 'static + Ord + Hash>(a: &Self::S<T>, b: &Self::S<T>) -> Vec<i64>;
    /// The value through each view, and what is printed.
    fn views<T: 'static + Debug + Display>(s: &Self::S<T>) -> (Vec<*const T>, Vec<String>);
    /// Whether the pointer printed is the one to the value.
    fn prints_ptr<T: 'static>(_: &Self::S<T>) -> bool {
        true
    }
    fn wdebug<T: 'static + Debug>(_: &Self::W<T>) -> Option<String> {
        None
    }
    fn default<T: 'static + Default>() -> Option<Self::S<T>> {
        None
    }
    fn pin<T: 'static>(v: T) -> Self::S<T> {
        Self::new(v)
    }
    /// Created without a value; `None` if there is no such thing.
    fn uninit<T: 'static>(_: bool) -> Option<Result<Self::S<MaybeUninit<T>>, bool>> {
        None
    }
    /// Without asking whether it is the only handle.
    fn get_mut_unchecked<T: 'static>(_: &mut Self::S<T>) -> Option<&mut T> {
        None
    }
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn compare<S: Ord + Hash, T: Ord + Hash>(a: &S, b: &S, va: &T, vb: &T) -> Vec<i64> {
    let o = |x: Option<std::cmp::Ordering>| x.map_or(9, |x| x as i64);
    let mut v = vec![
        (a == b) as i64,
        (a != b) as i64,
        o(a.partial_cmp(b)),
        o(Some(a.cmp(b))),
        (a < b) as i64,
        (a <= b) as i64,
        (a > b) as i64,
        (a >= b) as i64,
        (hash_of(a) == hash_of(b)) as i64,
        (hash_of(a) == hash_of(va)) as i64,
        (hash_of(b) == hash_of(vb)) as i64,
    ];
    v.extend(partial(a, b));
    v
}

struct FRc;
impl Fam for FRc {
    const KIND: &'static str = "r";
    type S<T: 'static> = lokky::rc::Rc<T>;
    type W<T: 'static> = lokky::rc::Weak<T>;
    type F<T: 'static> = ();
    fn new<T: 'static>(v: T) -> Self::S<T> {
        lokky::rc::Rc::new(v)
    }
    fn try_new<T: 'static>(v: T, _: bool) -> Result<Self::S<T>, bool> {
        std::mem::forget(v);
        Err(false)
    }
    fn clone<T: 'static>(s: &Self::S<T>) -> Self::S<T> {
        Clone::clone(s)
    }
    fn down<T: 'static>(s: &Self::S<T>) -> Self::W<T> {
        lokky::rc::Rc::downgrade(s)
    }
    fn up<T: 'static>(w: &Self::W<T>) -> Option<Option<Self::S<T>>> {
        Some(w.upgrade())
    }
    fn wclone<T: 'static>(w: &Self::W<T>) -> Option<Self::W<T>> {
        Some(w.clone())
    }
    fn wnull<T: 'static>(def: bool) -> Option<Self::W<T>> {
        Some(if def { Default::default() } else { lokky::rc::Weak::new() })
    }
    fn get<T: 'static>(s: &Self::S<T>) -> &T {
        s
    }
    fn as_ptr<T: 'static>(s: &Self::S<T>) -> *const T {
        let p = lokky::rc::Rc::as_ptr(s);
        let b: &T = std::borrow::Borrow::borrow(s);
        if !std::ptr::eq(p, &**s) || !std::ptr::eq(p, s.as_ref()) || !std::ptr::eq(p, b) {
            anomaly("inconsistent");
        }
        p
    }
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T> {
        lokky::rc::Rc::get_mut(s)
    }
    fn unwrap<T: 'static>(s: Self::S<T>) -> Result<T, Self::S<T>> {
        lokky::rc::Rc::try_unwrap(s)
    }
    fn make_mut<T: 'static + Clone>(s: &mut Self::S<T>) -> &mut T {
        lokky::rc::Rc::make_mut(s)
    }
    fn counts<T: 'static>(s: &Self::S<T>) -> (i64, i64, i64) {
        (clamp(lokky::rc::Rc::strong_count(s)), clamp(lokky::rc::Rc::weak_count(s)), -1)
    }
    fn wcounts<T: 'static>(w: &Self::W<T>) -> (i64, i64) {
        (clamp(w.strong_count()), clamp(w.weak_count()))
    }
    fn wptr<T: 'static>(w: &Self::W<T>) -> Option<*const T> {
        Some(w.as_ptr())
    }
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool {
        lokky::rc::Rc::ptr_eq(a, b)
    }
    fn wptr_eq<T: 'static>(a: &Self::W<T>, b: &Self::W<T>) -> Option<bool> {
        Some(a.ptr_eq(b))
    }
    fn unfence<T: 'static>(_: ()) -> Self::S<T> {
        unreachable!()
    }
    fn fcounts<T: 'static>(_: &()) -> (i64, i64, i64) {
        (0, 0, 0)
    }
    fn frombox<T: 'static>(b: LBox<T>) -> Result<Self::S<T>, LBox<T>> {
        Ok(b.into())
    }
    fn cmp<T: 'static + Ord + Hash>(a: &Self::S<T>, b: &Self::S<T>) -> Vec<i64> {
        compare(a, b, &**a, &**b)
    }
    fn views<T: 'static + Debug + Display>(s: &Self::S<T>) -> (Vec<*const T>, Vec<String>) {
        (vec![&**s, s.as_ref(), Borrow::<T>::borrow(s), lokky::rc::Rc::as_ptr(s)], vec![debug_text(s, &**s), shown_text(s, &**s)])
    }
    fn wdebug<T: 'static + Debug>(w: &Self::W<T>) -> Option<String> {
        Some(format!("{w:?}"))
    }
}

macro_rules! shared {
    () => {
        fn views<T: 'static + Debug + Display>(s: &Self::S<T>) -> (Vec<*const T>, Vec<String>) {
            (vec![&**s, s.as_ref(), Borrow::<T>::borrow(s), Self::S::as_ptr(s)], vec![debug_text(s, &**s), shown_text(s, &**s)])
        }
        fn prints_ptr<T: 'static>(s: &Self::S<T>) -> bool {
            format!("{:p}", *s) == format!("{:p}", Self::S::as_ptr(s))
        }
        fn default<T: 'static + Default>() -> Option<Self::S<T>> {
            Some(Default::default())
        }
        fn pin<T: 'static>(v: T) -> Self::S<T> {
            // SAFETY: values of the harness may be moved.
            unsafe { std::pin::Pin::into_inner_unchecked(Self::S::pin(v)) }
        }
        fn uninit<T: 'static>(try_: bool) -> Option<Result<Self::S<MaybeUninit<T>>, bool>> {
            Some(if try_ { Self::S::<T>::try_new_uninit().map_err(|_| true) } else { Ok(Self::S::<T>::new_uninit()) })
        }
        fn get_mut_unchecked<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T> {
            // SAFETY: nobody else looks at the value at the moment.
            Some(unsafe { Self::S::get_mut_unchecked(s) })
        }
        fn new<T: 'static>(v: T) -> Self::S<T> {
            Self::S::new(v)
        }
        fn try_new<T: 'static>(v: T, pin: bool) -> Result<Self::S<T>, bool> {
            if pin {
                match Self::S::try_pin(v) {
                    // SAFETY: values of the harness may be moved.
                    Ok(p) => Ok(unsafe { std::pin::Pin::into_inner_unchecked(p) }),
                    Err(_) => Err(true),
                }
            } else {
                Self::S::try_new(v).map_err(|_| true)
            }
        }
        fn clone<T: 'static>(s: &Self::S<T>) -> Self::S<T> {
            Clone::clone(s)
        }
        fn down<T: 'static>(s: &Self::S<T>) -> Self::W<T> {
            Self::S::downgrade(s)
        }
        fn get<T: 'static>(s: &Self::S<T>) -> &T {
            s
        }
        fn as_ptr<T: 'static>(s: &Self::S<T>) -> *const T {
            let p = Self::S::as_ptr(s);
            let b: &T = std::borrow::Borrow::borrow(s);
            if !std::ptr::eq(p, &**s) || !std::ptr::eq(p, s.as_ref()) || !std::ptr::eq(p, b) {
                anomaly("inconsistent");
            }
            p
        }
        fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T> {
            Self::S::get_mut(s)
        }
        fn unwrap<T: 'static>(s: Self::S<T>) -> Result<T, Self::S<T>> {
            Self::S::try_unwrap(s)
        }
        fn make_mut<T: 'static + Clone>(s: &mut Self::S<T>) -> &mut T {
            Self::S::make_mut(s)
        }
        fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool {
            Self::S::ptr_eq(a, b)
        }
        fn env<T: 'static + Send + Sync>(s: &Self::S<T>) -> Option<Envelope<'static, Self::S<T>>> {
            Some(s.envelop(&Recv))
        }
        fn cmp<T: 'static + Ord + Hash>(a: &Self::S<T>, b: &Self::S<T>) -> Vec<i64> {
            compare(a, b, &**a, &**b)
        }
    };
}

struct FArc;
impl Fam for FArc {
    const KIND: &'static str = "a";
    type S<T: 'static> = lokky::arc::Arc<T>;
    type W<T: 'static> = lokky::arc::Weak<T>;
    type F<T: 'static> = ();
    shared!();
    fn counts<T: 'static>(s: &Self::S<T>) -> (i64, i64, i64) {
        (clamp(lokky::arc::Arc::strong_count(s)), clamp(lokky::arc::Arc::weak_count(s)), -1)
    }
    fn unfence<T: 'static>(_: ()) -> Self::S<T> {
        unreachable!()
    }
    fn fcounts<T: 'static>(_: &()) -> (i64, i64, i64) {
        (0, 0, 0)
    }
}

struct FUrc;
impl Fam for FUrc {
    const KIND: &'static str = "u";
    type S<T: 'static> = lokky::urc::Urc<T>;
    type W<T: 'static> = lokky::urc::Weak<T>;
    type F<T: 'static> = ScopePtr<lokky::urc::Fence<T>>;
    shared!();
    fn counts<T: 'static>(s: &Self::S<T>) -> (i64, i64, i64) {
        let f = Self::S::fence_of(s);
        let (sc, wc) = (Self::S::fence_strong_count(s), Self::S::fence_weak_count(s));
        if f.strong_count() != sc || f.weak_count() != wc || !f.is_strong() || f.is_weak() {
            anomaly("inconsistent");
        }
        (clamp(sc), clamp(wc), Self::S::is_sole_strong_fence(s) as i64)
    }
    fn fence<T: 'static>(s: Self::S<T>) -> Result<Self::F<T>, (Self::S<T>, bool)> {
        Self::S::try_into_fence(s).map_err(|s| (s, true))
    }
    fn unfence<T: 'static>(f: Self::F<T>) -> Self::S<T> {
        f.into_inner().into_urc()
    }
    fn fcounts<T: 'static>(f: &Self::F<T>) -> (i64, i64, i64) {
        if f.is_strong() == f.is_weak() {
            anomaly("inconsistent");
        }
        (clamp(f.strong_count()), clamp(f.weak_count()), f.is_strong() as i64)
    }
}

/// The value that is shared: an element and handles it owns.
struct Node<F: Fam, P: Tok> {
    p: P,
    kids: RefCell<Vec<H<F, Node<F, P>>>>,
}

/// What is shared.
trait Pay<F: Fam>: 'static + Send + Sync + Clone + Ord + Hash + Debug + Display + Default {
    const NAME: &'static str;
    fn make(v: u32) -> Self;
    fn look(&self) -> (u32, u32);
    fn set_val(&mut self, v: u32);
    fn kids(&self) -> Option<&RefCell<Vec<H<F, Self>>>> {
        None
    }
}
// SAFETY: everything here happens in one thread.
unsafe impl<F: Fam, P: Tok> Send for Node<F, P> {}
unsafe impl<F: Fam, P: Tok> Sync for Node<F, P> {}
impl<F: Fam, P: Tok> Pay<F> for Node<F, P> {
    const NAME: &'static str = "rich";
    fn make(v: u32) -> Self {
        Node { p: P::make(v), kids: RefCell::new(vec![]) }
    }
    fn look(&self) -> (u32, u32) {
        self.p.look()
    }
    fn set_val(&mut self, v: u32) {
        self.p.set_val(v)
    }
    fn kids(&self) -> Option<&RefCell<Vec<H<F, Self>>>> {
        Some(&self.kids)
    }
}
impl<F: Fam, P: Tok> Debug for Node<F, P> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "{}{}", self.p.val(), flags(f))
    }
}
impl<F: Fam, P: Tok> Display for Node<F, P> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "<{}>{}", self.p.val(), flags(f))
    }
}
impl<F: Fam, P: Tok> Default for Node<F, P> {
    fn default() -> Self {
        Pay::make(7)
    }
}
/// An element of its own: without size, or without destructor.
impl<F: Fam> Pay<F> for Zst {
    const NAME: &'static str = "zst";
    fn make(v: u32) -> Self {
        Tok::make(v)
    }
    fn look(&self) -> (u32, u32) {
        Tok::look(self)
    }
    fn set_val(&mut self, v: u32) {
        Tok::set_val(self, v)
    }
}
impl<F: Fam> Pay<F> for Pod {
    const NAME: &'static str = "pod";
    fn make(v: u32) -> Self {
        Tok::make(v)
    }
    fn look(&self) -> (u32, u32) {
        Tok::look(self)
    }
    fn set_val(&mut self, v: u32) {
        Tok::set_val(self, v)
    }
}
impl<F: Fam, P: Tok> Drop for Node<F, P> {
    fn drop(&mut self) {
        call(-(self.p.look().0 as i64));
        for k in self.kids.get_mut().iter() {
            match k {
                H::S(s) => {
                    call(1);
                    call(F::get(s).p.look().0 as i64);
                    call(F::counts(s).0);
                }
                H::W(w) => {
                    call(2);
                    match F::up(w) {
                        Some(Some(s)) => call(F::get(&s).p.look().0 as i64),
                        _ => call(0),
                    }
                }
                _ => {}
            }
        }
    }
}
impl<F: Fam, P: Tok> Clone for Node<F, P> {
    fn clone(&self) -> Self {
        Node {
            p: self.p.clone(),
            kids: RefCell::new(vec![]),
        }
    }
}
impl<F: Fam, P: Tok> PartialEq for Node<F, P> {
    fn eq(&self, o: &Self) -> bool {
        self.p == o.p
    }
}
impl<F: Fam, P: Tok> Eq for Node<F, P> {}
impl<F: Fam, P: Tok> PartialOrd for Node<F, P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.p.partial_cmp(&o.p)
    }
}
impl<F: Fam, P: Tok> Ord for Node<F, P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.p.cmp(&o.p)
    }
}
impl<F: Fam, P: Tok> Hash for Node<F, P> {
    fn hash<X: Hasher>(&self, h: &mut X) {
        self.p.hash(h)
    }
}

enum H<F: Fam, N: Pay<F>> {
    S(F::S<N>),
    W(F::W<N>),
    F(F::F<N>),
    E(Envelope<'static, F::S<N>>),
    B(LBox<N>),
    // A value owned by a bare pointer; shown as a box.
    P(ScopePtr<N>, u32),
    V(N),
}

const NSLOT: usize = 6;

struct Op<'a> {
    name: &'a str,
    line: &'a str,
}
impl<'a> Op<'a> {
    fn parse(line: &'a str) -> Self {
        Op {
            name: line.split_whitespace().next().unwrap_or(""),
            line,
        }
    }
    fn get(&self, k: &str) -> Option<&'a str> {
        self.line.split_whitespace().skip(1).find_map(|w| {
            let (a, b) = w.split_once('=')?;
            (a == k).then_some(b)
        })
    }
    fn u(&self, k: &str) -> usize {
        self.get(k).map_or(0, |s| s.parse().unwrap())
    }
}

struct Ctx<F: Fam, N: Pay<F>> {
    slots: Vec<Option<H<F, N>>>,
    nscope: u32,
}

fn block_of<T>(p: *const T) -> i64 {
    let mut at = block_at(p as usize);
    if std::mem::size_of::<T>() == 0 && at.is_none() {
        // Nothing, at the end of a block.
        at = block_at(p as usize - 1);
    }
    match at {
        Some((id, true, room)) if room >= std::mem::size_of::<T>() => {
            if p as usize % std::mem::align_of::<T>() != 0 {
                anomaly("misaligned");
            }
            id as i64
        }
        _ => -9,
    }
}

fn observe<F: Fam, N: Pay<F>>(i: usize, s: &H<F, N>) -> String {
    let (mut k, mut u, mut v, mut sc, mut wc, mut sf, mut bl) = ("?", 0, 0, -1, -1, -1, 0);
    let mut look = |n: &N| {
        let (a, b) = n.look();
        u = a;
        v = b;
    };
    match s {
        H::S(s) => {
            k = "S";
            look(F::get(s));
            (sc, wc, sf) = F::counts(s);
            bl = block_of(F::as_ptr(s));
        }
        H::W(w) => {
            k = "W";
            (sc, wc) = F::wcounts(w);
            bl = match F::wptr(w) {
                Some(p) if p.is_null() => 0,
                Some(p) => block_of(p),
                None => -1,
            };
        }
        H::F(f) => {
            k = "F";
            (sc, wc, sf) = F::fcounts(f);
        }
        H::E(_) => k = "E",
        H::B(b) => {
            k = "B";
            look(b);
            bl = block_of(&**b);
        }
        H::P(p, m) => {
            k = "B";
            look(p);
            bl = block_of(&**p);
            if p.marker() != marker(*m) || p.alloc_selector() != AllocSelector::with_marker::<N>(marker(*m)) {
                anomaly("marker");
            }
        }
        H::V(n) => {
            k = "V";
            look(n);
        }
    }
    format!("{{\"i\":{i},\"k\":\"{k}\",\"u\":{u},\"v\":{v},\"sc\":{sc},\"wc\":{wc},\"sf\":{sf},\"bl\":{bl}}}")
}

struct Out {
    res: &'static str,
    num: Vec<i64>,
    vw: Vec<(u32, u32)>,
    tx: Vec<String>,
}

fn exec<F: Fam, N: Pay<F>>(c: &mut Ctx<F, N>, op: &Op, out: &mut Out) {
    let (a, b) = (op.u("a"), op.u("b"));
    let v = op.u("v") as u32;
    out.res = "ok";
    let node = |v| N::make(v);
    macro_rules! skip {
        () => {{
            out.res = "skip";
            return;
        }};
    }
    macro_rules! strong {
        ($i:expr) => {
            match &mut c.slots[$i] {
                Some(H::S(s)) => s,
                _ => skip!(),
            }
        };
    }
    macro_rules! free {
        ($i:expr) => {
            if c.slots[$i].is_some() {
                skip!()
            }
        };
    }
    match op.name {
        "val" => {
            free!(a);
            c.slots[a] = Some(H::V(node(v)));
        }
        "new" => {
            free!(a);
            let n = node(v);
            c.slots[a] = Some(H::S(F::new(n)));
        }
        "box" => {
            free!(a);
            let n = node(v);
            let m = op.u("m") as u32;
            c.slots[a] = Some(match op.get("s") {
                Some("p") => H::P(ScopePtr::alloc(n, AllocSelector::with_marker::<N>(marker(m))).unwrap(), m),
                // Allocated raw, then filled.
                Some("c") => {
                    let p = ScopePtr::<[MaybeUninit<N>]>::alloc_array_uninit(1, AllocSelector::with_marker::<N>(marker(m)));
                    // SAFETY: of the right size and filled at once.
                    let mut p = unsafe { p.unwrap().cast::<MaybeUninit<N>>() };
                    let _ = p.write(n);
                    H::P(unsafe { p.cast::<N>() }, m)
                }
                _ => H::B(if m == 0 { LBox::new(n) } else { LBox::new_with(n, marker(m)) }),
            });
        }
        "wrap" | "twrap" | "pwrap" | "wrapbox" => {
            if !matches!(c.slots[a], Some(H::V(_))) || (F::KIND == "r" && matches!(op.name, "twrap" | "pwrap")) {
                skip!()
            }
            let Some(H::V(n)) = c.slots[a].take() else { unreachable!() };
            c.slots[a] = match op.name {
                "wrap" if op.u("m") == 1 => Some(H::S(F::pin(n))),
                "wrap" => Some(H::S(F::new(n))),
                "wrapbox" => Some(H::B(LBox::new(n))),
                p => match F::try_new(n, p == "pwrap") {
                    Ok(s) => Some(H::S(s)),
                    Err(_) => {
                        out.res = "err";
                        None
                    }
                },
            };
        }
        "clone" => {
            free!(b);
            let s = F::clone(strong!(a));
            c.slots[b] = Some(H::S(s));
        }
        "down" => {
            free!(b);
            let s = F::down(strong!(a));
            c.slots[b] = Some(H::W(s));
        }
        "up" => {
            free!(b);
            let r = match &c.slots[a] {
                Some(H::W(w)) => F::up(w),
                _ => None,
            };
            match r {
                None => skip!(),
                Some(None) => out.res = "none",
                Some(Some(s)) => c.slots[b] = Some(H::S(s)),
            }
        }
        "wclone" => {
            free!(b);
            let r = match &c.slots[a] {
                Some(H::W(w)) => F::wclone(w),
                _ => None,
            };
            match r {
                None => skip!(),
                Some(w) => c.slots[b] = Some(H::W(w)),
            }
        }
        "wnull" => {
            free!(a);
            match F::wnull(op.u("m") != 0) {
                None => skip!(),
                Some(w) => c.slots[a] = Some(H::W(w)),
            }
        }
        "drop" => match c.slots[a].take() {
            None => skip!(),
            Some(h) => drop(h),
        },
        "give" => {
            if a == b || !matches!(c.slots[b], Some(H::S(_) | H::W(_))) {
                skip!()
            }
            if !matches!(c.slots[a], Some(H::S(_) | H::B(_) | H::P(..) | H::V(_))) {
                skip!()
            }
            let n = match c.slots[a].as_ref().unwrap() {
                H::S(s) => F::get(s),
                H::B(n) => n,
                H::P(n, _) => n,
                H::V(n) => n,
                _ => unreachable!(),
            };
            let n: *const N = n;
            // SAFETY: the slot that holds the value is not touched.
            let Some(kids) = (unsafe { &*n }).kids() else { skip!() };
            kids.borrow_mut().push(c.slots[b].take().unwrap());
        }
        "take" => {
            free!(b);
            let n = match &c.slots[a] {
                Some(H::S(s)) => F::get(s),
                Some(H::B(n)) => n,
                Some(H::P(n, _)) => n,
                Some(H::V(n)) => n,
                _ => skip!(),
            };
            let Some(kids) = n.kids() else { skip!() };
            let k = kids.borrow_mut().pop();
            match k {
                None => out.res = "none",
                k => c.slots[b] = k,
            }
        }
        "getmut" => match &mut c.slots[a] {
            Some(H::S(s)) => match F::get_mut(s) {
                Some(n) => n.set_val(v),
                None => out.res = "none",
            },
            Some(H::B(n)) => match op.u("m") {
                0 => n.set_val(v),
                1 => n.as_mut().set_val(v),
                _ => BorrowMut::<N>::borrow_mut(n).set_val(v),
            },
            Some(H::P(n, _)) => match op.u("m") {
                0 => n.set_val(v),
                // SAFETY: it is one value.
                _ => unsafe { &mut n.slice_mut(1)[0] }.set_val(v),
            },
            Some(H::V(n)) => n.set_val(v),
            _ => skip!(),
        },
        "gmu" => match F::get_mut_unchecked(strong!(a)) {
            Some(n) => n.set_val(v),
            None => skip!(),
        },
        "def" => {
            free!(a);
            match F::default() {
                Some(s) => c.slots[a] = Some(H::S(s)),
                None => skip!(),
            }
        }
        "uninit" => {
            free!(a);
            if F::KIND == "r" {
                skip!()
            }
            let n = node(v);
            let (u, x) = n.look();
            match F::uninit::<N>(op.u("m") != 0) {
                None => unreachable!(),
                Some(Err(_)) => out.res = "err",
                Some(Ok(mut s)) => {
                    let one = F::counts(&s).0;
                    F::get_mut(&mut s).unwrap().write(n);
                    let t = F::clone(&s);
                    // SAFETY: it was written.
                    out.vw.push(unsafe { F::get(&t).assume_init_ref() }.look());
                    out.num.extend([one, F::counts(&s).0]);
                    drop(t);
                    let m = F::unwrap(s).ok().unwrap();
                    c.slots[a] = Some(H::V(unsafe { m.assume_init() }));
                    out.vw.push((u, x));
                }
            }
        }
        "view" => match &mut c.slots[a] {
            Some(H::S(s)) => {
                let (ps, tx) = F::views(s);
                let at = F::as_ptr(s);
                for p in ps {
                    // SAFETY: what it points to is alive; what does not point there is not looked at.
                    out.vw.push(if std::ptr::eq(p, at) { unsafe { &*p }.look() } else { (0, 0) });
                }
                out.tx = tx;
                out.num.push(F::prints_ptr(s) as i64);
            }
            Some(H::W(w)) => match F::wdebug(w) {
                Some(t) => out.tx.push(t),
                None => skip!(),
            },
            Some(H::B(n)) => {
                let at: *const N = &**n;
                let ps: [*const N; 5] = [n.as_ref(), Borrow::<N>::borrow(n), &mut **n, n.as_mut(), BorrowMut::<N>::borrow_mut(n)];
                for p in ps {
                    out.vw.push(if std::ptr::eq(p, at) { unsafe { &*p }.look() } else { (0, 0) });
                }
                out.tx = vec![debug_text(n, &**n), shown_text(n, &**n)];
                out.num.push(1);
            }
            Some(H::P(n, _)) => {
                let at: *const N = &**n;
                // SAFETY: it is one value, and the copies do not drop it.
                let ps: [*const N; 4] = unsafe {
                    let c = n.clone();
                    let at2: *const N = &*c;
                    c.forget();
                    [n.slice_ref(1).as_ptr(), n.slice_mut(1).as_ptr(), &mut **n, at2]
                };
                for p in ps {
                    out.vw.push(if std::ptr::eq(p, at) { unsafe { &*p }.look() } else { (0, 0) });
                }
                out.tx = vec![format!("{:?}", **n), format!("{}", **n)];
                out.num.push(1);
            }
            _ => skip!(),
        },
        "many" => {
            // So many handles at once that a counter of a small type would wrap.
            let (n, m) = (op.u("n"), op.u("m"));
            if m == 3 {
                let r = match &c.slots[a] {
                    Some(H::W(w)) => {
                        let mut v = std::vec::Vec::new();
                        for _ in 0..n {
                            match F::up(w) {
                                None => skip!(),
                                Some(None) => break,
                                Some(Some(s)) => v.push(s),
                            }
                        }
                        let (sc, wc) = F::wcounts(w);
                        vec![v.len() as i64, sc, wc]
                    }
                    _ => skip!(),
                };
                out.num = r;
                return;
            }
            let s = strong!(a);
            if m == 4 && F::KIND == "r" {
                skip!()
            }
            let (mut v, mut w, mut e) = (std::vec::Vec::new(), std::vec::Vec::new(), std::vec::Vec::new());
            for _ in 0..n {
                if m == 0 || m == 2 {
                    v.push(F::clone(s));
                }
                if m == 1 || m == 2 {
                    w.push(F::down(s));
                }
                if m == 4 {
                    e.extend(F::env(s));
                }
            }
            let (sc, wc, sf) = F::counts(s);
            let alone = F::get_mut(s).is_some();
            let t = F::clone(s);
            let (r, t) = match F::unwrap(t) {
                Ok(n) => {
                    std::mem::forget(n);
                    (1, None)
                }
                Err(t) => (0, Some(t)),
            };
            let (f, t) = match t.map(F::fence) {
                None => (0, None),
                Some(Ok(f)) => (1, Some(F::unfence(f))),
                Some(Err((t, _))) => (0, Some(t)),
            };
            drop(t);
            out.num = vec![sc, wc, sf, alone as i64, r, f];
        }
        "boxit" => {
            // An iterator used through its box.
            let mut i = LBox::new((0..op.u("n") as i64).collect::<std::vec::Vec<i64>>().into_iter());
            for t in op.get("t").unwrap_or("").bytes() {
                let r = match t {
                    b'n' => i.next(),
                    b'b' => i.next_back(),
                    b'N' => i.nth(1),
                    b'B' => i.nth_back(1),
                    b'l' => Some(i.len() as i64),
                    _ => Some(if i.size_hint() == (i.len(), Some(i.len())) { i.size_hint().0 as i64 } else { -2 }),
                };
                out.num.push(r.unwrap_or(-1));
            }
        }
        "boxhash" => {
            // A hasher used through its box.
            let (mut x, mut y) = (LBox::new(DefaultHasher::new()), DefaultHasher::new());
            for i in 0..op.u("n") as u8 {
                x.write(&[i, 3]);
                y.write(&[i, 3]);
                out.num.push((x.finish() == y.finish()) as i64);
            }
        }
        "unwrap" => {
            strong!(a);
            let Some(H::S(s)) = c.slots[a].take() else { unreachable!() };
            c.slots[a] = Some(match F::unwrap(s) {
                Ok(n) => H::V(n),
                Err(s) => {
                    out.res = "err";
                    H::S(s)
                }
            });
        }
        "makemut" => {
            let s = strong!(a);
            let n = F::make_mut(s);
            n.set_val(v);
        }
        "ptreq" => {
            let r = match (&c.slots[a], &c.slots[b]) {
                (Some(H::S(x)), Some(H::S(y))) => F::ptr_eq(x, y),
                (Some(H::W(x)), Some(H::W(y))) => match F::wptr_eq(x, y) {
                    Some(r) => r,
                    None => skip!(),
                },
                _ => skip!(),
            };
            out.num.push(r as i64);
        }
        "cmp" => {
            let r = match (&c.slots[a], &c.slots[b]) {
                (Some(H::S(x)), Some(H::S(y))) => F::cmp(x, y),
                (Some(H::B(x)), Some(H::B(y))) => compare(x, y, &**x, &**y),
                (Some(H::B(x)), Some(H::P(y, _))) => compare(&**x, &**y, &**x, &**y),
                (Some(H::P(x, _)), Some(H::B(y))) => compare(&**x, &**y, &**x, &**y),
                (Some(H::P(x, _)), Some(H::P(y, _))) => compare(&**x, &**y, &**x, &**y),
                _ => skip!(),
            };
            out.num = r;
        }
        "env" => {
            free!(b);
            match F::env(strong!(a)) {
                None => skip!(),
                Some(e) => c.slots[b] = Some(H::E(e)),
            }
        }
        "recv" => {
            if !matches!(c.slots[a], Some(H::E(_))) {
                skip!()
            }
            let Some(H::E(e)) = c.slots[a].take() else { unreachable!() };
            c.slots[a] = Some(H::S(Recv.recv(e)));
        }
        "fence" => {
            strong!(a);
            let Some(H::S(s)) = c.slots[a].take() else { unreachable!() };
            c.slots[a] = Some(match F::fence(s) {
                Ok(f) => H::F(f),
                Err((s, can)) => {
                    out.res = if can { "err" } else { "skip" };
                    H::S(s)
                }
            });
        }
        "unfence" => {
            if !matches!(c.slots[a], Some(H::F(_))) {
                skip!()
            }
            let Some(H::F(f)) = c.slots[a].take() else { unreachable!() };
            c.slots[a] = Some(H::S(F::unfence(f)));
        }
        "unbox" => {
            if !matches!(c.slots[a], Some(H::B(_) | H::P(..))) {
                skip!()
            }
            c.slots[a] = Some(H::V(match c.slots[a].take() {
                Some(H::B(n)) => n.into_inner(),
                Some(H::P(n, _)) => n.into_inner(),
                _ => unreachable!(),
            }));
        }
        "frombox" => {
            if F::KIND == "r" && matches!(c.slots[a], Some(H::P(..))) {
                let Some(H::P(n, _)) = c.slots[a].take() else { unreachable!() };
                c.slots[a] = Some(H::S(F::new(n.into_inner())));
                return;
            }
            if !matches!(c.slots[a], Some(H::B(_))) {
                skip!()
            }
            let Some(H::B(n)) = c.slots[a].take() else { unreachable!() };
            c.slots[a] = Some(match F::frombox(n) {
                Ok(s) => H::S(s),
                Err(n) => {
                    out.res = "skip";
                    H::B(n)
                }
            });
        }
        _ => out.res = "unknown",
    }
}

fn emit<F: Fam, N: Pay<F>>(c: &mut Ctx<F, N>, op: &Op, out: Out, inj: bool, af: u32) {
    let mut j = Json::new();
    j.s("op", op.name);
    for k in ["a", "b", "m", "v", "n", "pk"] {
        j.n(k, op.u(k) as i64);
    }
    j.s("res", out.res);
    j.n("inj", inj as i64);
    j.n("af", af as i64);
    j.ns("num", out.num);
    j.ss("t", op.get("t").unwrap_or("").as_bytes().chunks(1).map(|c| std::str::from_utf8(c).unwrap()));
    if matches!(op.name, "view" | "uninit") {
        j.pairs("vw", &out.vw);
        j.ss("tx", out.tx.iter().map(|s| s.as_str()));
    }
    let mut sl = String::from("[");
    for (i, s) in c.slots.iter().enumerate() {
        if let Some(s) = s {
            let _ = write!(sl, "{}{}", if sl.len() > 1 { "," } else { "" }, observe(i, s));
        }
    }
    sl.push(']');
    check_blocks();
    step_fields(&mut j);
    j.raw("sl", &sl);
    out_line(&j.end());
    step_reset();
}

fn run_ops<F: Fam, N: Pay<F>>(c: &mut Ctx<F, N>, ops: &mut std::slice::Iter<Op>, depth: u32) -> bool {
    let none = || Out { res: "ok", num: vec![], vw: vec![], tx: vec![] };
    while let Some(op) = ops.next() {
        match op.name {
            "enter" => {
                c.nscope += 1;
                let id = c.nscope % NSCOPE;
                let r = guarded(|| {
                    lokky::scope::spawn(
                        |_| TrackScope::new(id),
                        |_| {
                            emit(c, op, Out { res: "ok", num: vec![id as i64], vw: vec![], tx: vec![] }, false, 0);
                            run_ops(c, ops, depth + 1)
                        },
                    )
                });
                if let Ok(false) = r {
                    return false;
                }
            }
            "leave" if depth > 0 => {
                emit(c, op, none(), false, 0);
                return true;
            }
            _ => {
                let mut out = none();
                step_reset();
                arm(op.u("pk") as u32);
                heap_arm(op.u("fk") as u32, op.u("fa") != 0);
                let r = guarded(|| exec(c, op, &mut out));
                let inj = fired();
                arm(0);
                let af = heap_refused();
                heap_arm(0, false);
                if r.is_err() {
                    out.res = "panic";
                }
                emit(c, op, out, inj, af);
            }
        }
    }
    false
}

fn run<F: Fam, N: Pay<F>>(id: &str, hd: &str, lines: &[&str]) {
    heap_reset(&[AllocSelector::new::<N>()]);
    reg_reset();
    step_reset();
    println!(
        "T {{\"id\":\"{id}\",\"hd\":\"{hd}\",\"fam\":\"{}\",\"pay\":\"{}\",\"dbg\":{}",
        F::KIND,
        N::NAME,
        cfg!(debug_assertions) as i32
    );
    watchdog(3);
    let mut c = Ctx::<F, N> {
        slots: (0..NSLOT).map(|_| None).collect(),
        nscope: 0,
    };
    let ops: Vec<Op> = lines.iter().map(|l| Op::parse(l)).collect();
    run_ops(&mut c, &mut ops.iter(), 0);
    step_reset();
    let mut out = Out { res: "ok", num: vec![], vw: vec![], tx: vec![] };
    let r = guarded(|| {
        for s in &mut c.slots {
            drop(s.take());
        }
    });
    if r.is_err() {
        out.res = "panic";
    }
    emit(&mut c, &Op::parse("end"), out, false, 0);
    println!("E");
    for s in c.slots {
        std::mem::forget(s);
    }
}

fn main() {
    init();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let from: usize = std::env::args().nth(1).map_or(0, |s| s.parse().unwrap());
    for (i, block) in text.split("\n.\n").enumerate() {
        if i < from {
            continue;
        }
        let lines: Vec<&str> = block.lines().filter(|l| !l.trim().is_empty()).collect();
        if lines.is_empty() {
            continue;
        }
        let h: Vec<&str> = lines[0].split_whitespace().collect(); // S <id> <family> <type>
        let (id, hd, ops) = (h[1], format!("{} {}", h[2], h[3]), &lines[1..]);
        match (h[2], h[3]) {
            ("r", "t8") => run::<FRc, Node<FRc, Tok8>>(id, &hd, ops),
            ("r", "t64") => run::<FRc, Node<FRc, Tok64>>(id, &hd, ops),
            ("r", "big") => run::<FRc, Node<FRc, TokBig>>(id, &hd, ops),
            ("r", "zst") => run::<FRc, Zst>(id, &hd, ops),
            ("r", "pod") => run::<FRc, Pod>(id, &hd, ops),
            ("a", "t8") => run::<FArc, Node<FArc, Tok8>>(id, &hd, ops),
            ("a", "t64") => run::<FArc, Node<FArc, Tok64>>(id, &hd, ops),
            ("a", "big") => run::<FArc, Node<FArc, TokBig>>(id, &hd, ops),
            ("a", "zst") => run::<FArc, Zst>(id, &hd, ops),
            ("a", "pod") => run::<FArc, Pod>(id, &hd, ops),
            ("u", "t8") => run::<FUrc, Node<FUrc, Tok8>>(id, &hd, ops),
            ("u", "t64") => run::<FUrc, Node<FUrc, Tok64>>(id, &hd, ops),
            ("u", "big") => run::<FUrc, Node<FUrc, TokBig>>(id, &hd, ops),
            ("u", "zst") => run::<FUrc, Zst>(id, &hd, ops),
            ("u", "pod") => run::<FUrc, Pod>(id, &hd, ops),
            _ => panic!("unknown configuration {}", lines[0]),
        }
    }
}
