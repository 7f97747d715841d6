//! Stand-in for `core` in verification builds of lokky (`--cfg lokky_verif`): everything is
//! re-exported unchanged, except that atomic integers, fences and spin hints report to a hook.
#![no_std]
#![allow(ambiguous_glob_reexports, clippy::all)]
pub use ::core::*;

pub mod verif {
    use ::core::sync::atomic::{AtomicPtr, Ordering};

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Kind { Load, Store, Rmw, CasFail, Fence, Spin }

    /// One executed operation.
    #[derive(Clone, Copy, Debug)]
    pub struct Op {
        pub kind: Kind,
        pub addr: usize,
        pub old: u64,
        pub new: u64,
        /// Ordering of the operation actually performed (failure ordering for `CasFail`).
        pub ord: Ordering,
    }

    pub struct Hook {
        /// Called before an operation. May block the thread. Returns whether a weak
        /// compare-exchange should fail spuriously.
        pub before: fn(addr: usize, kind: Kind, weak: bool) -> bool,
        pub after: fn(Op),
    }

    static HOOK: AtomicPtr<Hook> = AtomicPtr::new(::core::ptr::null_mut());

    pub fn set_hook(h: &'static Hook) {
        HOOK.store(h as *const Hook as *mut Hook, Ordering::SeqCst);
    }

    #[inline]
    fn hook() -> Option<&'static Hook> {
        unsafe { HOOK.load(Ordering::Relaxed).as_ref() }
    }

    #[inline]
    pub fn before(addr: usize, kind: Kind, weak: bool) -> bool {
        match hook() { Some(h) => (h.before)(addr, kind, weak), None => false }
    }

    #[inline]
    pub fn after(op: Op) {
        if let Some(h) = hook() { (h.after)(op) }
    }
}

pub mod hint {
    pub use ::core::hint::*;
    pub fn spin_loop() {
        use crate::verif::*;
        before(0, Kind::Spin, false);
        after(Op { kind: Kind::Spin, addr: 0, old: 0, new: 0, ord: ::core::sync::atomic::Ordering::Relaxed });
    }
}

pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::*;
        use crate::verif::{after, before, Kind, Op};

        pub fn fence(ord: Ordering) {
            before(0, Kind::Fence, false);
            ::core::sync::atomic::fence(ord);
            after(Op { kind: Kind::Fence, addr: 0, old: 0, new: 0, ord });
        }

        pub fn spin_loop_hint() { crate::hint::spin_loop() }

        macro_rules! atomic { ($name:ident, $int:ty) => {
            #[derive(Default)]
            #[repr(transparent)]
            pub struct $name(::core::sync::atomic::$name);

            impl From<$int> for $name { fn from(v: $int) -> Self { Self::new(v) } }
            impl ::core::fmt::Debug for $name {
                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { self.0.fmt(f) }
            }

            impl $name {
                pub const fn new(v: $int) -> Self { $name(::core::sync::atomic::$name::new(v)) }
                fn addr(&self) -> usize { self as *const Self as usize }
                fn rmw(&self, ord: Ordering, f: impl FnOnce(&::core::sync::atomic::$name) -> $int, g: impl FnOnce($int) -> $int) -> $int {
                    before(self.addr(), Kind::Rmw, false);
                    let addr = self.addr();
                    let old = f(&self.0);
                    after(Op { kind: Kind::Rmw, addr, old: old as u64, new: g(old) as u64, ord });
                    old
                }
                pub fn load(&self, ord: Ordering) -> $int {
                    before(self.addr(), Kind::Load, false);
                    let v = self.0.load(ord);
                    after(Op { kind: Kind::Load, addr: self.addr(), old: v as u64, new: v as u64, ord });
                    v
                }
                pub fn store(&self, v: $int, ord: Ordering) {
                    before(self.addr(), Kind::Store, false);
                    let old = self.0.load(Ordering::Relaxed);
                    self.0.store(v, ord);
                    after(Op { kind: Kind::Store, addr: self.addr(), old: old as u64, new: v as u64, ord });
                }
                pub fn swap(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.swap(v, o), |_| v) }
                pub fn fetch_add(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.fetch_add(v, o), |x| x.wrapping_add(v)) }
                pub fn fetch_sub(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.fetch_sub(v, o), |x| x.wrapping_sub(v)) }
                pub fn fetch_and(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.fetch_and(v, o), |x| x & v) }
                pub fn fetch_or(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.fetch_or(v, o), |x| x | v) }
                pub fn fetch_xor(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.fetch_xor(v, o), |x| x ^ v) }
                pub fn fetch_max(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.fetch_max(v, o), |x| x.max(v)) }
                pub fn fetch_min(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.fetch_min(v, o), |x| x.min(v)) }
                fn cas(&self, c: $int, n: $int, o: Ordering, f: Ordering, weak: bool) -> Result<$int, $int> {
                    if before(self.addr(), Kind::Rmw, weak) {
                        let v = self.0.load(f);
                        after(Op { kind: Kind::CasFail, addr: self.addr(), old: v as u64, new: v as u64, ord: f });
                        return Err(v);
                    }
                    let r = self.0.compare_exchange(c, n, o, f);
                    match r {
                        Ok(v) => after(Op { kind: Kind::Rmw, addr: self.addr(), old: v as u64, new: n as u64, ord: o }),
                        Err(v) => after(Op { kind: Kind::CasFail, addr: self.addr(), old: v as u64, new: v as u64, ord: f }),
                    }
                    r
                }
                pub fn compare_exchange(&self, c: $int, n: $int, o: Ordering, f: Ordering) -> Result<$int, $int> { self.cas(c, n, o, f, false) }
                pub fn compare_exchange_weak(&self, c: $int, n: $int, o: Ordering, f: Ordering) -> Result<$int, $int> { self.cas(c, n, o, f, true) }
                #[allow(deprecated)]
                pub fn compare_and_swap(&self, c: $int, n: $int, o: Ordering) -> $int {
                    let f = match o { Ordering::AcqRel => Ordering::Acquire, Ordering::Release => Ordering::Relaxed, o => o };
                    match self.cas(c, n, o, f, false) { Ok(v) | Err(v) => v }
                }
                pub fn fetch_update<F: FnMut($int) -> Option<$int>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$int, $int> {
                    let mut prev = self.load(fetch);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, set, fetch) {
                            x @ Ok(_) => return x,
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                pub fn try_update(&self, set: Ordering, fetch: Ordering, f: impl FnMut($int) -> Option<$int>) -> Result<$int, $int> {
                    self.fetch_update(set, fetch, f)
                }
                pub fn update(&self, set: Ordering, fetch: Ordering, mut f: impl FnMut($int) -> $int) -> $int {
                    match self.fetch_update(set, fetch, |v| Some(f(v))) { Ok(v) | Err(v) => v }
                }
                pub fn fetch_nand(&self, v: $int, o: Ordering) -> $int { self.rmw(o, |a| a.fetch_nand(v, o), |x| !(x & v)) }
                pub const unsafe fn from_ptr<'a>(p: *mut $int) -> &'a $name { unsafe { &*(p as *const $name) } }
                pub fn from_mut(p: &mut $int) -> &mut $name { unsafe { &mut *(p as *mut $int as *mut $name) } }
                pub fn get_mut(&mut self) -> &mut $int { self.0.get_mut() }
                pub fn into_inner(self) -> $int { self.0.into_inner() }
                pub fn as_ptr(&self) -> *mut $int { self.0.as_ptr() }
            }
        } }
        atomic!(AtomicUsize, usize);
        atomic!(AtomicIsize, isize);
        atomic!(AtomicU8, u8);
        atomic!(AtomicU16, u16);
        atomic!(AtomicU32, u32);
        atomic!(AtomicU64, u64);
        atomic!(AtomicI8, i8);
        atomic!(AtomicI16, i16);
        atomic!(AtomicI32, i32);
        atomic!(AtomicI64, i64);

        macro_rules! atomic2 { ($name:ident, $raw:ident $(<$g:ident>)?, $val:ty, |$x:ident| $bits:expr) => {
            #[repr(transparent)]
            pub struct $name $(<$g>)? (::core::sync::atomic::$raw $(<$g>)?);

            impl $(<$g>)? From<$val> for $name $(<$g>)? { fn from(v: $val) -> Self { Self::new(v) } }
            impl $(<$g>)? ::core::fmt::Debug for $name $(<$g>)? {
                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { self.0.fmt(f) }
            }

            impl $(<$g>)? $name $(<$g>)? {
                pub const fn new(v: $val) -> Self { $name(::core::sync::atomic::$raw::new(v)) }
                fn addr(&self) -> usize { self as *const Self as *const () as usize }
                fn bits($x: $val) -> u64 { $bits }
                fn rmw(&self, ord: Ordering, f: impl FnOnce(&::core::sync::atomic::$raw $(<$g>)?) -> $val, g: impl FnOnce($val) -> $val) -> $val {
                    before(self.addr(), Kind::Rmw, false);
                    let old = f(&self.0);
                    after(Op { kind: Kind::Rmw, addr: self.addr(), old: Self::bits(old), new: Self::bits(g(old)), ord });
                    old
                }
                pub fn load(&self, ord: Ordering) -> $val {
                    before(self.addr(), Kind::Load, false);
                    let v = self.0.load(ord);
                    after(Op { kind: Kind::Load, addr: self.addr(), old: Self::bits(v), new: Self::bits(v), ord });
                    v
                }
                pub fn store(&self, v: $val, ord: Ordering) {
                    before(self.addr(), Kind::Store, false);
                    let old = self.0.load(Ordering::Relaxed);
                    self.0.store(v, ord);
                    after(Op { kind: Kind::Store, addr: self.addr(), old: Self::bits(old), new: Self::bits(v), ord });
                }
                pub fn swap(&self, v: $val, o: Ordering) -> $val { self.rmw(o, |a| a.swap(v, o), |_| v) }
                fn cas(&self, c: $val, n: $val, o: Ordering, f: Ordering, weak: bool) -> Result<$val, $val> {
                    if before(self.addr(), Kind::Rmw, weak) {
                        let v = self.0.load(f);
                        after(Op { kind: Kind::CasFail, addr: self.addr(), old: Self::bits(v), new: Self::bits(v), ord: f });
                        return Err(v);
                    }
                    let r = self.0.compare_exchange(c, n, o, f);
                    match r {
                        Ok(v) => after(Op { kind: Kind::Rmw, addr: self.addr(), old: Self::bits(v), new: Self::bits(n), ord: o }),
                        Err(v) => after(Op { kind: Kind::CasFail, addr: self.addr(), old: Self::bits(v), new: Self::bits(v), ord: f }),
                    }
                    r
                }
                pub fn compare_exchange(&self, c: $val, n: $val, o: Ordering, f: Ordering) -> Result<$val, $val> { self.cas(c, n, o, f, false) }
                pub fn compare_exchange_weak(&self, c: $val, n: $val, o: Ordering, f: Ordering) -> Result<$val, $val> { self.cas(c, n, o, f, true) }
                pub fn fetch_update<F: FnMut($val) -> Option<$val>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$val, $val> {
                    let mut prev = self.load(fetch);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, set, fetch) {
                            x @ Ok(_) => return x,
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                pub fn get_mut(&mut self) -> &mut $val { self.0.get_mut() }
                pub fn into_inner(self) -> $val { self.0.into_inner() }
            }
        } }
        atomic2!(AtomicBool, AtomicBool, bool, |x| x as u64);
        atomic2!(AtomicPtr, AtomicPtr<T>, *mut T, |x| x as *mut () as usize as u64);

        impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
        impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::core::ptr::null_mut()) } }
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |a| a.fetch_and(v, o), |x| x & v) }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |a| a.fetch_or(v, o), |x| x | v) }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |a| a.fetch_xor(v, o), |x| x ^ v) }
            pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |a| a.fetch_nand(v, o), |x| !(x & v)) }
            pub fn fetch_not(&self, o: Ordering) -> bool { self.rmw(o, |a| a.fetch_xor(true, o), |x| !x) }
        }
    }
}
