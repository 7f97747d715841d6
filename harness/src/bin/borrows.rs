// Programs that look at containers, only to be judged by the compiler ($LOKKY_BORROWS lists them).
#![allow(unused, warnings)]
use core::alloc::GlobalAlloc;
use core::borrow::{Borrow, BorrowMut};
use core::fmt::Write;
use core::hash::{Hash, Hasher};
use core::mem;
use core::ops::{Deref, DerefMut};
use lokky::arc::Arc;
use lokky::boxed::Box;
use lokky::rc::Rc;
use lokky::scope::{AllocMarker, AllocSelector, Env, Scope};
use lokky::small_vec::SmallVec;
use lokky::string::String;
use lokky::urc::Urc;
use lokky::vec::Vec;
use lokky::ScopePtr;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct P(pub u8);

/// A scope, which a program may make and drop.
pub struct Here(std::alloc::System);
impl Scope for Here {
    fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
        &self.0
    }
}

type Sv = SmallVec<P, 4>;

fn touch<T: ?Sized>(_: &T) {}
fn touch_mut<T: ?Sized>(_: &mut T) {}
fn hasher() -> std::collections::hash_map::DefaultHasher {
    Default::default()
}

include!(env!("LOKKY_BORROWS"));

fn main() {}
