//! Makes the markers and selectors of `kinds` in a crate of its own.
use lokky::scope::{AllocMarker, AllocSelector};
#[inline(never)]
pub fn make() -> (Vec<(i64, AllocMarker)>, Vec<(i64, AllocSelector)>) {
    kinds::selectors!()
}
