//! Stand-in for `std` in verification builds of lokky; see core.rs.
#![allow(ambiguous_glob_reexports)]
pub use ::std::*;
pub mod hint { pub use ::std::hint::*; pub use ::lokky_verif_core::hint::spin_loop; }
pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic { pub use ::std::sync::atomic::*; pub use ::lokky_verif_core::sync::atomic::{fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize}; }
}
pub mod thread { pub use ::std::thread::*; pub fn yield_now() { ::lokky_verif_core::hint::spin_loop() } }
