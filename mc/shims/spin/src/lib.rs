//! Stand-in for `spin`, and, under the name `std`, for `std` in the crates under test. Everything is
//! re-exported from the real std except for the synchronisation primitives, which are replaced by
//! ones that tell the model checker (`rt`) about each operation before they perform it.
#![feature(coerce_unsized, unsize, dispatch_from_dyn, legacy_receiver_trait)]

pub use ::std::*;

pub mod rt;
pub mod sync;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::rt::yield_now()
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::rt::yield_now()
    }
}

// What `spin` itself offers.
pub mod mutex {
    pub use crate::sync::spin_mutex::{Mutex, MutexGuard};
    pub mod spin {
        pub use crate::sync::spin_mutex::{Mutex as SpinMutex, MutexGuard as SpinMutexGuard};
    }
    pub use spin::{SpinMutex, SpinMutexGuard};
}
pub use mutex::{Mutex, MutexGuard};
pub mod rwlock {
    pub use crate::sync::spin_rwlock::{RwLock, RwLockReadGuard, RwLockWriteGuard};
}
pub use rwlock::{RwLock, RwLockReadGuard, RwLockWriteGuard};
