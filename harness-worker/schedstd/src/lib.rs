//! The standard library, with its synchronisation primitives and threads
//! replaced by ones whose every operation is a scheduling point.
pub use ::std::*;
/// The unchanged standard library.
pub use ::std as real;

pub mod sync {
    pub use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult, Weak};
    pub use shuttle::sync::*;
}

pub mod thread {
    pub use shuttle::thread::*;
}
