pub mod channel {
    pub use shuttle::sync::mpsc::{channel as unbounded, Receiver, RecvError, SendError, Sender};
}
