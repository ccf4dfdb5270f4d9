pub mod core {
    pub mod effects {
        #[derive(Clone, Debug, Default)]
        pub struct ProgressHandle;

        impl ProgressHandle {
            pub fn notify_progress(&self, _current: usize, _total: usize) {}
            pub fn notify_progress_inc(&self, _increment: usize) {}
            pub fn notify_status(&self, _icon: (), _message: impl Into<String>) {}
        }
    }
}
