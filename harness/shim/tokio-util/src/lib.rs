//! tokio-util as seen by the code under test: everything is the real crate,
//! except that tracked tasks are scheduled through the simulation.
pub use real_util::*;

pub mod task {
    pub use real_util::task::*;
    use std::future::Future;
    use tokio::sim::Chaos;

    #[derive(Clone, Debug, Default)]
    pub struct TaskTracker(real_util::task::TaskTracker);

    impl TaskTracker {
        pub fn new() -> Self {
            Self(real_util::task::TaskTracker::new())
        }
        #[track_caller]
        pub fn spawn<F>(&self, f: F) -> tokio::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            self.0.spawn(Chaos::new(f))
        }
        pub fn track_future<F: Future>(&self, f: F) -> real_util::task::task_tracker::TrackedFuture<F> {
            self.0.track_future(f)
        }
    }
    impl std::ops::Deref for TaskTracker {
        type Target = real_util::task::TaskTracker;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
}
