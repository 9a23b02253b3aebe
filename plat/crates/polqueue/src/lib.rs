//! The real concurrent-queue, but a bounded queue may be smaller than asked for: the simulator says how small. A run is
//! too short to fill a queue of a thousand entries.

pub use concurrent_queue::*;

extern "C" {
    fn polsim_queue_cap(asked: usize) -> usize;
}

pub struct ConcurrentQueue<T>(concurrent_queue::ConcurrentQueue<T>);

impl<T> ConcurrentQueue<T> {
    pub fn bounded(cap: usize) -> Self {
        Self(concurrent_queue::ConcurrentQueue::bounded(unsafe { polsim_queue_cap(cap) }))
    }

    pub fn unbounded() -> Self {
        Self(concurrent_queue::ConcurrentQueue::unbounded())
    }
}

impl<T> std::ops::Deref for ConcurrentQueue<T> {
    type Target = concurrent_queue::ConcurrentQueue<T>;

    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl<T> std::fmt::Debug for ConcurrentQueue<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
