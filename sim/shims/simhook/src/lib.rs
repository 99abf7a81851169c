//! The seam between the vendored crates (tokio, dashmap) and the simulator.
//!
//! Everything here is per OS thread and inert until the simulator installs something, so the
//! vendored crates behave as released when no simulation runs on the calling thread.

use std::cell::{Cell, RefCell};
use std::io;
use std::net::SocketAddr;
use std::sync::Arc;
use std::task::{Context, Poll};

/// A simulated byte stream (what a `TcpStream` is backed by in a simulation).
pub trait SimStream: Send + Sync {
    fn poll_read(&self, cx: &mut Context<'_>, dst: &mut [u8]) -> Poll<io::Result<usize>>;
    fn poll_peek(&self, cx: &mut Context<'_>, dst: &mut [u8]) -> Poll<io::Result<usize>>;
    fn poll_write(&self, cx: &mut Context<'_>, src: &[u8]) -> Poll<io::Result<usize>>;
    fn poll_flush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn poll_shutdown(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn peer_addr(&self) -> SocketAddr;
    /// The owner was dropped.
    fn closed(&self);
}

/// A simulated listening socket.
pub trait SimListener: Send + Sync {
    fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(Arc<dyn SimStream>, SocketAddr)>>;
    /// The owner was dropped.
    fn closed(&self);
}

/// Closes the simulated object when the owner goes away.
pub struct StreamHandle(pub Arc<dyn SimStream>);
impl Drop for StreamHandle {
    fn drop(&mut self) {
        self.0.closed();
    }
}
pub struct ListenerHandle(pub Arc<dyn SimListener>);
impl Drop for ListenerHandle {
    fn drop(&mut self) {
        self.0.closed();
    }
}

type Chooser = Box<dyn FnMut(usize) -> usize>;

thread_local! {
    static LISTENER: RefCell<Option<Arc<dyn SimListener>>> = const { RefCell::new(None) };
    static CHOOSER: RefCell<Option<Chooser>> = const { RefCell::new(None) };
    static POINT: Cell<Option<fn(&'static str)>> = const { Cell::new(None) };
    static DEADLOCK: Cell<Option<fn(usize)>> = const { Cell::new(None) };
    static CLOCK: Cell<u64> = const { Cell::new(0) };
    static CLOCK_ON: Cell<bool> = const { Cell::new(false) };
}

/// Installs the listener that the next `TcpListener::from_std`/`bind` on this thread adopts.
pub fn set_listener(l: Option<Arc<dyn SimListener>>) {
    LISTENER.with(|c| *c.borrow_mut() = l);
}

/// Whether a listener is installed for this thread.
pub fn has_listener() -> bool {
    LISTENER.with(|c| c.borrow().is_some())
}

/// Used by tokio: takes the listener installed for this thread, if any.
pub fn take_listener() -> Option<ListenerHandle> {
    LISTENER.with(|c| c.borrow_mut().take()).map(ListenerHandle)
}

/// Installs the function that decides which of `n` runnable tasks runs next.
pub fn set_chooser(c: Option<Chooser>) {
    CHOOSER.with(|s| *s.borrow_mut() = c);
}

/// Used by tokio: which of `n` runnable tasks runs next.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        // counted by the simulator too: the number of scheduling steps is its progress measure
        CHOOSER.try_with(|s| s.try_borrow_mut().ok().and_then(|mut s| s.as_mut().map(|f| f(n)))).ok();
        return 0;
    }
    CHOOSER
        .try_with(|s| s.try_borrow_mut().ok().and_then(|mut s| s.as_mut().map(|f| f(n))))
        .ok()
        .flatten()
        .map_or(0, |i| i % n)
}

/// Installs the scheduling point of the calling (simulated) thread.
pub fn set_point(f: Option<fn(&'static str)>) {
    POINT.with(|c| c.set(f));
}

/// A place where a simulated thread may be preempted.
#[inline]
pub fn point(what: &'static str) {
    if let Ok(Some(f)) = POINT.try_with(|c| c.get()) {
        f(what)
    }
}

/// Installs what a simulated thread does when it must wait for the lock at `addr`.
pub fn set_contended(f: Option<fn(usize)>) {
    DEADLOCK.with(|c| c.set(f));
}

/// The lock at `addr` is taken: wait. Returns false if no simulation is running on this thread.
pub fn contended(addr: usize) -> bool {
    match DEADLOCK.try_with(|c| c.get()) {
        Ok(Some(f)) => {
            f(addr);
            true
        }
        _ => false,
    }
}

/// Simulated nanoseconds of this thread's clock, if it has one.
pub fn clock() -> Option<u64> {
    CLOCK_ON
        .try_with(|c| c.get())
        .unwrap_or(false)
        .then(|| CLOCK.with(|c| c.get()))
}
pub fn clock_on(on: bool) {
    CLOCK_ON.with(|c| c.set(on));
    CLOCK.with(|c| c.set(0));
}
/// Used by tokio when its paused clock moves.
pub fn clock_advance(d: std::time::Duration) {
    let _ = CLOCK.try_with(|c| c.set(c.get() + d.as_nanos() as u64));
}
