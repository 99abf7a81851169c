//! What a deployment that traces everything does: every event and every span of the code under
//! test is formatted, and thrown away. Switched on for some runs.

use std::cell::Cell;
use std::fmt::{self, Write};

use tracing_core::field::{Field, Visit};
use tracing_core::span::{Attributes, Current, Id, Record};
use tracing_core::{Event, Interest, LevelFilter, Metadata, Subscriber};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

/// Once in a process.
pub fn install() {
    let _ = tracing_core::dispatcher::set_global_default(tracing_core::Dispatch::new(Sink));
}
pub fn is_on() -> bool {
    ON.with(|c| c.get())
}
/// Whether the code running on this thread is traced.
pub fn on(on: bool) {
    ON.with(|c| c.set(on));
}

struct Sink;

/// Formats and forgets.
struct Nowhere(usize);
impl Write for Nowhere {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
impl Visit for Nowhere {
    fn record_debug(&mut self, _: &Field, v: &dyn fmt::Debug) {
        write!(self, "{v:?}").expect("formatted");
    }
}

impl Subscriber for Sink {
    fn register_callsite(&self, m: &'static Metadata<'static>) -> Interest {
        if m.target().starts_with("haproxy") {
            Interest::sometimes()
        } else {
            Interest::never()
        }
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        ON.try_with(|c| c.get()).unwrap_or(false) && m.target().starts_with("haproxy")
    }
    fn max_level_hint(&self) -> Option<LevelFilter> {
        Some(LevelFilter::TRACE)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        a.record(&mut Nowhere(0));
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Nowhere(0));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        simhook::point("trace");
        let mut n = Nowhere(0);
        e.record(&mut n);
        if crate::ctx::active() {
            crate::ctx::probe("events traced");
        }
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
    fn current_span(&self) -> Current {
        Current::none()
    }
}
