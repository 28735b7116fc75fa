//! Logging on and off: the arguments of a log statement are evaluated and formatted only when an application asks for
//! it, which must change nothing else. Small families and spaces are therefore run a second time with everything logged.
use std::fmt::{self, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use tracing::{field, span, Event, Metadata, Subscriber};

pub const LOGGED: &str = " [everything logged]";
static ON: AtomicBool = AtomicBool::new(false);
static SPANS: AtomicU64 = AtomicU64::new(1);

struct Nowhere;
impl Write for Nowhere {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}
impl field::Visit for Nowhere {
    fn record_debug(&mut self, _: &field::Field, v: &dyn fmt::Debug) {
        let _ = write!(Nowhere, "{v:?}");
    }
}
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = write!(Nowhere, "{}", r.args());
    }
    fn flush(&self) {}
}
impl Subscriber for Sink {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        ON.load(Relaxed)
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        a.record(&mut Nowhere);
        span::Id::from_u64(SPANS.fetch_add(1, Relaxed))
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Nowhere);
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Nowhere);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn install() {
    let _ = log::set_boxed_logger(Box::new(Sink));
    let _ = tracing::subscriber::set_global_default(Sink);
    set(false);
}
pub fn set(on: bool) {
    ON.store(on, Relaxed);
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}
