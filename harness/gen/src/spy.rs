//! Takes down every tracing record made on a thread, in full.
use std::cell::RefCell;
use std::fmt::{self, Write};
use std::sync::Once;

use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

thread_local! { static OUT: RefCell<Option<String>> = const { RefCell::new(None) }; }
struct Spy;
struct V<'a>(&'a mut String);
impl Visit for V<'_> {
    fn record_debug(&mut self, f: &Field, v: &dyn fmt::Debug) { let _ = write!(self.0, " {}={v:?} {v:#?}", f.name()); }
    fn record_str(&mut self, f: &Field, v: &str) { let _ = write!(self.0, " {}={v}", f.name()); }
    fn record_error(&mut self, f: &Field, v: &(dyn std::error::Error + 'static)) {
        let _ = write!(self.0, " {}={v} {v:?}", f.name());
        let mut e = v.source();
        while let Some(x) = e { let _ = write!(self.0, ": {x} {x:?}"); e = x.source(); }
    }
}
fn with(f: impl FnOnce(&mut String)) { OUT.with(|o| if let Ok(mut o) = o.try_borrow_mut() { if let Some(o) = o.as_mut() { f(o) } }) }
impl Subscriber for Spy {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest { Interest::sometimes() }
    fn enabled(&self, _: &Metadata<'_>) -> bool { OUT.with(|o| o.try_borrow().is_ok_and(|o| o.is_some())) }
    fn new_span(&self, a: &Attributes<'_>) -> Id { with(|o| { let _ = write!(o, "{} span {}", a.metadata().level(), a.metadata().name()); a.record(&mut V(o)); o.push('\n'); }); Id::from_u64(1) }
    fn record(&self, _: &Id, r: &Record<'_>) { with(|o| { r.record(&mut V(o)); o.push('\n'); }) }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) { with(|o| { let _ = write!(o, "{} {}", e.metadata().level(), e.metadata().target()); e.record(&mut V(o)); o.push('\n'); }) }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

/// From now on this thread's records are kept.
pub fn start() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| { let _ = tracing::subscriber::set_global_default(Spy); });
    OUT.with(|o| *o.borrow_mut() = Some(String::new()));
}
/// The records since the last call.
pub fn take() -> String { OUT.with(|o| o.borrow_mut().as_mut().map(std::mem::take).unwrap_or_default()) }
pub fn stop() -> String { OUT.with(|o| o.borrow_mut().take().unwrap_or_default()) }
