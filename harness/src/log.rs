//! A tracing subscriber that formats everything it is given and throws it away: the second pass runs with
//! it, as a node with logging turned on does.
use std::fmt::{Debug, Write};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber};

struct All;
struct Text(String);

impl Visit for Text {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        let _ = write!(self.0, "{}={v:?} ", f.name());
    }
}

impl Subscriber for All {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        a.record(&mut Text(String::new()));
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Text(String::new()));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Text(String::new()));
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn on() {
    let _ = tracing::subscriber::set_global_default(All);
}
