//! A run while somebody listens to everything that is logged.

use std::{
    fmt::{Debug, Write},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        OnceLock,
    },
    thread,
    time::Duration,
};

use serde_json::{json, Value};
use tracing::{
    field::{Field, Visit},
    span::{Attributes, Id, Record},
    subscriber::Interest,
    Event, Level, Metadata, Subscriber,
};

use crate::together;

static LEVEL: AtomicUsize = AtomicUsize::new(0);
static SLOW: AtomicU64 = AtomicU64::new(0);
static HEARD: AtomicU64 = AtomicU64::new(0);
static SPANS: AtomicU64 = AtomicU64::new(1);

struct Listener;

/// everything is formatted, as a writer would do it
struct Format(String);
impl Visit for Format {
    fn record_debug(&mut self, field: &Field, value: &dyn Debug) {
        let _ = write!(self.0, "{}={value:?} ", field.name());
    }
}

fn number(l: &Level) -> usize {
    match *l {
        Level::ERROR => 1,
        Level::WARN => 2,
        Level::INFO => 3,
        Level::DEBUG => 4,
        Level::TRACE => 5,
    }
}

impl Subscriber for Listener {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        number(m.level()) <= LEVEL.load(Ordering::SeqCst)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let mut f = Format(String::new());
        a.record(&mut f);
        Id::from_u64(SPANS.fetch_add(1, Ordering::SeqCst))
    }
    fn record(&self, _: &Id, values: &Record<'_>) {
        values.record(&mut Format(String::new()));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, event: &Event<'_>) {
        event.record(&mut Format(String::new()));
        HEARD.fetch_add(1, Ordering::SeqCst);
        match SLOW.load(Ordering::SeqCst) {
            0 => {},
            us => thread::sleep(Duration::from_micros(us)),
        }
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn logging(cmd: &Value) -> Value {
    static SET: OnceLock<()> = OnceLock::new();
    SET.get_or_init(|| tracing::subscriber::set_global_default(Listener).unwrap());
    SLOW.store(cmd["slow"].as_u64().unwrap(), Ordering::SeqCst);
    let before = HEARD.load(Ordering::SeqCst);
    LEVEL.store(cmd["level"].as_u64().unwrap() as usize, Ordering::SeqCst);
    let r = together::one(&cmd["run"]);
    LEVEL.store(0, Ordering::SeqCst);
    json!({"out": r["out"], "paths": r["paths"], "heard": HEARD.load(Ordering::SeqCst) - before})
}
