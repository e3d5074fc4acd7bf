//! A log sink that really formats everything it is given.

use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static RECORDS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

#[cfg(any(feature = "with_log", feature = "with_tracing"))]
struct Count(u64);

#[cfg(any(feature = "with_log", feature = "with_tracing"))]
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

#[cfg(any(feature = "with_log", feature = "with_tracing"))]
fn done(c: Count) {
    RECORDS.fetch_add(1, Relaxed);
    BYTES.fetch_add(c.0, Relaxed);
}

#[cfg(feature = "with_log")]
mod sink {
    use super::*;
    use std::fmt::Write;

    struct Sink;

    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            let mut c = Count(0);
            let _ = write!(c, "{} {} {}", r.level(), r.target(), r.args());
            done(c);
        }
        fn flush(&self) {}
    }

    pub fn install() {
        let _ = log::set_logger(&Sink);
        log::set_max_level(log::LevelFilter::Trace);
    }
}

#[cfg(feature = "with_tracing")]
mod sink {
    use super::*;
    use std::fmt::Write;
    use tracing::field::{Field, Visit};
    use tracing::span::{Attributes, Id, Record};
    use tracing::{Event, Metadata, Subscriber};

    struct Sink;

    impl Visit for Count {
        fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
            let _ = write!(self, "{}={v:?} ", f.name());
        }
    }

    impl Subscriber for Sink {
        fn enabled(&self, _: &Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, a: &Attributes<'_>) -> Id {
            let mut c = Count(0);
            a.record(&mut c);
            done(c);
            Id::from_u64(1)
        }
        fn record(&self, _: &Id, r: &Record<'_>) {
            let mut c = Count(0);
            r.record(&mut c);
            done(c);
        }
        fn record_follows_from(&self, _: &Id, _: &Id) {}
        fn event(&self, e: &Event<'_>) {
            let mut c = Count(0);
            e.record(&mut c);
            done(c);
        }
        fn enter(&self, _: &Id) {}
        fn exit(&self, _: &Id) {}
    }

    pub fn install() {
        let _ = tracing::subscriber::set_global_default(Sink);
    }
}

pub fn install() {
    #[cfg(any(feature = "with_log", feature = "with_tracing"))]
    sink::install();
}

pub fn totals() -> (u64, u64) {
    (RECORDS.load(Relaxed), BYTES.load(Relaxed))
}
