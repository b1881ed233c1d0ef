//! Stand-in for `pretty_env_logger`: same builder interface, but it may be
//! initialised many times (one address space hosts many simulated processes),
//! and it prints plain lines to the simulated process' stderr.
use log::{LevelFilter, Log, Metadata, Record};

pub use env_logger;
pub extern crate log;

struct Plain;

impl Log for Plain {
    fn enabled(&self, _: &Metadata) -> bool {
        true
    }
    fn log(&self, r: &Record) {
        if r.level() > LevelFilter::Info && !r.target().starts_with("artefacta") {
            return;
        }
        // (like the real one: in one go, and not minding whether that works)
        use std::io::Write;
        let line = format!("{} {} > {}\n", r.level(), r.target(), r.args());
        let _ = std::io::stderr().write_all(line.as_bytes());
    }
    fn flush(&self) {}
}

static PLAIN: Plain = Plain;

pub struct Builder {
    level: LevelFilter,
}

impl Builder {
    pub fn new() -> Self {
        Builder { level: LevelFilter::Off }
    }
    pub fn target(&mut self, _: env_logger::Target) -> &mut Self {
        self
    }
    pub fn filter(&mut self, _: Option<&str>, level: LevelFilter) -> &mut Self {
        self.level = self.level.max(level);
        self
    }
    pub fn filter_level(&mut self, level: LevelFilter) -> &mut Self {
        self.filter(None, level)
    }
    pub fn filter_module(&mut self, module: &str, level: LevelFilter) -> &mut Self {
        self.filter(Some(module), level)
    }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self {
        self
    }
    pub fn init(&mut self) {
        let _ = self.try_init();
    }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
        let _ = log::set_logger(&PLAIN);
        log::set_max_level(self.level);
        Ok(())
    }
}

impl Default for Builder {
    fn default() -> Self {
        Self::new()
    }
}

pub fn formatted_builder() -> Builder {
    Builder::new()
}
pub fn formatted_timed_builder() -> Builder {
    Builder::new()
}
