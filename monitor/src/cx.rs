//! What a case sees: its generator, and where it records what the monitors observed.
use crate::rng::{hash_bytes, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

/// Set while the code under test runs on behalf of a property that does *not* own the call: a hang
/// there is inconclusive for that property.
pub static FOREIGN_CALL: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Debug, Default)]
pub struct PanicInfo {
    pub message: String,
    pub file: String,
    pub line: u32,
}

pub static LAST_PANIC: Mutex<Option<PanicInfo>> = Mutex::new(None);

/// The last arithmetic overflow that panicked in the code under test, caught or not.
pub static OVERFLOW: Mutex<Option<String>> = Mutex::new(None);

/// A panic raised by the monitor's own source (a bug of the monitor, never a verdict).
pub fn is_own_panic(p: &PanicInfo) -> bool {
    p.file.starts_with("src/") || p.file.contains("/verif/monitor/")
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        if message.contains("unsafe precondition") {
            // not a panic to recover from: the process aborts after this
            eprintln!("{} (at {}:{})", message, file, line);
        }
        let p = PanicInfo { message: message.clone(), file: file.clone(), line };
        if message.starts_with("attempt to ") && message.contains("overflow") && !is_own_panic(&p) {
            if let Ok(mut g) = OVERFLOW.lock() {
                *g = Some(format!("{} (at {}:{})", message, file, line));
            }
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some(PanicInfo { message, file, line });
        }
    }));
}

pub enum Stop {
    /// The property is violated.
    Violation(String),
    /// The monitor itself failed.
    Internal(String),
}

pub type CaseResult = Result<(), Stop>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::cx::Stop::Violation(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::cx::Stop::Violation(format!($($arg)*))); }
    };
}

pub struct Cx {
    pub rng: Rng,
    pub prop: &'static str,
    pub thorough: bool,
    pub index: u64,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// Plain-text account of the current case, for the replay file.
    pub trace: String,
    pub scratch: String,
    pub digest: u64,
}

impl Cx {
    pub fn new(prop: &'static str, thorough: bool, scratch: String) -> Cx {
        Cx {
            rng: Rng::new(0),
            prop,
            thorough,
            index: 0,
            evaluations: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            trace: String::new(),
            scratch,
            digest: 0,
        }
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// A largest value seen; the name starts with "most_".
    pub fn max(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(c) => *c = n.max(*c),
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    /// Records one evaluated case; `key` identifies its content.
    pub fn nontrivial(&mut self, key: &[u8]) {
        if self.distinct.len() < 400_000 {
            self.distinct.insert(hash_bytes(key));
        }
    }
    pub fn note(&mut self, s: &str) {
        if self.trace.len() < 200_000 {
            self.trace.push_str(s);
            self.trace.push('\n');
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str(" ...");
            }
            self.samples.push(s);
        }
    }
    /// Runs a call of the library. `owned` says whether a panic in it violates the property under
    /// check; a panic in a call that is not owned gives `Ok(None)` and the case should end.
    pub fn call<R>(&mut self, what: &str, owned: bool, f: impl FnOnce() -> R) -> Result<Option<R>, Stop> {
        FOREIGN_CALL.store(!owned, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        FOREIGN_CALL.store(false, Ordering::SeqCst);
        match r {
            Ok(v) => Ok(Some(v)),
            Err(_) => {
                let p = LAST_PANIC.lock().ok().and_then(|g| g.clone()).unwrap_or_default();
                if is_own_panic(&p) {
                    return Err(Stop::Internal(format!("{} {}:{}", p.message, p.file, p.line)));
                }
                if owned {
                    Err(Stop::Violation(format!("{} panicked: {} (at {}:{})", what, p.message, p.file, p.line)))
                } else {
                    self.count("cases_ended_by_a_panic_owned_by_another_property");
                    Ok(None)
                }
            }
        }
    }
}
