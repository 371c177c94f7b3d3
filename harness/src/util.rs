//! Random numbers, the event log and the guards (panic, hang) around every call.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
}

static OUT: Mutex<Option<BufWriter<File>>> = Mutex::new(None);
static PENDING: Mutex<Option<(String, Instant)>> = Mutex::new(None);
static SYNC: Mutex<Option<String>> = Mutex::new(None);
static PANIC: Mutex<Option<String>> = Mutex::new(None);
pub static EVENTS: AtomicU64 = AtomicU64::new(0);
/// A call that runs longer than this is reported as one that does not terminate.
const HANG: Duration = Duration::from_secs(60);

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push('\''),
            '\\' => o.push('/'),
            '\n' | '\r' | '\t' => o.push(' '),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'),
            c => o.push(c),
        }
        if o.len() > 300 {
            break;
        }
    }
    o
}

pub fn emit(line: &str) {
    EVENTS.fetch_add(1, Ordering::Relaxed);
    let mut o = OUT.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(w) = o.as_mut() {
        w.write_all(line.as_bytes()).unwrap();
        w.write_all(b"\n").unwrap();
    }
}

pub fn finish() {
    let mut o = OUT.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(w) = o.as_mut() {
        w.flush().unwrap();
    }
}

fn fatal(kind: &str, pending: &str, msg: &str) -> ! {
    emit(&format!("{{{},\"pn\":\"{}: {}\"}}", pending, kind, esc(msg)));
    finish();
    std::process::exit(7);
}

pub fn open(path: &str) {
    *OUT.lock().unwrap() = Some(BufWriter::with_capacity(1 << 20, File::create(path).unwrap()));
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                format!("{}:{}", f.rsplit('/').next().unwrap_or(f), l.line())
            })
            .unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        let mut p = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(first) = p.as_ref() {
            // a second panic while the first unwinds: the process would abort
            let pend = PENDING
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .as_ref()
                .map(|x| x.0.clone());
            if let Some(pend) = pend {
                fatal("abort", &pend, &format!("{} / {}", first, text));
            }
        }
        *p = Some(text);
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let pend = {
            let p = PENDING.lock().unwrap_or_else(|e| e.into_inner());
            match p.as_ref() {
                Some((s, t)) if t.elapsed() > HANG => Some(s.clone()),
                _ => None,
            }
        };
        if let Some(s) = pend {
            fatal("hang", &s, "the call did not return");
        }
    });
}

/// From now on, note every call before it is made: a crash leaves no other trace.
pub fn sync_to(path: &str) {
    *SYNC.lock().unwrap() = Some(path.to_string());
}

/// Runs one call; a panic is returned as text.
pub fn guard<R>(pending: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    if let Some(path) = SYNC.lock().unwrap_or_else(|e| e.into_inner()).as_ref() {
        finish();
        let _ = std::fs::write(path, pending);
    }
    *PENDING.lock().unwrap_or_else(|e| e.into_inner()) =
        Some((pending.to_string(), Instant::now()));
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let r = catch_unwind(AssertUnwindSafe(f));
    *PENDING.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let msg = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
    r.map_err(|_| msg.unwrap_or_else(|| "panic".into()))
}

pub fn ints<T: std::fmt::Display>(xs: &[T]) -> String {
    let mut s = String::with_capacity(xs.len() * 4 + 2);
    s.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

pub fn list(xs: impl IntoIterator<Item = String>) -> String {
    let mut s = String::from("[");
    for (i, x) in xs.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x);
    }
    s.push(']');
    s
}

/// All numbers of a line.
pub fn numbers(l: &str) -> Vec<i64> {
    l.split(|c: char| !(c.is_ascii_digit() || c == '-'))
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap())
        .collect()
}
