// Runner shared by all generated harness crates: decodes documents with the
// generated types and records what happened, one JSON line per case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
/// whether decoding has a memory budget
static BUDGET: AtomicUsize = AtomicUsize::new(1);

fn grow(n: usize) {
    let c = CUR.fetch_add(n, Relaxed) + n;
    COUNT.fetch_add(1, Relaxed);
    PEAK.fetch_max(c, Relaxed);
    if c > LIMIT.load(Relaxed) {
        // the monitored memory budget is exceeded: stop before the machine suffers
        LIMIT.store(usize::MAX, Relaxed);
        let _ = std::io::stdout().write_all(b"\nOVERBUDGET\n");
        let _ = std::io::stdout().flush();
        std::process::abort();
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            grow(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n >= l.size() {
                grow(n - l.size());
            } else {
                CUR.fetch_sub(l.size() - n, Relaxed);
            }
        }
        q
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

pub fn js(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{85}' => {
                out.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub struct Out {
    pub s: String,
}
impl Out {
    pub fn put(&mut self, k: &str, v: &str) {
        self.s.push(',');
        js(&mut self.s, k);
        self.s.push(':');
        js(&mut self.s, v);
    }
    pub fn num(&mut self, k: &str, v: usize) {
        self.s.push(',');
        js(&mut self.s, k);
        self.s.push(':');
        self.s.push_str(&v.to_string());
    }
}

/// only the calls, nothing is recorded
static LIGHT: AtomicUsize = AtomicUsize::new(0);

/// decode; describe; encode; decode again
pub fn exec<T: std::fmt::Debug + Clone + PartialEq>(
    doc: &str,
    out: &mut Out,
    from: impl Fn(&str) -> Result<T, ::xsd::decode::FromXmlError>,
    to: impl Fn(&T) -> Result<Vec<u8>, ::xsd::xml::writer::Error>,
) {
    if LIGHT.load(Relaxed) == 1 {
        if let Ok(v) = from(doc) {
            let _ = to(&v);
        }
        return;
    }
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    COUNT.store(0, Relaxed);
    if BUDGET.load(Relaxed) == 1 {
        LIMIT.store(base + 64 * 1024 * 1024 + 4000 * doc.len(), Relaxed);
    }
    let res = from(doc);
    LIMIT.store(usize::MAX, Relaxed);
    let peak = PEAK.load(Relaxed).saturating_sub(base);
    let count = COUNT.load(Relaxed);
    out.num("peak", peak);
    out.num("allocs", count);
    match res {
        Err(e) => {
            out.put("err", &format!("{:?}", e));
            out.put("msg", &e.to_string());
            let again = from(doc);
            out.put("again", &match again {
                Ok(v) => format!("{:?}", v),
                Err(e) => format!("{:?}", e),
            });
        }
        Ok(v) => {
            let d = format!("{:?}", v);
            match from(doc) {
                Ok(w) => {
                    let e = format!("{:?}", w);
                    out.put("again", if e == d { "=" } else { &e });
                }
                Err(e) => out.put("again", &format!("{:?}", e)),
            }
            if format!("{:?}", v.clone()) != d || (v.clone() != v && !d.contains("NaN")) {
                out.put("clone", "differs");
            }
            match to(&v) {
                Err(e) => out.put("enc_err", &e.to_string()),
                Ok(x) => {
                    match to(&v) {
                        Ok(y) if x == y => {}
                        _ => out.put("enc_again", "differs"),
                    }
                    match String::from_utf8(x) {
                        Err(e) => out.put("enc_err", &format!("not UTF-8: {}", e)),
                        Ok(x) => {
                            match from(&x) {
                                Ok(w) => {
                                    let e = format!("{:?}", w);
                                    if w == v || (e == d && d.contains("NaN")) {
                                        out.put("rt", "=");
                                    } else if e == d {
                                        out.put("rt", "!=");
                                    } else {
                                        out.put("rt", &e);
                                    }
                                    // the encoding of an equal value is the same document
                                    match to(&w) {
                                        Ok(y) if y == x.as_bytes() => {}
                                        Ok(y) => out.put("reenc", &String::from_utf8_lossy(&y)),
                                        Err(e) => out.put("reenc", &e.to_string()),
                                    }
                                }
                                Err(e) => out.put("rt", &format!("error: {:?}", e)),
                            }
                            out.put("xml", &x);
                        }
                    }
                }
            }
            out.put("dbg", &d);
        }
    }
}

pub type Case = (&'static str, fn(&str, &mut Out));
unsafe extern "C" {
    fn clock() -> i64;
}
static CASE_START: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);

/// A call that burns more CPU time than this does not terminate for all practical purposes.
fn watchdog(secs: i64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let start = CASE_START.load(Relaxed);
        if start >= 0 && unsafe { clock() } - start > secs * 1_000_000 && CASE_START.load(Relaxed) == start {
            let _ = std::io::stdout().write_all(b"\nHANG\n");
            let _ = std::io::stdout().flush();
            std::process::abort();
        }
    });
}

type Map<'a> = std::collections::HashMap<&'a str, fn(&str, &mut Out)>;

/// what a call returns, without the measurements
fn observe(map: &Map, key: &str, doc: &str) -> String {
    let mut out = Out { s: String::new() };
    match map.get(key) {
        None => return String::new(),
        Some(f) => {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(doc, &mut out))).is_err() {
                out.put("panic", "");
            }
        }
    }
    // `peak` and `allocs` come first
    let s = out.s;
    match s.match_indices(',').nth(2) {
        Some((ix, _)) if s.starts_with(",\"peak\"") => s[ix..].to_string(),
        _ => s,
    }
}

fn read_cases() -> Vec<(String, String, String)> {
    let mut cases = Vec::new();
    let mut inp = std::io::stdin().lock();
    let mut line = String::new();
    while inp.read_line(&mut line).unwrap() != 0 {
        let mut it = line.trim_end().split(' ');
        let id = it.next().unwrap().to_string();
        let key = it.next().unwrap().to_string();
        let n: usize = it.next().unwrap().parse().unwrap();
        let mut buf = vec![0u8; n];
        inp.read_exact(&mut buf).unwrap();
        cases.push((id, key, String::from_utf8(buf).unwrap()));
        line.clear();
    }
    cases
}

/// A long history: every case many times in a row on one thread, then all cases once more.
/// Nothing may change, and no memory may stay behind.
fn hammer(map: &Map, times: usize) {
    let cases = read_cases();
    let expect: Vec<String> = cases.iter().map(|c| observe(map, &c.1, &c.2)).collect();
    let mut calls = 0;
    let mut reports = Vec::new();
    for (id, key, doc) in &cases {
        let Some(f) = map.get(key.as_str()) else { continue };
        LIGHT.store(1, Relaxed);
        let mut mid = 0;
        let mut scratch = Out { s: String::with_capacity(1 << 20) };
        for k in 0..times {
            if k == times / 2 {
                mid = CUR.load(Relaxed);
            }
            scratch.s.clear();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(doc, &mut scratch)));
        }
        let end = CUR.load(Relaxed);
        LIGHT.store(0, Relaxed);
        calls += times;
        if end > mid + times / 4 {
            let mut o = Out { s: format!("{{\"id\":{}", id) };
            o.put("leak", &format!("{} bytes stay allocated after {} calls", end - mid, times - times / 2));
            o.s.push('}');
            reports.push(o.s);
        }
        for ((id2, key2, doc2), e) in cases.iter().zip(&expect) {
            let got = observe(map, key2, doc2);
            if &got != e && reports.len() < 20 {
                let mut o = Out { s: format!("{{\"id\":{},\"after\":{}", id2, id) };
                o.put("expected", e);
                o.put("got", &got);
                o.s.push('}');
                reports.push(o.s);
            }
        }
    }
    let o = std::io::stdout();
    let mut o = o.lock();
    for r in reports {
        writeln!(o, "{}", r).unwrap();
    }
    writeln!(o, "{{\"id\":-1,\"calls\":{}}}", calls).unwrap();
}

/// All cases on many threads at once, each thread in its own order: every thread has to
/// see what a sequential execution sees.
fn concurrent(map: &Map, threads: usize) {
    let cases = read_cases();
    if cases.is_empty() {
        return;
    }
    let rounds: usize = std::env::var("RT_ROUNDS").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let n = cases.len();
    // the sequential observations, before any concurrency and in reverse order
    let mut expect = vec![String::new(); n];
    for i in (0..n).rev() {
        expect[i] = observe(map, &cases[i].1, &cases[i].2);
    }
    let clock = AtomicUsize::new(0);
    let overlap = AtomicUsize::new(0);
    let running = AtomicUsize::new(0);
    let bad = std::sync::Mutex::new(Vec::<String>::new());
    let start = std::sync::Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (cases, expect, clock, overlap, running, bad, start) =
                (&cases, &expect, &clock, &overlap, &running, &bad, &start);
            let room = std::thread::Builder::new().stack_size(256 << 20);
            let spawned = room.spawn_scoped(s, move || {
                let mut x = 0x9e3779b97f4a7c15u64.wrapping_mul(t as u64 + 1);
                start.wait();
                for r in 0..rounds {
                    for k in 0..n {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        let i = match (t + r) % 4 {
                            0 => k,
                            1 => n - 1 - k,
                            2 => x as usize % n,
                            _ => (k / 2) % n, // the same case on several threads
                        };
                        if running.fetch_add(1, Relaxed) > 0 {
                            overlap.fetch_add(1, Relaxed);
                        }
                        let got = observe(map, &cases[i].1, &cases[i].2);
                        running.fetch_sub(1, Relaxed);
                        clock.fetch_add(1, Relaxed);
                        if got != expect[i] {
                            let mut o = Out { s: format!("{{\"id\":{}", cases[i].0) };
                            o.put("thread", &t.to_string());
                            o.put("expected", &expect[i]);
                            o.put("got", &got);
                            o.s.push('}');
                            let mut b = bad.lock().unwrap();
                            if b.len() < 20 {
                                b.push(o.s);
                            }
                        }
                    }
                }
            });
            spawned.expect("a thread");
        }
    });
    let o = std::io::stdout();
    let mut o = o.lock();
    for b in bad.lock().unwrap().iter() {
        writeln!(o, "{}", b).unwrap();
    }
    writeln!(o, "{{\"id\":-1,\"calls\":{},\"overlapping\":{}}}", clock.load(Relaxed), overlap.load(Relaxed)).unwrap();
}

pub fn main(table: &[Case]) {
    std::panic::set_hook(Box::new(|_| {}));
    let map: Map = table.iter().cloned().collect();
    if let Some(n) = std::env::var("RT_THREADS").ok().and_then(|v| v.parse().ok()) {
        LIMIT.store(usize::MAX, Relaxed);
        BUDGET.store(0, Relaxed);
        return concurrent(&map, n);
    }
    if let Some(n) = std::env::var("RT_HAMMER").ok().and_then(|v| v.parse().ok()) {
        LIMIT.store(usize::MAX, Relaxed);
        BUDGET.store(0, Relaxed);
        return hammer(&map, n);
    }
    if let Some(n) = std::env::var("RT_CASE_SECS").ok().and_then(|v| v.parse().ok()) {
        watchdog(n);
    }
    let stdin = std::io::stdin();
    let mut inp = stdin.lock();
    let stdout = std::io::stdout();
    let mut line = String::new();
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let mut it = line.trim_end().split(' ');
        let id = it.next().unwrap().to_string();
        let key = it.next().unwrap().to_string();
        let n: usize = it.next().unwrap().parse().unwrap();
        let mut buf = vec![0u8; n];
        inp.read_exact(&mut buf).unwrap();
        let doc = String::from_utf8(buf).unwrap();
        {
            let mut o = stdout.lock();
            writeln!(o, "BEGIN {}", id).unwrap();
            o.flush().unwrap();
        }
        let mut out = Out { s: format!("{{\"id\":{}", id) };
        match map.get(key.as_str()) {
            None => out.put("nokey", &key),
            Some(f) => {
                let mut inner = Out { s: String::new() };
                let base = CUR.load(Relaxed);
                PEAK.store(base, Relaxed);
                LIMIT.store(base + 1024 * 1024 * 1024 + 20000 * doc.len(), Relaxed);
                CASE_START.store(unsafe { clock() }, Relaxed);
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&doc, &mut inner))) {
                    Ok(()) => out.s.push_str(&inner.s),
                    Err(p) => {
                        LIMIT.store(usize::MAX, Relaxed);
                        let m = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        out.s.push_str(&inner.s);
                        out.put("panic", &m);
                    }
                }
                CASE_START.store(-1, Relaxed);
                LIMIT.store(usize::MAX, Relaxed);
                out.num("mem", PEAK.load(Relaxed).saturating_sub(base));
            }
        }
        out.s.push_str("}\n");
        let mut o = stdout.lock();
        o.write_all(out.s.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}
