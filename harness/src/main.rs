//! Runs recorded cases through wadec and writes what was observed.
//!
//!   vh run CASES OUT        every case, one after the other
//!   vh threads CASES OUT N  every case on N threads at once
//!   vh fresh CASES OUT      every case in a process of its own
//!
//! CASES is one JSON object per line.  The work is done in a child process
//! that is restarted after a crash, so that a crash is one more observation.
mod alloc;
mod project;
mod sessions;
mod source;

use serde_json::{Value, json};
use source::{Plan, Source};
use std::error::Error;
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, exit};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const STACK: usize = 8 << 20; // as a main thread has

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

fn input(c: &Value) -> Vec<u8> {
    if let Some(s) = c["b"].as_str() {
        return hex(s);
    }
    let mut v = vec![];
    for p in c["parts"].as_array().expect("b or parts") {
        let b = hex(p[0].as_str().unwrap());
        for _ in 0..p[1].as_u64().unwrap() {
            v.extend_from_slice(&b);
        }
    }
    v
}

fn usizes(v: &Value) -> Vec<usize> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
        .unwrap_or_default()
}

fn plan(c: &Value) -> Plan {
    Plan {
        chunks: usizes(&c["chunks"]),
        intr: usizes(&c["intr"]),
        fault: c["fault"].as_array().map(|f| {
            (
                f[0].as_u64().unwrap() as usize,
                f[1].as_str().unwrap().to_string(),
                f[2].as_bool().unwrap(),
                f.get(3).is_some(),
            )
        }),
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

/// Processor time of this thread.
fn cpu_us() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    (t.sec * 1_000_000 + t.nsec / 1000) as u64
}

fn chain(e: &dyn Error) -> Vec<String> {
    let mut v = vec![e.to_string()];
    let mut cur = e.source();
    while let Some(c) = cur {
        v.push(c.to_string());
        if v.len() > 200 {
            v.push("chain does not end".into());
            break;
        }
        cur = c.source();
    }
    v
}

fn decode_plain(b: &[u8]) -> String {
    match catch_unwind(|| project::outcome(&wadec::decode_module(b))) {
        Ok(s) => s,
        Err(_) => "[\"panic\"]".into(),
    }
}

/// A decoding whose result nobody looks at; `how` its reader ends.
fn earlier(b: &[u8], how: &str) {
    let fault = match how {
        "" | "panic" => None,
        k => Some((b.len(), k.to_string(), true, false)),
    };
    let _ = catch_unwind(AssertUnwindSafe(|| {
        if how == "panic" {
            struct Bang<'a>(&'a [u8]);
            impl std::io::Read for Bang<'_> {
                fn read(&mut self, to: &mut [u8]) -> std::io::Result<usize> {
                    if self.0.is_empty() {
                        panic!("reader");
                    }
                    self.0.read(to)
                }
            }
            drop(wadec::decode_module(Bang(b)));
        } else if fault.is_some() {
            let mut src = Source::new(b, Plan { fault, ..plan(&Value::Null) });
            drop(wadec::decode_module(&mut src));
        } else {
            drop(wadec::decode_module(b));
        }
    }));
}

fn scheduled(c: &Value) -> Value {
    let inputs: Vec<Vec<u8>> = c["sessions"].as_array().unwrap().iter().map(|x| hex(x.as_str().unwrap())).collect();
    let turns: Vec<sessions::Turn> = c["plan"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| sessions::Turn {
            s: t[0].as_u64().unwrap() as usize - 1,
            n: t[1].as_u64().unwrap() as usize,
            end: t[2].as_str().unwrap().to_string(),
        })
        .collect();
    let outs = if c["nested"].as_bool() == Some(true) {
        sessions::nested(&inputs, &turns, project::outcome)
    } else {
        sessions::on_threads(&inputs, &turns, project::outcome)
    };
    json!({"id": c["id"], "out": "", "outs": outs})
}

fn observe(c: &Value) -> Value {
    if c["sessions"].is_array() {
        return scheduled(c);
    }
    // what the process has decoded before
    if let Some(before) = c["before"].as_array() {
        for t in before {
            let (b, how, times) = (hex(t[0].as_str().unwrap()), t[1].as_str().unwrap(), t[2].as_u64().unwrap());
            for _ in 0..times {
                earlier(&b, how);
            }
        }
    }
    // processor time of the fastest of some decodings, in microseconds
    if let Some(n) = c["time"].as_u64() {
        let b = input(c);
        let t = (0..n)
            .map(|_| {
                let t0 = cpu_us();
                let r = catch_unwind(|| wadec::decode_module(&b[..]));
                let t1 = cpu_us();
                drop(r);
                t1 - t0
            })
            .min();
        return json!({"id": c["id"], "out": "", "cpu": t});
    }
    // what repeated decodings leave behind
    if let Some(n) = c["retained"].as_u64() {
        let b = input(c);
        let mut held = alloc::held();
        for k in 0..=n {
            let _ = catch_unwind(|| drop(wadec::decode_module(&b[..])));
            if k == 0 {
                held = alloc::held();
            }
        }
        return json!({"id": c["id"], "out": "", "left": alloc::held().saturating_sub(held)});
    }
    let data = input(c);
    let mut nested: Option<String> = None;
    let nest_data = c["nest"].as_array().map(|n| (n[0].as_u64().unwrap() as usize, hex(n[1].as_str().unwrap())));
    let mut src = Source::new(&data, plan(c));
    src.log = c["events"].as_bool() == Some(true);
    let nref = &mut nested;
    if let Some((at, nb)) = nest_data {
        src.hook = Some((at, Box::new(move || *nref = Some(decode_plain(&nb)))));
    }
    let t0 = Instant::now();
    let meter = alloc::start();
    let res = catch_unwind(AssertUnwindSafe(|| wadec::decode_module(&mut src)));
    let (peak, largest, calls) = meter.stop();
    let us = t0.elapsed().as_micros() as u64;
    let st = src.st.clone();
    drop(src);
    let mut o = json!({"id": c["id"], "got": st.delivered, "reads": st.reads, "intrs": st.intrs, "eofs": st.eofs,
        "faults": st.faults, "after": st.asked_after_fault,
        "peak": peak, "largest": largest, "allocs": calls, "us": us});
    let out = match res {
        Err(_) => "[\"panic\"]".to_string(),
        Ok(r) => {
            if c["render"].as_bool() == Some(true)
                && let Err(e) = &r
            {
                match catch_unwind(AssertUnwindSafe(|| (chain(e), format!("{e:?}"), format!("{e:#?}")))) {
                    Ok((msgs, d, p)) => {
                        o["render"] = json!(msgs);
                        o["debug"] = json!([d.len(), p.len()]);
                    }
                    Err(_) => o["render"] = json!("panic"),
                }
            }
            if c["prints"].as_bool() == Some(true)
                && let Ok(m) = &r
            {
                // how long the debug form is, up to a limit
                struct Upto(usize);
                impl std::fmt::Write for Upto {
                    fn write_str(&mut self, s: &str) -> std::fmt::Result {
                        self.0 += s.len();
                        if self.0 > 2_000_000 { Err(std::fmt::Error) } else { Ok(()) }
                    }
                }
                let mut w = Upto(0);
                let short = catch_unwind(AssertUnwindSafe(|| std::fmt::Write::write_fmt(&mut w, format_args!("{m:#?}")).is_ok()));
                o["prints"] = json!(short.unwrap_or(true));
            }
            if c["pretty"].as_bool() == Some(true)
                && let Ok(m) = &r
            {
                o["pretty"] = json!(catch_unwind(AssertUnwindSafe(|| format!("{m:#?}"))).unwrap_or("panic".into()));
            }
            let text = if c["brief"].as_bool() == Some(true) && r.is_ok() {
                "[\"ok\"]".to_string()
            } else {
                match catch_unwind(AssertUnwindSafe(|| project::outcome(&r))) {
                    Ok(s) => s,
                    Err(_) => "[\"unreadable\"]".into(),
                }
            };
            // dropping the result is part of using it
            if catch_unwind(AssertUnwindSafe(move || drop(r))).is_err() {
                "[\"panic\"]".into()
            } else {
                text
            }
        }
    };
    o["out"] = json!(out);
    if c["events"].as_bool() == Some(true) {
        o["ev"] = json!(st.events);
    }
    if let Some(n) = nested {
        o["nested"] = json!(n);
    }
    o
}

static CURRENT: AtomicI64 = AtomicI64::new(-1);
static SINCE: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    use std::time::{SystemTime, UNIX_EPOCH};
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

fn cases(path: &str) -> Vec<String> {
    BufReader::new(File::open(path).expect("cases")).lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect()
}

fn worker(path: &str, out: &str, start: usize, limit_s: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let lines = cases(path);
    let mut f = OpenOptions::new().append(true).create(true).open(out).unwrap();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(100));
            if CURRENT.load(SeqCst) >= 0 && now_ms().saturating_sub(SINCE.load(SeqCst)) > limit_s * 1000 {
                exit(98);
            }
        }
    });
    // several decodings inside each other share a stack
    let nested = lines.iter().any(|l| l.contains("\"nested\""));
    // deep nestings need more than a usual stack
    let deep = lines.iter().any(|l| l.contains("\"deep\""));
    let h = std::thread::Builder::new()
        .stack_size(if deep { 64 * STACK } else if nested { 8 * STACK } else { STACK })
        .spawn(move || {
            for (i, l) in lines.iter().enumerate().skip(start) {
                let c: Value = serde_json::from_str(l).expect("case");
                SINCE.store(now_ms(), SeqCst);
                CURRENT.store(i as i64, SeqCst);
                let o = observe(&c);
                CURRENT.store(-1, SeqCst);
                writeln!(f, "{o}").unwrap();
            }
        })
        .unwrap();
    if h.join().is_err() {
        exit(97);
    }
}

fn run(path: &str, out: &str, limit_s: u64) {
    File::create(out).unwrap();
    let lines = cases(path);
    let exe = std::env::current_exe().unwrap();
    let (mut crashes, mut hangs) = (0, 0);
    loop {
        let done = cases(out).len();
        if done >= lines.len() {
            return;
        }
        let st = Command::new(&exe)
            .args(["worker", path, out, &done.to_string(), &limit_s.to_string()])
            .stderr(std::process::Stdio::null())
            .status()
            .unwrap();
        if st.success() {
            continue;
        }
        if st.code() == Some(97) {
            eprintln!("worker failed by itself");
            exit(2);
        }
        crashes += 1;
        hangs += (st.code() == Some(98)) as u32;
        let i = cases(out).len();
        let c: Value = serde_json::from_str(&lines[i]).unwrap();
        let what = if st.code() == Some(98) { "hang" } else { "crash" };
        let mut f = OpenOptions::new().append(true).open(out).unwrap();
        writeln!(f, "{}", json!({"id": c["id"], "out": format!("[\"{what}\"]")})).unwrap();
        if crashes > 200 || hangs > 2 {
            // every further case is left unobserved
            for l in &lines[i + 1..] {
                let c: Value = serde_json::from_str(l).unwrap();
                writeln!(f, "{}", json!({"id": c["id"], "out": "[\"skipped\"]"})).unwrap();
            }
            return;
        }
    }
}

fn threads(path: &str, out: &str, n: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let cs: Vec<(Value, Vec<u8>)> = cases(path)
        .iter()
        .map(|l| {
            let c: Value = serde_json::from_str(l).unwrap();
            let b = input(&c);
            (c["id"].clone(), b)
        })
        .collect();
    let res: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let cs = &cs;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let len = cs.len();
                        let mut v = vec![String::new(); len];
                        for j in 0..len {
                            // every thread in an order of its own
                            let i = if k % 2 == 0 { (j + k * 7) % len } else { (len - 1 - j + k * 5) % len };
                            v[i] = decode_plain(&cs[i].1);
                        }
                        v
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut f = File::create(out).unwrap();
    for (i, (id, _)) in cs.iter().enumerate() {
        let mut outs: Vec<&String> = res.iter().map(|v| &v[i]).collect();
        outs.sort();
        outs.dedup();
        writeln!(f, "{}", json!({"id": id, "outs": outs})).unwrap();
    }
}

fn fresh(path: &str, out: &str) {
    let lines = cases(path);
    let exe = std::env::current_exe().unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res: Vec<std::sync::Mutex<String>> = lines.iter().map(|_| Default::default()).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= lines.len() {
                        return;
                    }
                    let c: Value = serde_json::from_str(&lines[i]).expect("case");
                    let mut p = Command::new(&exe)
                        .arg("alone")
                        .stdin(std::process::Stdio::piped())
                        .stdout(std::process::Stdio::piped())
                        .stderr(std::process::Stdio::null())
                        .spawn()
                        .unwrap();
                    p.stdin.take().unwrap().write_all(&input(&c)).unwrap();
                    let (pid, done) = (p.id() as i32, std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false)));
                    let ended = done.clone();
                    std::thread::spawn(move || {
                        for _ in 0..200 {
                            std::thread::sleep(Duration::from_millis(100));
                            if ended.load(SeqCst) {
                                return;
                            }
                        }
                        unsafe { kill(pid, 9) };
                    });
                    let o = p.wait_with_output().unwrap();
                    done.store(true, SeqCst);
                    let text = if o.status.success() { String::from_utf8_lossy(&o.stdout).into_owned() } else { "[\"crash\"]".into() };
                    *res[i].lock().unwrap() = json!({"id": c["id"], "out": text}).to_string();
                }
            });
        }
    });
    let mut f = File::create(out).unwrap();
    for r in res {
        writeln!(f, "{}", r.into_inner().unwrap()).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Ok(mb) = std::env::var("VH_CAP_MB") {
        alloc::set_cap(mb.parse::<usize>().unwrap() << 20);
    }
    let limit: u64 = std::env::var("VH_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], &a[3], limit),
        Some("worker") => worker(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("fresh") => fresh(&a[2], &a[3]),
        Some("alone") => {
            std::panic::set_hook(Box::new(|_| {}));
            let mut v = vec![];
            std::io::Read::read_to_end(&mut std::io::stdin(), &mut v).unwrap();
            print!("{}", decode_plain(&v));
        }
        Some("threads") => threads(&a[2], &a[3], a[4].parse().unwrap()),
        _ => {
            eprintln!("usage: vh run|threads CASES OUT");
            exit(2);
        }
    }
}
