//! Replays cases generated from the specifications in /verif/spec against the
//! library and records what the library did.
#![allow(dead_code)]
mod codec;
mod enc;
mod proj;
mod slots;
mod tables;
mod util;
mod values;
mod xmlm;

mod m_accessors;
mod m_container;
mod m_doc;
mod m_fields;
mod m_keys;
mod m_layout;
mod m_malformed;
mod m_saves;
mod m_secrets;
mod m_streams;
mod m_tamper;
mod m_values;
mod m_vault;

use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What a replay gets and leaves behind.
pub struct Ctx {
    pub rng: util::Rng,
    pub seed: u64,
    pub index: usize,
    /// A recorded trace, for validation against a specification.
    pub rec: Vec<Value>,
    /// Counters for the evidence file.
    pub count: BTreeMap<String, u64>,
    /// What identifies a finding, when it is narrower than the message.
    pub sig: String,
}

impl Ctx {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.count.entry(k.to_string()).or_insert(0) += n;
    }
}

pub type Out = Result<(), String>;
type Mode = fn(&Value, &mut Ctx) -> Out;

fn mode(name: &str) -> Mode {
    match name {
        "fields" => m_fields::run,
        "strict" => m_fields::strict,
        "layout" => m_layout::run,
        "container" => m_container::run,
        "doc" => m_doc::run,
        "foreign" => m_fields::foreign,
        "foreign-open" => m_fields::foreign_open,
        "vault" => m_vault::run,
        "alias" => m_vault::alias,
        "values" => m_values::run,
        "values-sweep" => m_values::sweep,
        "accessors" => m_accessors::run,
        "keys" => m_keys::keys,
        "keyfile" => m_keys::key_files,
        "saves" => m_saves::run,
        "tamper" => m_tamper::run,
        "malformed" => m_malformed::run,
        "streams" => m_streams::run,
        "secrets" => m_secrets::run,
        "match" => m_vault::matching,
        _ => panic!("mode {}", name),
    }
}

thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // mode cases out seed threads timeout-s
    let (m, cases, out) = (&a[1], &a[2], &a[3]);
    let seed: u64 = a[4].parse().unwrap();
    let threads: usize = a[5].parse().unwrap();
    let limit: f64 = a[6].parse().unwrap();
    let f = mode(m);
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(cases).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .collect();
    std::panic::set_hook(Box::new(|i| {
        let t = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = t);
    }));
    let total = lines.len();
    let lines = Arc::new(lines);
    let next = Arc::new(AtomicUsize::new(0));
    let outf = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(out).unwrap())));
    let counts: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let start = Instant::now();
    let status: Arc<Vec<(AtomicUsize, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect());
    let progress = Arc::new(std::fs::File::create(format!("{}.cur", out)).unwrap());
    let mut hs = vec![];
    for t in 0..threads {
        let (lines, next, outf, counts, status, progress) =
            (lines.clone(), next.clone(), outf.clone(), counts.clone(), status.clone(), progress.clone());
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= lines.len() {
                    status[t].0.store(usize::MAX, Ordering::SeqCst);
                    return;
                }
                status[t].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                status[t].0.store(i, Ordering::SeqCst);
                let _ = progress.write_at(format!("{:>11}\n", i).as_bytes(), 12 * t as u64);
                let case: Value = {
                    // trees may be deep
                    let mut d = serde_json::Deserializer::from_str(&lines[i]);
                    d.disable_recursion_limit();
                    d.into_iter::<Value>().next().unwrap().expect("case")
                };
                let n = case.get("n").and_then(|x| x.as_u64()).unwrap_or(i as u64);
                let mut ctx = Ctx {
                    rng: util::Rng::from_str(seed, &format!("{}/{}", n, lines[i])),
                    seed,
                    index: i,
                    rec: vec![],
                    count: BTreeMap::new(),
                    sig: String::new(),
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&case, &mut ctx)));
                let msg = match r {
                    Ok(Ok(())) => None,
                    Ok(Err(e)) => Some(e),
                    Err(_) => Some(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
                };
                for (k, v) in &ctx.count {
                    *counts.lock().unwrap().entry(k.clone()).or_insert(0) += v;
                }
                if msg.is_some() || !ctx.rec.is_empty() {
                    let o = json!({"i": i, "msg": msg, "sig": ctx.sig, "rec": ctx.rec});
                    writeln!(outf.lock().unwrap(), "{}", o).unwrap();
                }
            })
            .unwrap();
        hs.push(h);
    }
    let (st, outw, ct) = (status.clone(), outf.clone(), counts.clone());
    let finish = move |hung: Option<usize>| {
        let mut o = outw.lock().unwrap();
        if let Some(i) = hung {
            writeln!(o, "{}", json!({"i": i, "msg": format!("no answer within {} s", limit), "sig": "", "rec": []})).unwrap();
        }
        writeln!(o, "{}", json!({"end": true, "cases": total, "counts": *ct.lock().unwrap(), "hung": hung})).unwrap();
        o.flush().unwrap();
    };
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(if start.elapsed().as_millis() < 300 { 5 } else { 50 }));
        let now = start.elapsed().as_millis() as u64;
        for s in st.iter() {
            let i = s.0.load(Ordering::SeqCst);
            if i != usize::MAX && now.saturating_sub(s.1.load(Ordering::SeqCst)) as f64 > limit * 1000.0 {
                finish(Some(i));
                std::process::exit(0);
            }
        }
    }
    let bad = hs.into_iter().any(|h| h.join().is_err());
    finish(None);
    std::process::exit(if bad { 2 } else { 0 });
}
