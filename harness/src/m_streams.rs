//! ByteIO.tla: opening and saving over streams that give and take in pieces,
//! are interrupted, fail, and end.
use crate::util::*;
use crate::{enc, proj, slots, Ctx, Out};
use kpdb::*;
use secstr::SecStr;
use serde_json::{json, Value};
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Answer {
    Data(usize), // at most so many bytes; 0: all
    Interrupted,
    Error(usize),
    Zero,
    End,
}
const KINDS: [ErrorKind; 5] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::InvalidData];

/// What a stream answers, by position or call by call.
struct Plan {
    chunk: usize,
    event: Option<(usize, Answer)>,
    times: usize,
    always: bool,
    answers: Vec<Answer>,
    next: usize,
    sticky: bool,
    fault: Option<Answer>,
    last_interrupted: bool,
    fired: bool,
    calls: Vec<(usize, &'static str, usize)>,
}

impl Plan {
    fn answer(&mut self, pos: usize) -> Answer {
        if let Some(f) = self.fault {
            return f;
        }
        let mut a = Answer::Data(self.chunk);
        if self.next < self.answers.len() {
            a = self.answers[self.next];
            self.next += 1;
        } else if self.always && !self.last_interrupted {
            a = Answer::Interrupted;
        } else if let Some((at, e)) = self.event {
            if pos == at && self.times > 0 {
                self.times -= 1;
                a = e;
            } else if at > pos {
                let left = at - pos;
                a = Answer::Data(if self.chunk == 0 { left } else { left.min(self.chunk) });
            }
        }
        self.last_interrupted = a == Answer::Interrupted;
        if matches!(a, Answer::Error(_) | Answer::Zero | Answer::End) {
            self.fired = true;
            if self.sticky || a == Answer::End {
                self.fault = Some(a);
            }
        }
        a
    }
    fn note(&mut self, asked: usize, what: &'static str, k: usize) {
        if self.calls.len() < 20000 {
            self.calls.push((asked, what, k));
        }
    }
}

struct Reader<'a> {
    data: &'a [u8],
    pos: usize,
    plan: Plan,
}

fn error(k: usize) -> io::Error {
    io::Error::new(KINDS[k % KINDS.len()], "the stream fails")
}

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.plan.answer(self.pos) {
            Answer::Interrupted => {
                self.plan.note(buf.len(), "interrupted", 0);
                Err(ErrorKind::Interrupted.into())
            }
            Answer::Error(k) => {
                self.plan.note(buf.len(), "error", 0);
                Err(error(k))
            }
            Answer::End | Answer::Zero => {
                self.plan.note(buf.len(), "end", 0);
                Ok(0)
            }
            Answer::Data(c) => {
                let left = &self.data[self.pos..];
                let mut k = left.len().min(buf.len());
                if c > 0 {
                    k = k.min(c);
                }
                buf[..k].copy_from_slice(&left[..k]);
                self.pos += k;
                self.plan.note(buf.len(), if k == 0 { "end" } else { "data" }, k);
                Ok(k)
            }
        }
    }
}

struct Writer {
    out: Vec<u8>,
    plan: Plan,
}

impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.plan.answer(self.out.len()) {
            Answer::Interrupted => {
                self.plan.note(buf.len(), "interrupted", 0);
                Err(ErrorKind::Interrupted.into())
            }
            Answer::Error(k) => {
                self.plan.note(buf.len(), "error", 0);
                Err(error(k))
            }
            Answer::End | Answer::Zero => {
                self.plan.note(buf.len(), "zero", 0);
                Ok(0)
            }
            Answer::Data(c) => {
                let k = if c == 0 { buf.len() } else { buf.len().min(c) };
                self.out.extend_from_slice(&buf[..k]);
                self.plan.note(buf.len(), "data", k);
                Ok(k)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn database(r: &mut Rng, gzip: bool) -> Database {
    let mut db = slots::base("plain", r);
    db.compression = if gzip { Compression::GZip } else { Compression::None };
    db.comment = if r.bool() { Some(Comment(r.bytes(9))) } else { None };
    let t = crate::values::text("phrase", r);
    db.root_group.entries[0].set_password(t);
    db.root_group.entries[0].binaries.insert(BinaryKey("b".into()), BinaryValue::Plain(r.bytes(33)));
    db
}

fn key_file(op: &str, r: &mut Rng) -> KeyFile {
    KeyFile {
        key: SecStr::from(r.bytes(32)),
        file_type: match op.rsplit(' ').next().unwrap() {
            "binary" => KeyFileType::Binary,
            "hex" => KeyFileType::Hex,
            _ => KeyFileType::Xml,
        },
    }
}

fn plan(case: &Value, total: Option<usize>, r: &mut Rng) -> Option<Plan> {
    let mut p = Plan {
        chunk: 0,
        event: None,
        times: 1,
        always: false,
        answers: vec![],
        next: 0,
        sticky: r.bool(),
        fault: None,
        last_interrupted: false,
        fired: false,
        calls: vec![],
    };
    let n = |v: &Value| v.as_u64().unwrap() as usize;
    if let Some(list) = case.get("answers") {
        let f = &case["fault"];
        for a in list.as_array().unwrap().iter().chain([f]) {
            p.answers.push(match a[0].as_str().unwrap() {
                "data" => Answer::Data(n(&a[1])),
                "interrupted" => Answer::Interrupted,
                "error" => Answer::Error(n(&a[1])),
                "zero" => Answer::Zero,
                "end" => Answer::End,
                "none" => continue,
                x => panic!("answer {}", x),
            });
        }
        return Some(p);
    }
    let total = total.unwrap();
    p.chunk = n(&case["chunk"]);
    let at = n(&case["at"]);
    let at = match case["from"].as_str().unwrap() {
        "start" => at,
        "end" if at <= total => total - at,
        "end" => return None,
        _ => total * at / 64,
    };
    // a reader asks again after the last byte, a writer does not
    if at > total || (at == total && case["dir"] == "write" && case["from"] == "start") || (at == total && case["event"] != "error" && case["event"] != "interrupted") {
        return None;
    }
    let kind = ["other", "would block", "broken pipe", "unexpected end", "invalid data"].iter().position(|k| case["kind"] == *k);
    p.event = match case["event"].as_str().unwrap() {
        "none" => None,
        "always interrupted" => {
            p.always = true;
            None
        }
        "interrupted" => {
            p.times = r.range(1, 4);
            Some((at, Answer::Interrupted))
        }
        "error" => Some((at, Answer::Error(kind.unwrap()))),
        "end" => Some((at, Answer::End)),
        "zero" => Some((at, Answer::Zero)),
        e => panic!("event {}", e),
    };
    Some(p)
}

/// Whether it went well, and what came out was what went in.
fn judge(case: &Value, p: &Plan, fixed: bool, ok: bool, same: Result2, ctx: &mut Ctx) -> Out {
    let want = if p.fired { "error" } else { "ok" };
    if let (true, Some(e)) = (fixed, case.get("expect")) {
        if e != want {
            return Err(format!("the event {} at {} {} seen by the library", case["event"], case["at"], if p.fired { "was" } else { "was not" }));
        }
    }
    if case.get("answers").is_some() {
        // the verdict is the specification's
        return Ok(());
    }
    if want == "ok" && !ok {
        return Err("an error over a stream that works".into());
    }
    if want == "error" && ok {
        return Err("success over a stream that failed or ended too early".into());
    }
    if ok {
        same.map_err(|e| format!("with {:?} pieces: {}", p.chunk, e))?;
    }
    ctx.add(want, 1);
    Ok(())
}
type Result2 = std::result::Result<(), String>;

fn record(case: &Value, dir: &str, total: usize, p: &Plan, ok: bool, same: &Result2, ctx: &mut Ctx) {
    if case.get("answers").is_some() {
        ctx.rec.push(json!({"dir": dir, "total": total, "calls": p.calls, "result": if ok { "ok" } else { "error" }, "same": same.is_ok()}));
    }
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let op = case["op"].as_str().unwrap();
    // the same content in all cases of an operation, other events
    let mut cr = Rng::from_str(ctx.seed, op);
    let equal = |a: &Value, b: &Value| show_diff(a, b).map_or(Ok(()), Err);
    match op {
        "open plain" | "open gzip" | "open blocks" => {
            let db = database(&mut cr, op != "open plain");
            let mut st = enc::Style::keepass();
            if op == "open blocks" {
                st.block = 100;
            }
            let file = enc::file(&db, &slots::key_bytes(), &st, &mut cr);
            let whole = Database::open(&mut &file[..], &slots::key()).map_err(|e| e.to_string())?;
            let Some(p) = plan(case, Some(file.len()), &mut ctx.rng) else { return Ok(()) };
            let mut rd = Reader { data: &file, pos: 0, plan: p };
            let got = Database::open(&mut rd, &slots::key());
            let same = match &got {
                Ok(d) => equal(&proj::database(&whole), &proj::database(d)),
                Err(_) => Ok(()),
            };
            record(case, "read", file.len(), &rd.plan, got.is_ok(), &same, ctx);
            judge(case, &rd.plan, true, got.is_ok(), same, ctx)
        }
        "key binary" | "key hex" | "key xml" => {
            let kf = key_file(op, &mut cr);
            let mut file = vec![];
            kf.save(&mut file).map_err(|e| e.to_string())?;
            let Some(p) = plan(case, Some(file.len()), &mut ctx.rng) else { return Ok(()) };
            let mut rd = Reader { data: &file, pos: 0, plan: p };
            let got = KeyFile::open(&mut rd);
            // what is left of a key file can be another key file
            let short = rd.plan.fired && (rd.pos == 32 || rd.pos == 64);
            let same = match &got {
                Ok(k) if *k == kf => Ok(()),
                Ok(_) => Err("another key".to_string()),
                Err(_) => Ok(()),
            };
            if short && rd.plan.calls.iter().all(|c| c.1 != "error") {
                return Ok(());
            }
            record(case, "read", file.len(), &rd.plan, got.is_ok(), &same, ctx);
            judge(case, &rd.plan, true, got.is_ok(), same, ctx)
        }
        "save plain" | "save gzip" => {
            let db = database(&mut cr, op == "save gzip");
            let before = proj::database(&db);
            let mut whole = vec![];
            db.save(&mut whole).map_err(|e| e.to_string())?;
            let Some(p) = plan(case, Some(whole.len()), &mut ctx.rng) else { return Ok(()) };
            let mut w = Writer { out: vec![], plan: p };
            let ok = db.save(&mut w).is_ok();
            equal(&before, &proj::database(&db)).map_err(|e| format!("saving changed the database: {}", e))?;
            let opens = |f: &[u8]| match Database::open(&mut &f[..], &slots::key()) {
                Ok(d) => equal(&proj::normal(before.clone()), &proj::normal(proj::database(&d))),
                Err(e) => Err(format!("the bytes that were accepted do not open: {}", e)),
            };
            let same = if ok { opens(&w.out) } else { Ok(()) };
            record(case, "write", 0, &w.plan, ok, &same, ctx);
            judge(case, &w.plan, op == "save plain", ok, same, ctx)?;
            // afterwards it can be saved elsewhere
            let mut again = vec![];
            db.save(&mut again).map_err(|e| format!("the save after: {}", e))?;
            opens(&again).map_err(|e| format!("the save after: {}", e))
        }
        _ => {
            let kf = key_file(op, &mut cr);
            let mut whole = vec![];
            kf.save(&mut whole).map_err(|e| e.to_string())?;
            let Some(p) = plan(case, Some(whole.len()), &mut ctx.rng) else { return Ok(()) };
            let mut w = Writer { out: vec![], plan: p };
            let ok = kf.save(&mut w).is_ok();
            if w.plan.calls.iter().all(|c| matches!(c.1, "data" | "interrupted")) && !ok && case.get("answers").is_none() {
                return Err("an error over a stream that works".into());
            }
            let same = if !ok {
                Ok(())
            } else if w.out == whole {
                Ok(())
            } else {
                match KeyFile::open(&mut &w.out[..]) {
                    Ok(k) if k == kf => Ok(()),
                    _ => Err("the bytes that were accepted are not the key file".to_string()),
                }
            };
            record(case, "write", 0, &w.plan, ok, &same, ctx);
            judge(case, &w.plan, true, ok, same, ctx)
        }
    }
}
