//! Saves.tla: what is drawn at random in histories of saves, opens and key
//! creations. The values are recorded for SavesTrace.tla.
use crate::codec;
use crate::m_fields::{open, save};
use crate::util::*;
use crate::{proj, slots, Ctx, Out};
use kpdb::*;
use serde_json::{json, Value};
use std::io::Write;

fn pieces(v: &[u8], step: usize) -> Vec<String> {
    (0..=v.len() - 8).step_by(step).map(|i| hex(&v[i..i + 8])).collect()
}

/// An event with the values, and what can be computed from them.
fn event(op: &str, names: &[&str], vals: &[Vec<u8>]) -> Value {
    let mut derived = vec![];
    // one piece is enough to see the whole
    let mut put = |v: &[u8]| derived.push(hex(&v[..8]));
    let shrink = |v: &[u8]| v[..16].to_vec();
    for (i, a) in vals.iter().enumerate() {
        put(&sha(a));
        put(&sha(&sha(a)));
        put(&a.iter().rev().cloned().collect::<Vec<u8>>());
        put(&a.iter().map(|b| !b).collect::<Vec<u8>>());
        for b in &vals[i + 1..] {
            put(&sha2(a, b));
            put(&sha2(b, a));
            let (x, y) = (shrink(a), shrink(b));
            // the difference and the sum, as long as the shorter one
            put(&x.iter().zip(&y).map(|(p, q)| p ^ q).collect::<Vec<u8>>());
            put(&x.iter().zip(&y).map(|(p, q)| p.wrapping_sub(*q)).collect::<Vec<u8>>());
            put(&x.iter().zip(&y).map(|(p, q)| q.wrapping_sub(*p)).collect::<Vec<u8>>());
            put(&x.iter().zip(&y).map(|(p, q)| p.wrapping_add(*q)).collect::<Vec<u8>>());
        }
    }
    // the same difference in two saves would be one drawn twice
    json!({
        "op": op, "names": names,
        "look": vals.iter().map(|v| pieces(v, 1)).collect::<Vec<_>>(),
        "keep": vals.iter().map(|v| pieces(v, 8)).collect::<Vec<_>>(),
        "derived": derived,
        "bytes": vals,
    })
}

const SAVE: [&str; 5] = ["master seed", "transform seed", "initialisation vector", "stream key", "start bytes"];

fn header_fields(file: &[u8]) -> std::result::Result<Vec<Vec<u8>>, String> {
    let (_, fields, _) = codec::split(file)?;
    [(4u8, 32usize), (5, 32), (7, 16), (8, 32), (9, 32)]
        .iter()
        .map(|(id, n)| {
            let v: Vec<&(u8, Vec<u8>)> = fields.iter().filter(|f| f.0 == *id).collect();
            if v.len() != 1 || v[0].1.len() != *n {
                return Err(format!("header field {} is not there once with {} bytes", id, n));
            }
            Ok(v[0].1.clone())
        })
        .collect()
}

/// A writer that fails after some bytes.
struct Failing {
    out: Vec<u8>,
    left: usize,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.left);
        self.out.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let mut dbs: Vec<Database> = vec![];
    let mut files: Vec<(Vec<u8>, CompositeKey)> = vec![];
    for (step, o) in case["hist"].as_array().unwrap().iter().enumerate() {
        let op = o["op"].as_str().unwrap();
        let d = o["d"].as_u64().unwrap() as usize;
        let at = |s: String| format!("step {}, {}: {}", step, op, s);
        let r = &mut ctx.rng;
        match op {
            "new" => {
                let mut db = slots::base(if o["how"] == "full" { "dense" } else { *r.pick(&["empty", "plain"]) }, r);
                // the settings of new databases, or those of the other harnesses
                if o["how"] == "as created" {
                    db.transform_rounds = Database::new(&slots::key()).transform_rounds;
                }
                dbs.push(db);
            }
            "clone" => {
                let c = dbs[d - 1].clone();
                dbs.push(c);
            }
            "open" => {
                let db = open(&files[d - 1].0, &files[d - 1].1).map_err(|e| at(e.to_string()))?;
                dbs.push(db);
            }
            "edit" => {
                let db = &mut dbs[d - 1];
                match o["how"].as_str().unwrap() {
                    "name" => db.name = format!("name {}", r.below(1000)),
                    "rounds" => db.transform_rounds = TransformRounds(*r.pick(&[0, 1, 100, 6000, 10000, 60000])),
                    "compression" => {
                        db.compression = if db.compression == Compression::None { Compression::GZip } else { Compression::None }
                    }
                    "key" => {
                        db.composite_key = match r.below(3) {
                            0 => slots::key(),
                            1 => CompositeKey::from_password("another"),
                            _ => CompositeKey::from_key_file(KeyFile::open(&mut &[7u8; 32][..]).map_err(|e| at(e.to_string()))?),
                        }
                    }
                    "version" => db.version.minor = r.below(2) as u16,
                    "comment" => db.comment = if db.comment.is_some() { None } else { Some(Comment(r.bytes(20))) },
                    how => panic!("edit {}", how),
                }
            }
            "save" => {
                let before = proj::database(&dbs[d - 1]);
                let f = save(&dbs[d - 1]).map_err(|e| at(e.to_string()))?;
                if let Some(m) = show_diff(&before, &proj::database(&dbs[d - 1])) {
                    return Err(at(format!("the database is changed: {}", m)));
                }
                let vals = header_fields(&f).map_err(at)?;
                ctx.rec.push(event("save", &SAVE, &vals));
                files.push((f, dbs[d - 1].composite_key.clone()));
            }
            "failing save" => {
                let left = if o["how"] == "early" { r.range(260, 300) } else { 1 << 9 };
                let mut w = Failing { out: vec![], left };
                if dbs[d - 1].save(&mut w).is_ok() {
                    // it fitted: a save like any other
                    let vals = header_fields(&w.out).map_err(at)?;
                    ctx.rec.push(event("save", &SAVE, &vals));
                } else if let Ok(vals) = header_fields(&w.out) {
                    ctx.rec.push(event("failing save", &SAVE, &vals));
                }
            }
            "key file" => {
                let k = match o["how"].as_str().unwrap() {
                    "binary" => KeyFile::new_binary(),
                    "hex" => KeyFile::new_hex(),
                    "xml" => KeyFile::new_xml(),
                    _ => KeyFile::new(),
                }
                .map_err(|e| at(e.to_string()))?;
                let v = k.key.unsecure().to_vec();
                if v.len() != 32 {
                    return Err(at(format!("a key of {} bytes", v.len())));
                }
                ctx.rec.push(event("key file", &["key"], &[v]));
            }
            "entry" | "group" | "icon" => {
                // one by itself, and that of a new entry or group
                let root = &mut dbs[d - 1].root_group;
                let (names, vals): (&[&str], _) = match op {
                    "entry" => {
                        let e = Entry::new();
                        let u = e.uuid.0;
                        root.add_entry(e);
                        (&["entry identifier", "identifier of an entry"], vec![EntryUuid::new_random().0, u])
                    }
                    "group" => {
                        let g = Group::new("x");
                        let u = g.uuid.0;
                        root.add_group(g);
                        (&["group identifier", "identifier of a group"], vec![GroupUuid::new_random().0, u])
                    }
                    _ => (&["icon identifier"], vec![CustomIconUuid::new_random().0]),
                };
                let vals: Vec<Vec<u8>> = vals.iter().map(|v| v.as_bytes().to_vec()).collect();
                ctx.rec.push(event(op, names, &vals));
            }
            _ => panic!("operation {}", op),
        }
        ctx.add(op, 1);
    }
    Ok(())
}
