//! Fields.tla: a database built slot by slot, saved and opened again.
use crate::util::*;
use crate::enc::{self, Style};
use crate::{proj, slots, Ctx, Out};
use kpdb::*;
use serde_json::Value;

/// Builds the database of a case: {"base":.., "set":[[site, field, class],..]}
pub fn build(case: &Value, ctx: &mut Ctx) -> Database {
    let mut db = slots::base(case["base"].as_str().unwrap(), &mut ctx.rng);
    for s in case["set"].as_array().unwrap() {
        let f = |i: usize| s[i].as_str().unwrap();
        slots::set(&mut db, f(0), f(1), f(2), &mut ctx.rng);
    }
    db
}

pub fn save(db: &Database) -> Result<Vec<u8>> {
    let mut out = Vec::new();
    db.save(&mut out).map(|_| out)
}

pub fn open(file: &[u8], key: &CompositeKey) -> Result<Database> {
    Database::open(&mut std::io::Cursor::new(file), key)
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let db = build(case, ctx);
    let before = proj::database(&db);
    let want_ok = case["ok"].as_bool().unwrap();
    ctx.sig = case["set"].to_string();
    let saved = save(&db);
    if proj::database(&db) != before {
        return Err("save changed the database".into());
    }
    let file = match (saved, want_ok) {
        (Err(_), false) => return Ok(()),
        (Err(e), true) => return Err(format!("save failed: {}", e)),
        (Ok(f), _) => f,
    };
    let want = proj::normal(before);
    let opened = open(&file, &slots::key()).map_err(|e| format!("the saved file does not open: {}", e))?;
    if let Some(d) = show_diff(&want, &proj::normal(proj::database(&opened))) {
        return Err(format!("after save and open, {}", d));
    }
    if opened.composite_key != slots::key() {
        return Err("the opened database has another key".into());
    }
    ctx.add("roundtrips", 1);
    Ok(())
}

/// A saved file read by the strict reader.
pub fn strict(case: &Value, ctx: &mut Ctx) -> Out {
    let db = build(case, ctx);
    let before = proj::database(&db);
    ctx.sig = case["set"].to_string();
    let file = match (save(&db), case["ok"].as_bool().unwrap()) {
        (Err(_), false) => return Ok(()),
        (Err(e), true) => return Err(format!("save failed: {}", e)),
        (Ok(_), false) => return Err("save succeeded with a value that the format cannot hold".into()),
        (Ok(f), true) => f,
    };
    check_strict(&file, &proj::normal(before), ctx)?;
    ctx.add("files", 1);
    Ok(())
}

pub fn check_strict(file: &[u8], want: &Value, ctx: &mut Ctx) -> Out {
    let (v, d, _) = proj::strict(file, &slots::key_bytes())?;
    let got = proj::normal(v);
    if let Some(d) = show_diff(want, &got) {
        if show_diff(&spaced(want), &spaced(&got)).is_none() {
            ctx.sig = "tab-in-binary-id".into();
        }
        return Err(format!("the strict reader finds, {}", d));
    }
    if d.block_sizes.last() != Some(&0) {
        return Err("no final block".into());
    }
    Ok(())
}

/// The value with tabs in binary identifiers and references as spaces.
fn spaced(v: &Value) -> Value {
    match v {
        Value::Array(a) if a.len() == 2 && a[0] == "ref" => {
            serde_json::json!(["ref", a[1].as_str().unwrap().replace('\t', " ")])
        }
        Value::Array(a) => Value::Array(a.iter().map(spaced).collect()),
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, v)| match (k.as_str(), v) {
                    ("binaries", Value::Object(b)) => (
                        k.clone(),
                        Value::Object(b.iter().map(|(k, v)| (k.replace('\t', " "), v.clone())).collect()),
                    ),
                    _ => (k.clone(), spaced(v)),
                })
                .collect(),
        ),
        _ => v.clone(),
    }
}

/// Foreign.tla: a file of another program, opened, edited, saved and opened again.
/// Only the first part of `foreign`: what another program wrote is read as such.
pub fn foreign_open(case: &Value, ctx: &mut Ctx) -> Out {
    opened(case, ctx).map(|_| ())
}
fn opened(case: &Value, ctx: &mut Ctx) -> std::result::Result<Database, String> {
    let db = build(case, ctx);
    let content = proj::normal(proj::database(&db));
    let style = Style::from(&case["style"]);
    let file = enc::file(&db, &slots::key_bytes(), &style, &mut ctx.rng);
    ctx.sig = format!("{}{}", case["set"], case["style"]);
    let first = open(&file, &slots::key()).map_err(|e| format!("the file does not open: {}", e))?;
    if let Some(d) = show_diff(&content, &proj::normal(proj::database(&first))) {
        return Err(format!("after the first open, {}", d));
    }
    proj::parents_ok(&first)?;
    Ok(first)
}
pub fn foreign(case: &Value, ctx: &mut Ctx) -> Out {
    let mut first = opened(case, ctx)?;
    for s in case["edits"].as_array().unwrap() {
        let f = |i: usize| s[i].as_str().unwrap();
        slots::set(&mut first, f(0), f(1), f(2), &mut ctx.rng);
    }
    let want = proj::normal(proj::database(&first));
    let second = save(&first).map_err(|e| format!("the opened database does not save: {}", e))?;
    let strict = check_strict(&second, &want, ctx);
    let again = open(&second, &slots::key()).map_err(|e| format!("the saved file does not open: {}", e))?;
    if let Some(d) = show_diff(&want, &proj::normal(proj::database(&again))) {
        ctx.sig = String::new();
        return Err(format!("after saving and opening again, {}", d));
    }
    ctx.add("files", 1);
    strict
}
