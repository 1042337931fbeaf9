//! Accessors.tla: the string accessors of an entry, times, and new values.
use crate::util::*;
use crate::{proj, values as v, Ctx, Out};
use chrono::{DateTime, Duration, Utc};
use kpdb::*;
use secstr::SecStr;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

const TEXTS: &[&str] = &[
    "empty", "word", "phrase", "space1", "lead", "trail", "nl", "crlf", "markup", "latin", "greek", "cjk", "emoji", "rtl", "combining",
    "null", "true", "b64", "n4097", "nul", "c0", "maxchar", "bom", "quotes",
];

fn arr(x: &Value) -> &[Value] {
    x.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

fn named(k: &str) -> Option<StringKey> {
    Some(match k {
        "Title" => StringKey::Title,
        "UserName" => StringKey::Username,
        "URL" => StringKey::Url,
        "Notes" => StringKey::Notes,
        "Password" => StringKey::Password,
        _ => return None,
    })
}

/// What the specification says of the strings of an entry.
fn want_strings(s: &Value, keys: &HashMap<&str, StringKey>, text: &dyn Fn(u64) -> String, bad: &[u8]) -> Value {
    let mut m = Map::new();
    for (k, key) in keys {
        let v = text(s[k]["v"].as_u64().unwrap());
        let val = match s[k]["st"].as_str().unwrap() {
            "absent" => continue,
            "plain" => json!(["plain", jstr(&v)]),
            "protected" => json!(["protected", jstr(&v)]),
            "either" => json!(["either", jstr(&v)]),
            _ => json!(["protected-bytes", jb(bad)]),
        };
        m.insert(proj::skey(key), val);
    }
    Value::Object(m)
}

fn time(f: &str, e: &dyn Times) -> Value {
    match f {
        "creation_time" => proj::dt(&e.creation_time()),
        "expires" => json!(e.expires()),
        "expiry_time" => proj::dt(&e.expiry_time()),
        "last_accessed" => proj::dt(&e.last_accessed()),
        "last_modified" => proj::dt(&e.last_modified()),
        "location_changed" => proj::dt(&e.location_changed()),
        _ => json!(e.usage_count()),
    }
}

const FIELDS: [(&str, &str); 7] = [
    ("creation_time", "t_create"),
    ("expires", "expires"),
    ("expiry_time", "t_expiry"),
    ("last_accessed", "t_access"),
    ("last_modified", "t_mod"),
    ("location_changed", "t_loc"),
    ("usage_count", "usage"),
];

fn set_time(f: &str, e: &mut dyn Times, d: DateTime<Utc>, b: bool, n: i32) -> Value {
    match f {
        "creation_time" => e.set_creation_time(d),
        "expires" => {
            e.set_expires(b);
            return json!(b);
        }
        "expiry_time" => e.set_expiry_time(d),
        "last_accessed" => e.set_last_accessed(d),
        "last_modified" => e.set_last_modified(d),
        "location_changed" => e.set_location_changed(d),
        _ => {
            e.set_usage_count(n);
            return json!(n);
        }
    }
    proj::dt(&d)
}

fn now_ok(what: &str, list: &[DateTime<Utc>]) -> Out {
    let now = Utc::now();
    for t in list {
        if now.signed_duration_since(*t) > Duration::minutes(30) || t.signed_duration_since(now) > Duration::minutes(30) {
            return Err(format!("{}: a new value has the time {}", what, t));
        }
    }
    Ok(())
}

fn has(what: &str, want: &Value, got: &Value) -> Out {
    for (k, v) in want.as_object().unwrap() {
        if &got[k] != v {
            return Err(format!("{}: {} is {} instead of {}", what, k, got[k], v));
        }
    }
    Ok(())
}

fn empty(what: &str, got: &Value, keys: &[&str]) -> Out {
    for k in keys {
        let v = &got[*k];
        let ok = v.is_null() || v.as_array().map(|a| a.is_empty()).unwrap_or(false) || v.as_object().map(|a| a.is_empty()).unwrap_or(false);
        if !ok {
            return Err(format!("{}: {} is {}", what, k, v));
        }
    }
    Ok(())
}

fn nils(what: &str, got: &Value, keys: &[&str]) -> Out {
    for k in keys {
        if got[*k] != crate::m_doc::NIL {
            return Err(format!("{}: {} is {}", what, k, got[*k]));
        }
    }
    Ok(())
}

fn entry_ok(case: &Value, e: &Entry) -> Out {
    let p = proj::entry(e);
    has("a new entry", &case["entry"], &p)?;
    empty("a new entry", &p, &["assoc", "bg", "fg", "bins", "strings", "ci", "history"])?;
    nils("a new entry", &p, &["parent"])?;
    now_ok("entry", &[e.creation_time, e.expiry_time, e.last_accessed, e.last_modified, e.location_changed])
}

fn group_ok(case: &Value, g: &Group, name: &str) -> Out {
    let p = proj::group(g);
    has("a new group", &case["group"], &p)?;
    empty("a new group", &p, &["ci", "en_at", "en_search", "entries", "groups"])?;
    nils("a new group", &p, &["parent", "ltve"])?;
    if g.name != name {
        return Err(format!("a new group is named {:?} instead of {:?}", g.name, name));
    }
    now_ok("group", &[g.creation_time, g.expiry_time, g.last_accessed, g.last_modified, g.location_changed])
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let r = &mut ctx.rng;
    // distinct texts for the numbers of the specification; 0 stands for none
    let mut texts: Vec<String> = vec![String::new()];
    while texts.len() < 10 {
        let t = v::text(r.pick(TEXTS), r);
        if !texts[1..].contains(&t) {
            texts.push(t);
        }
    }
    let text = |n: u64| texts[n as usize].clone();
    let bad = v::bytes("badutf8", r);
    let mut keys: HashMap<&str, StringKey> = HashMap::new();
    for k in ["Title", "UserName", "URL", "Notes", "Password"] {
        keys.insert(k, named(k).unwrap());
    }
    let mut others: Vec<String> = vec![
        "".into(), "title".into(), "Title".into(), "Title ".into(), "PASSWORD".into(), "Username".into(), "User Name".into(),
        "Other".into(), "é".into(), "&".into(), " ".into(), "URL2".into(), "\u{301}".into(),
    ];
    others.push(v::word(r, 8));
    let a = others.remove(r.below(others.len()));
    let b = others.remove(r.below(others.len()));
    keys.insert("o1", StringKey::Other(a));
    keys.insert("o2", StringKey::Other(b));
    let mut e = if r.bool() { Entry::new() } else { Entry::default() };
    let mut g = if r.bool() { Group::new("g") } else { Group::default() };
    // everything else has a value of its own, so that a change is seen
    e.tags = v::word(r, 5);
    e.override_url = v::word(r, 5);
    e.auto_type_def_sequence = v::word(r, 5);
    e.history.push(Entry::new());
    for (i, t) in [0i64, 1, 2, 3, 4].iter().zip([100, 200, 300, 400, 500]) {
        let d = DateTime::from_timestamp(1_500_000_000 + i * 1000 + t, 0).unwrap();
        match i {
            0 => e.creation_time = d,
            1 => e.expiry_time = d,
            2 => e.last_accessed = d,
            3 => e.last_modified = d,
            _ => e.location_changed = d,
        }
        match i {
            0 => g.creation_time = d,
            1 => g.expiry_time = d,
            2 => g.last_accessed = d,
            3 => g.last_modified = d,
            _ => g.location_changed = d,
        }
    }
    let start = case["start"].as_str().unwrap();
    let raw = |st: &str, t: String| match st {
        "plain" => StringValue::Plain(t),
        "protected" => StringValue::Protected(SecStr::from(t)),
        _ => StringValue::Protected(SecStr::new(bad.clone())),
    };
    if start != "absent" {
        for key in keys.values() {
            e.strings.insert(key.clone(), raw(start, text(9)));
        }
    }
    let mut ids: Vec<(u64, [u8; 16])> = vec![];
    for (i, h) in arr(&case["hist"]).iter().enumerate() {
        let op = h["op"].as_str().unwrap();
        let k = h["k"].as_str().unwrap();
        let t = text(h["v"].as_u64().unwrap());
        let what = format!("step {}, {} of {} to {:?}", i + 1, op, keys.get(k).map(|x| format!("{:?}", x)).unwrap_or(k.into()), t.chars().take(40).collect::<String>());
        let before_e = proj::entry(&e);
        let before_g = proj::group(&g);
        let mut time_set: Option<(Value, Value)> = None;
        match op {
            "set" => match k {
                "Title" => e.set_title(t),
                "UserName" => e.set_username(t),
                "URL" => e.set_url(t),
                "Notes" => e.set_notes(t),
                _ => e.set_password(t),
            },
            "set other" => e.set_other(keys[k].clone(), t),
            "put" => {
                e.strings.insert(keys[k].clone(), raw(h["st"].as_str().unwrap(), t));
            }
            "remove" => {
                e.strings.remove(&keys[k]);
            }
            "time" => {
                let d = v::date(*r.pick(&["day", "epoch", "pre", "milli"]), r);
                let b = h["v"] == json!(1);
                let n = r.u64() as i32;
                time_set = Some((set_time(k, &mut e, d, b, n), set_time(k, &mut g, d, b, n)));
            }
            _ => {
                let id = arr(&h["made"]).last().unwrap()["id"].as_u64().unwrap();
                let mut got = |b: &[u8]| {
                    let mut x = [0; 16];
                    x.copy_from_slice(b);
                    ids.push((id, x));
                };
                match k {
                    "entry" => {
                        let x = Entry::new();
                        entry_ok(case, &x)?;
                        got(x.uuid.0.as_bytes());
                    }
                    "entry default" => {
                        let x = Entry::default();
                        entry_ok(case, &x)?;
                        got(x.uuid.0.as_bytes());
                    }
                    "group" => {
                        let x = Group::new(texts[1].as_str());
                        group_ok(case, &x, &texts[1])?;
                        got(x.uuid.0.as_bytes());
                    }
                    "group default" => {
                        let x = Group::default();
                        group_ok(case, &x, "")?;
                        got(x.uuid.0.as_bytes());
                    }
                    _ => {
                        let key = CompositeKey::from_password(texts[2].as_str());
                        let x = Database::new(&key);
                        let p = proj::database(&x);
                        has("a new database", &case["database"], &p)?;
                        empty("a new database", &p, &["comment", "color", "binaries", "custom_data", "custom_icons"])?;
                        nils("a new database", &p, &["etg", "lsg", "ltvg", "rb"])?;
                        if x.composite_key != key {
                            return Err("a new database has another key".into());
                        }
                        now_ok("database", &[
                            x.def_username_changed, x.description_changed, x.entry_templates_group_changed, x.master_key_changed,
                            x.name_changed, x.recycle_bin_changed,
                        ])?;
                        group_ok(case, &x.root_group, "Root")?;
                        got(x.root_group.uuid.0.as_bytes());
                    }
                }
            }
        }
        // the strings are those of the specification, and nothing else has changed
        let mut after = proj::entry(&e);
        let mut want = want_strings(&h["strings"], &keys, &text, &bad);
        for (key, val) in want.as_object_mut().unwrap() {
            if val[0] == "either" && after["strings"][key].is_array() && after["strings"][key][0] != "protected-bytes" {
                val[0] = after["strings"][key][0].clone();
            }
        }
        if let Some(d) = show_diff(&want, &after["strings"]) {
            return Err(format!("{}: strings{}", what, d));
        }
        after["strings"] = before_e["strings"].clone();
        let mut want_e = before_e;
        let mut want_g = before_g;
        if let Some((a, b)) = &time_set {
            let p = FIELDS.iter().find(|x| x.0 == k).unwrap().1;
            want_e[p] = a.clone();
            want_g[p] = b.clone();
        }
        if let Some(d) = show_diff(&want_e, &after) {
            return Err(format!("{}: in the entry, {}", what, d));
        }
        let after_g = proj::group(&g);
        if let Some(d) = show_diff(&want_g, &after_g) {
            return Err(format!("{}: in the group, {}", what, d));
        }
        // the getters
        for (f, p) in FIELDS {
            if time(f, &e) != after[p] || time(f, &g) != after_g[p] {
                return Err(format!("{}: the getter of {}", what, f));
            }
        }
        for (k, key) in &keys {
            let s = &h["strings"][k];
            let v = text(s["v"].as_u64().unwrap());
            let want = match s["st"].as_str().unwrap() {
                "absent" | "invalid" => None,
                _ => Some(v.as_str()),
            };
            let mut got = vec![e.other(key.clone())];
            match *k {
                "Title" => got.push(e.title()),
                "UserName" => got.push(e.username()),
                "URL" => got.push(e.url()),
                "Notes" => got.push(e.notes()),
                "Password" => got.push(e.password()),
                _ => {}
            }
            if got.iter().any(|x| *x != want) {
                return Err(format!("{}: the getter of {:?} returns {:?} instead of {:?}", what, key, got, want));
            }
        }
        // identity
        for (i, (n, x)) in ids.iter().enumerate() {
            if (*n == 0) != (*x == [0; 16]) {
                return Err(format!("{}: the identifier is {}", what, hex(x)));
            }
            if *n != 0 && ids[..i].iter().any(|y| y.1 == *x) {
                return Err(format!("{}: the identifier {} is not unique", what, hex(x)));
            }
        }
        ctx.count.entry(op.to_string()).and_modify(|n| *n += 1).or_insert(1);
    }
    Ok(())
}
