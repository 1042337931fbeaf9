//! SavedTrace.tla: the parts of a saved file in the order in which they are in
//! it, and the content that the file was saved from. The specification reads
//! the parts and compares.
use crate::codec::{self, Salsa};
use crate::m_doc::{ENTRY, GROUP, META, TIMES};
use crate::m_fields::{build, save};
use crate::util::*;
use crate::xmlm::{self, Item, Node};
use crate::{proj, slots, Ctx, Out};
use kpdb::*;
use serde_json::{json, Map, Value};

/// Texts as they are, if they are short and plain.
fn safe(s: &str) -> String {
    if s.len() <= 80 && s.bytes().all(|b| (b' '..=b'~').contains(&b)) && !s.starts_with("h:") {
        s.into()
    } else {
        format!("h:{}:{}", &hex(&sha(s.as_bytes()))[..24], s.len())
    }
}
fn canon(v: &Value) -> String {
    match v {
        Value::Null => "null".into(),
        Value::String(s) => safe(s),
        _ => v.to_string(),
    }
}
/// Bytes as TLC writes them.
fn tuple(b: &[u8]) -> String {
    format!("prot<<{}>>", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}

/// What a text means in each lexical form that it has.
fn forms(t: &str) -> Map<String, Value> {
    let mut m = Map::new();
    let mut add = |k: &str, v: Result2| {
        if let Ok(v) = v {
            m.insert(k.into(), json!(canon(&v)));
        }
    };
    add("text", proj::x_text(t));
    add("int", proj::x_int(t));
    add("bool", proj::x_bool(t));
    add("optbool", proj::x_optbool(t));
    add("date", proj::x_date(t));
    add("uuid", proj::x_uuid(t));
    add("optuuid", proj::x_ci(t));
    add("color", proj::x_color(t));
    add("icon", proj::x_icon(t));
    add("obf", proj::x_obf(t));
    let bytes = proj::bytes_of(t);
    if let Ok(b) = &bytes {
        if !b.is_empty() {
            add("gz", codec::ungz(b).map(|b| jb(&b)));
        }
    }
    add("bytes", bytes.map(|b| jb(&b)));
    m
}
type Result2 = std::result::Result<Value, String>;

fn events(n: &Node, out: &mut Vec<Value>, protected: &mut usize) -> Out {
    let attrs: Vec<Value> = n.attrs.iter().map(|(k, v)| json!([k, safe(v)])).collect();
    if n.elems().next().is_some() {
        for k in &n.kids {
            if let Item::T(t) = k {
                if !t.trim_matches(&[' ', '\t', '\r', '\n'][..]).is_empty() {
                    return Err(format!("text inside {}", n.name));
                }
            }
        }
        out.push(json!({"op":"open","name":n.name,"attrs":attrs}));
        for e in n.elems() {
            events(e, out, protected)?;
        }
        out.push(json!({"op":"close","name":n.name,"attrs":[]}));
        return Ok(());
    }
    let t = n.text()?;
    let mut e = json!({"op":"leaf","name":n.name,"attrs":attrs,"key":safe(&t),"blank":t.trim().is_empty(),"vals":{},"bytes":[]});
    if n.get_attr("Protected").is_some() {
        let b = proj::bytes_of(&t)?;
        *protected += b.len();
        e["bytes"] = json!(b);
    } else {
        e["vals"] = Value::Object(forms(&t));
    }
    out.push(e);
    Ok(())
}

fn table(names: &[(&str, &str)], v: &Value, f: &mut Map<String, Value>) {
    for (name, key) in names {
        f.insert(name.to_string(), json!(if v[key].is_null() { "nothing".to_string() } else { canon(&v[key]) }));
    }
}
fn want_entry(e: &Entry, in_history: bool) -> Value {
    let v = proj::entry(e);
    let mut f = Map::new();
    table(ENTRY, &v, &mut f);
    table(TIMES, &v, &mut f);
    let key = |k: &StringKey| match k {
        StringKey::Other(s) => safe(s),
        k => proj::skey(k)[1..].to_string(),
    };
    let strings: Vec<Value> = e
        .strings
        .iter()
        .map(|(k, v)| {
            json!([key(k), match v {
                StringValue::Plain(s) => canon(&js(s)),
                StringValue::Protected(s) => tuple(s.unsecure()),
            }])
        })
        .collect();
    let bins: Vec<Value> = e
        .binaries
        .iter()
        .map(|(k, v)| {
            json!([safe(&k.0), match v {
                BinaryValue::Plain(b) => canon(&jb(b)),
                BinaryValue::Protected(s) => tuple(s.unsecure()),
                BinaryValue::Ref(id) => format!("ref:{}", safe(&id.0)),
            }])
        })
        .collect();
    let assoc: Vec<Value> = e
        .associations
        .iter()
        .map(|a| json!([canon(&js(&a.window)), canon(&js(&a.keystroke_sequence))]))
        .collect();
    let hist: Vec<Value> = if in_history { vec![] } else { e.history.iter().map(|h| want_entry(h, true)).collect() };
    json!({"f":f,"strings":strings,"bins":bins,"assoc":assoc,"hist":hist})
}
fn want_group(g: &Group) -> Value {
    let v = proj::group(g);
    let mut f = Map::new();
    table(GROUP, &v, &mut f);
    table(TIMES, &v, &mut f);
    json!({"f":f,
        "entries":g.entries.iter().map(|e| want_entry(e, false)).collect::<Vec<_>>(),
        "groups":g.groups.iter().map(want_group).collect::<Vec<_>>()})
}
fn want(db: &Database) -> Value {
    let v = proj::database(db);
    let mut f = Map::new();
    table(META, &v, &mut f);
    f.remove("Generator");
    let bins: Vec<Value> = db.binaries.iter().map(|(k, v)| json!([safe(&k.0), canon(&jb(v))])).collect();
    let data: Vec<Value> = db.custom_data.iter().map(|(k, v)| json!([safe(k), canon(&js(v))])).collect();
    let icons: Vec<Value> = db.custom_icons.iter().map(|(k, v)| json!([canon(&proj::uu(k.0.as_bytes())), canon(&jb(v))])).collect();
    json!({"f":f,"maps":{"Binaries":bins,"CustomData":data,"CustomIcons":icons},"root":want_group(&db.root_group),
        "version":v["version"],"gzip":v["compression"] == "gzip","comment":db.comment.as_ref().map(|c| c.0.len() as i64).unwrap_or(-1)})
}

fn tabs(db: &Database) -> bool {
    fn entry(e: &Entry) -> bool {
        e.binaries.values().any(|v| matches!(v, BinaryValue::Ref(id) if id.0.contains('\t'))) || e.history.iter().any(entry)
    }
    fn group(g: &Group) -> bool {
        g.entries.iter().any(entry) || g.groups.iter().any(group)
    }
    db.binaries.keys().any(|k| k.0.contains('\t')) || group(&db.root_group)
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let db = build(case, ctx);
    // the known finding of the mode `strict`
    if tabs(&db) || !case["ok"].as_bool().unwrap() {
        return Ok(());
    }
    ctx.sig = case["set"].to_string();
    let file = save(&db).map_err(|e| format!("save failed: {}", e))?;
    let (version, fields, _) = codec::split(&file)?;
    let d = codec::decode(&file, &slots::key_bytes())?;
    let doc = xmlm::parse(&d.xml)?;
    let mut ev = vec![];
    let mut protected = 0;
    events(&doc, &mut ev, &mut protected)?;
    if protected > 6000 || ev.len() > 6000 {
        return Ok(());
    }
    let stream = Salsa::new(&d.params.psk).apply(&vec![0; protected]);
    let number = |f: &Vec<u8>| if f.len() == 4 { u32::from_le_bytes([f[0], f[1], f[2], f[3]]) as i64 } else { -1 };
    let header: Vec<Value> = fields.iter().map(|(id, f)| json!({"id":id,"size":f.len(),"number":number(f)})).collect();
    ctx.rec.push(json!({
        "version": [version.0, version.1],
        "header": header,
        "blocks": d.block_sizes,
        "events": ev,
        "stream": stream,
        "hash": b64(&sha(&d.header)),
        "want": want(&db),
    }));
    ctx.add("files", 1);
    Ok(())
}
