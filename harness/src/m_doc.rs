//! KdbxDoc.tla: documents written event by event; the model that the
//! specification's reader built is what opening the file has to give.
use crate::codec::{self, Params, Salsa};
use crate::m_fields::open;
use crate::util::*;
use crate::xmlm::{self, Item, Node};
use crate::{proj, slots, values, Ctx, Out};
use chrono::{SecondsFormat, Utc};
use kpdb::*;
use serde_json::{json, Map, Value};

/// The place of an element's value in the projection.
pub const META: &[(&str, &str)] = &[
    ("DatabaseDescription", "desc"),
    ("DatabaseName", "name"),
    ("DefaultUserName", "def_user"),
    ("Generator", "generator"),
    ("DatabaseDescriptionChanged", "t_desc"),
    ("DatabaseNameChanged", "t_name"),
    ("DefaultUserNameChanged", "t_def_user"),
    ("EntryTemplatesGroupChanged", "t_etg"),
    ("MasterKeyChanged", "t_mk"),
    ("RecycleBinChanged", "t_rb"),
    ("EntryTemplatesGroup", "etg"),
    ("LastSelectedGroup", "lsg"),
    ("LastTopVisibleGroup", "ltvg"),
    ("RecycleBinUUID", "rb"),
    ("HistoryMaxItems", "hist_items"),
    ("HistoryMaxSize", "hist_size"),
    ("MaintenanceHistoryDays", "maint_days"),
    ("MasterKeyChangeForce", "mk_force"),
    ("MasterKeyChangeRec", "mk_rec"),
    ("Color", "color"),
    ("RecycleBinEnabled", "rb_enabled"),
    ("ProtectNotes", "p_notes"),
    ("ProtectPassword", "p_password"),
    ("ProtectTitle", "p_title"),
    ("ProtectURL", "p_url"),
    ("ProtectUserName", "p_username"),
];
pub const TIMES: &[(&str, &str)] = &[
    ("CreationTime", "t_create"),
    ("ExpiryTime", "t_expiry"),
    ("LastAccessTime", "t_access"),
    ("LastModificationTime", "t_mod"),
    ("LocationChanged", "t_loc"),
    ("Expires", "expires"),
    ("UsageCount", "usage"),
];
pub const GROUP: &[(&str, &str)] = &[
    ("CustomIconUUID", "ci"),
    ("DefaultAutoTypeSequence", "at_seq"),
    ("EnableAutoType", "en_at"),
    ("EnableSearching", "en_search"),
    ("IconID", "icon"),
    ("IsExpanded", "expanded"),
    ("LastTopVisibleEntry", "ltve"),
    ("Name", "name"),
    ("Notes", "notes"),
    ("UUID", "uuid"),
];
pub const ENTRY: &[(&str, &str)] = &[
    ("BackgroundColor", "bg"),
    ("CustomIconUUID", "ci"),
    ("ForegroundColor", "fg"),
    ("IconID", "icon"),
    ("OverrideURL", "url"),
    ("Tags", "tags"),
    ("UUID", "uuid"),
    ("DataTransferObfuscation", "at_obf"),
    ("DefaultSequence", "at_seq"),
    ("Enabled", "at_enabled"),
];
pub const NIL: &str = "u:00000000000000000000000000000000";

fn defaults() -> (Value, Value, Value) {
    let times = json!({"t_create":"now","t_expiry":"now","t_access":"now","t_mod":"now","t_loc":"now","expires":false,"usage":0});
    let mut meta = json!({
        "desc":"t:","name":"t:","def_user":"t:","generator":"t:","t_desc":"now","t_name":"now","t_def_user":"now","t_etg":"now",
        "t_mk":"now","t_rb":"now","etg":NIL,"lsg":NIL,"ltvg":NIL,"rb":NIL,"hist_items":10,"hist_size":6291456,"maint_days":365,
        "mk_force":-1,"mk_rec":-1,"color":null,"rb_enabled":true,"p_notes":false,"p_password":true,"p_title":false,"p_url":false,
        "p_username":false,"binaries":{},"custom_data":{},"custom_icons":{},"type":2,"cipher":"aes","stream":"salsa20"});
    let mut group = json!({"ci":null,"at_seq":"t:","en_at":null,"en_search":null,"icon":48,"expanded":true,"ltve":NIL,"name":"t:",
        "notes":"t:","uuid":NIL});
    let mut entry = json!({"bg":null,"ci":null,"fg":null,"icon":0,"url":"t:","tags":"t:","uuid":NIL,"at_obf":0,"at_seq":"t:",
        "at_enabled":true});
    for (k, v) in times.as_object().unwrap() {
        group[k] = v.clone();
        entry[k] = v.clone();
    }
    meta["version"] = json!([3, 1]);
    (meta, group, entry)
}

/// What a leaf is: its text or protected bytes, its attributes, and its value.
struct Leaf {
    text: String,
    raw: Option<Vec<u8>>,
    attrs: Vec<(String, String)>,
    value: Value,
}

struct R {
    seed: u64,
    key: [u8; 32],
    stream: Vec<u8>,
}

fn boolean(b: bool, r: &mut Rng) -> String {
    let t = if b { "True" } else { "False" };
    match r.below(3) {
        0 => t.to_lowercase(),
        1 => t.to_uppercase(),
        _ => t.into(),
    }
}

fn utf8_of(n: usize, r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        match r.below(4) {
            0 if left >= 2 => s.push('é'),
            1 if left >= 3 => s.push('€'),
            2 if left >= 4 => s.push('🔑'),
            _ => s.push((b' ' + r.below(94) as u8) as char),
        }
    }
    s.into_bytes()
}

impl R {
    fn rng(&self, n: i64) -> Rng {
        Rng::from_str(self.seed, &format!("event {}", n))
    }
    /// The names that stand for themselves are as in the model; the others are
    /// the same name in the whole document, but another one in each document.
    fn name(&self, k: &str) -> String {
        match k {
            "k1" | "k2" | "K1" | "custom" | "Custom" => {
                let mut r = Rng::from_str(self.seed, "names");
                let class = *r.pick(&["empty", "empty", "punct", "path", "list", "url", "placeholder", "emoji", "latin", "markup", "nbsp", "bom"]);
                format!("{}{}{}", values::text(class, &mut r), k, r.pick(&["", "", ".", "/", ":", ";", "=", "\u{a0}", "\u{feff}"]))
            }
            _ => k.into(),
        }
    }
    fn leaf(&self, t: &str, c: &str, n: i64) -> Leaf {
        let r = &mut self.rng(n);
        let mut l = Leaf {
            text: String::new(),
            raw: None,
            attrs: vec![],
            value: Value::Null,
        };
        let prot_len = |c: &str| -> Option<usize> {
            match c {
                "pgz" => Some(40),
                "pimp" => Some(33),
                _ => c.strip_prefix('p').and_then(|x| x.parse().ok()),
            }
        };
        match t {
            // unknown and misplaced leaves, strings, binaries
            "" | "sval" | "bval" | "pool" => {
                if let Some(k) = prot_len(c) {
                    let b = if t == "sval" { utf8_of(k, r) } else { r.bytes(k) };
                    l.attrs.push(("Protected".into(), boolean(true, r)));
                    if c == "pgz" {
                        l.attrs.push(("Compressed".into(), boolean(true, r)));
                    }
                    if c == "pimp" {
                        l.attrs.push(("ProtectInMemory".into(), boolean(true, r)));
                    }
                    l.value = match t {
                        "sval" => json!(["protected", jstr(std::str::from_utf8(&b).unwrap())]),
                        "bval" => json!(["protected", jb(&b)]),
                        _ => jb(&b),
                    };
                    l.raw = Some(b);
                    return l;
                }
                let bytes = {
                    let n = r.range(1, 70);
                    r.bytes(n)
                };
                let plain = |b: &[u8]| if t == "pool" { jb(b) } else { json!(["plain", jb(b)]) };
                match c {
                    "pempty" => {
                        l.attrs.push(("Protected".into(), boolean(true, r)));
                        l.value = match t {
                            "sval" => json!(["protected", "t:"]),
                            "bval" => json!(["protected", "x:"]),
                            _ => json!("x:"),
                        };
                    }
                    "pfalse" => {
                        l.attrs.push(("Protected".into(), boolean(false, r)));
                        if t == "sval" {
                            l.text = values::text("phrase", r);
                            l.value = json!(["plain", jstr(&l.text)]);
                        } else {
                            l.text = b64(&bytes);
                            l.value = plain(&bytes);
                        }
                    }
                    "pim" | "pimempty" => {
                        l.attrs.push(("ProtectInMemory".into(), boolean(true, r)));
                        l.text = if c == "pim" { values::text("phrase", r) } else { String::new() };
                        l.value = json!(["protected", jstr(&l.text)]);
                    }
                    "pbad64" => {
                        l.attrs.push(("Protected".into(), boolean(true, r)));
                        l.text = "!not base64!".into();
                    }
                    "pbadutf8" => {
                        l.attrs.push(("Protected".into(), boolean(true, r)));
                        l.raw = Some(values::bytes("badutf8", r));
                    }
                    "ref" => {
                        let id = r.pick(&["0", "1", "x", "missing"]).to_string();
                        l.value = json!(["ref", jstr(&id)]);
                        l.attrs.push(("Ref".into(), id));
                    }
                    "gz" => {
                        l.attrs.push(("Compressed".into(), boolean(true, r)));
                        l.text = b64(&codec::gz(&bytes));
                        l.value = plain(&bytes);
                    }
                    "badgz" => {
                        l.attrs.push(("Compressed".into(), boolean(true, r)));
                        l.text = b64(&[&[0u8, 1][..], &bytes].concat());
                    }
                    "bad64" => l.text = "====".into(),
                    "noid" => l.text = b64(&bytes),
                    "empty" => {
                        l.value = match t {
                            "sval" => json!(["plain", "t:"]),
                            "bval" => json!(["plain", "x:"]),
                            _ => json!("x:"),
                        }
                    }
                    "any" if t == "bval" || t == "pool" => {
                        l.text = b64(&bytes);
                        l.value = plain(&bytes);
                    }
                    _ if t.is_empty() && !["phrase", "markup", "space", "empty"].contains(&c) => l.text = c.into(),
                    _ => {
                        l.text = self.text(c, r);
                        l.value = json!(["plain", jstr(&l.text)]);
                    }
                }
            }
            "text" => {
                l.text = self.text(c, r);
                l.value = js(&l.text);
            }
            "key" | "skey" => l.text = self.name(c),
            "iconkey" => match c {
                "u1" | "u2" => l.text = b64(&self.icon_uuid(c)),
                _ => l.text = self.bad_uuid(c, r),
            },
            "bytes" => match c {
                "any" => {
                    let n = r.range(1, 70);
                    let b = r.bytes(n);
                    l.text = b64(&b);
                    l.value = jb(&b);
                }
                "empty" => l.value = json!("x:"),
                _ => l.text = "a".into(),
            },
            "date" => match c {
                "day" | "frac" => {
                    let d = values::date(if c == "day" { "day" } else { "milli" }, r);
                    l.text = d.to_rfc3339_opts(SecondsFormat::AutoSi, true);
                    l.value = proj::dt(&d);
                }
                "garbage" => l.text = "yesterday".into(),
                "range" => l.text = "2016-13-41T25:61:61Z".into(),
                _ => l.text = blank(c),
            },
            "uuid" | "optuuid" => match c {
                "any" | "nil" => {
                    let u = values::uuid(c, r);
                    l.text = b64(u.as_bytes());
                    l.value = proj::uu(u.as_bytes());
                }
                _ => l.text = self.bad_uuid(c, r),
            },
            "int" => match c {
                "any" | "zero" | "min" | "max" => {
                    let i = values::int(c, r);
                    l.text = i.to_string();
                    l.value = json!(i);
                }
                "overflow" => l.text = "2147483648".into(),
                "underflow" => l.text = "-2147483649".into(),
                "float" => l.text = "1.5".into(),
                "garbage" => l.text = "ten".into(),
                _ => l.text = blank(c),
            },
            "bool" | "optbool" => match c {
                "true" | "false" => {
                    l.text = boolean(c == "true", r);
                    l.value = json!(c == "true");
                }
                "null" => l.text = r.pick(&["null", "Null", "NULL"]).to_string(),
                "garbage" => l.text = "maybe".into(),
                "digit" => l.text = "1".into(),
                _ => l.text = blank(c),
            },
            "color" => match c {
                "any" => {
                    let b = r.bytes(3);
                    l.text = format!("#{}", if r.bool() { hex(&b).to_uppercase() } else { hex(&b) });
                    l.value = json!([b[0], b[1], b[2]]);
                }
                "short" => l.text = "#12345".into(),
                "long" => l.text = "#1234567".into(),
                "nohash" => l.text = "123456".into(),
                "nonhex" => l.text = "#12345g".into(),
                "nonascii" => l.text = "#1234é".into(),
                _ => l.text = blank(c),
            },
            "icon" => match c {
                "any" | "first" | "last" => {
                    let i = match c {
                        "first" => 0,
                        "last" => 68,
                        _ => r.below(69),
                    };
                    l.text = i.to_string();
                    l.value = json!(i);
                }
                "over" => l.text = "69".into(),
                "minus" => l.text = "-1".into(),
                "garbage" => l.text = "key".into(),
                _ => l.text = blank(c),
            },
            "obf" => match c {
                "none" | "clip" => {
                    l.text = if c == "none" { "0" } else { "1" }.into();
                    l.value = json!((c == "clip") as i32);
                }
                "over" => l.text = "2".into(),
                "minus" => l.text = "-1".into(),
                "garbage" => l.text = "x".into(),
                _ => l.text = blank(c),
            },
            _ => panic!("type {}", t),
        }
        l
    }
    fn text(&self, c: &str, r: &mut Rng) -> String {
        match c {
            "space" => r.pick(&[" ", "  \n", "\t"]).to_string(),
            "empty" => String::new(),
            _ => values::text(c, r),
        }
    }
    fn icon_uuid(&self, c: &str) -> [u8; 16] {
        Rng::from_str(self.seed, c).arr16()
    }
    fn bad_uuid(&self, c: &str, r: &mut Rng) -> String {
        match c {
            "short" => b64(&r.bytes(15)),
            "long" => b64(&r.bytes(17)),
            "bad64" => "AAAA*AAA".into(),
            _ => blank(c),
        }
    }
    /// The value that a reference {t, c, n, at} of the model stands for.
    fn value(&self, v: &Value) -> Value {
        let (t, c) = (v["t"].as_str().unwrap(), v["c"].as_str().unwrap());
        if c == "nothing" {
            return Value::Null;
        }
        self.leaf(t, c, v["n"].as_i64().unwrap()).value
    }
    fn fields(&self, f: &Value, table: &[&[(&str, &str)]], m: &mut Map<String, Value>) {
        for (k, v) in obj(f) {
            let p = table
                .iter()
                .flat_map(|t| t.iter())
                .find(|x| x.0 == k)
                .unwrap_or_else(|| panic!("no place for {}", k))
                .1;
            m.insert(p.into(), self.value(v));
        }
    }
    fn parent(&self, v: &Value) -> Value {
        match v.as_array().unwrap().first() {
            Some(u) => self.value(u),
            None => json!(NIL),
        }
    }
    fn entry(&self, v: &Value, history: bool) -> Value {
        let mut m = defaults().2.as_object().unwrap().clone();
        self.fields(&v["f"], &[ENTRY, TIMES], &mut m);
        let mut s = Map::new();
        for (k, x) in obj(&v["strings"]) {
            s.insert(proj::skey(&std_key(&self.name(k))), self.value(x));
        }
        m.insert("strings".into(), Value::Object(s));
        let mut s = Map::new();
        for (k, x) in obj(&v["bins"]) {
            s.insert(jstr(&self.name(k)), self.value(x));
        }
        m.insert("bins".into(), Value::Object(s));
        let a: Vec<Value> = arr(&v["assoc"])
            .iter()
            .map(|x| json!([self.value(&x["Window"]), self.value(&x["KeystrokeSequence"])]))
            .collect();
        m.insert("assoc".into(), Value::Array(a));
        let h: Vec<Value> = arr(&v["hist"]).iter().map(|x| self.entry(x, true)).collect();
        m.insert("history".into(), Value::Array(h));
        if !history {
            m.insert("parent".into(), self.parent(&v["parent"]));
        }
        Value::Object(m)
    }
    fn group(&self, v: &Value) -> Value {
        let mut m = defaults().1.as_object().unwrap().clone();
        self.fields(&v["f"], &[GROUP, TIMES], &mut m);
        let e: Vec<Value> = arr(&v["entries"]).iter().map(|x| self.entry(x, false)).collect();
        m.insert("entries".into(), Value::Array(e));
        let g: Vec<Value> = arr(&v["groups"]).iter().map(|x| self.group(x)).collect();
        m.insert("groups".into(), Value::Array(g));
        m.insert("parent".into(), self.parent(&v["parent"]));
        Value::Object(m)
    }
    fn expected(&self, model: &Value) -> Value {
        let mut m = defaults().0.as_object().unwrap().clone();
        self.fields(&model["f"], &[META], &mut m);
        for (box_, map) in obj(&model["maps"]) {
            let mut o = Map::new();
            for (k, x) in obj(map) {
                let k = match box_ {
                    "CustomIcons" => hex(&self.icon_uuid(k)),
                    "CustomData" => jstr(&self.name(k)),
                    _ => jstr(k),
                };
                o.insert(k, self.value(x));
            }
            let p = match box_ {
                "Binaries" => "binaries",
                "CustomData" => "custom_data",
                _ => "custom_icons",
            };
            m.insert(p.into(), Value::Object(o));
        }
        m.insert("root".into(), self.group(&arr(&model["root"])[0]));
        Value::Object(m)
    }
}

fn blank(c: &str) -> String {
    match c {
        "empty" => String::new(),
        "blank" => "\n\t ".into(),
        _ => panic!("class {}", c),
    }
}
pub fn std_key(k: &str) -> StringKey {
    match k {
        "Title" => StringKey::Title,
        "UserName" => StringKey::Username,
        "Password" => StringKey::Password,
        "URL" => StringKey::Url,
        "Notes" => StringKey::Notes,
        _ => StringKey::Other(k.into()),
    }
}
/// The pairs of a function, which TLC writes as an empty array when it has none.
fn obj(v: &Value) -> Vec<(&str, &Value)> {
    match v {
        Value::Object(o) => o.iter().map(|(k, v)| (k.as_str(), v)).collect(),
        _ => vec![],
    }
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

/// Times that the document does not give are the time of opening.
fn now_ish(want: &mut Value, got: &mut Value) {
    match (want, got) {
        (Value::String(w), Value::String(g)) if w == "now" => {
            let t: i64 = g.split('+').next().and_then(|x| x.parse().ok()).unwrap_or(0);
            if (Utc::now().timestamp() - t).abs() < 86400 {
                *g = "now".into();
            }
        }
        (Value::Object(w), Value::Object(g)) => {
            for (k, v) in w.iter_mut() {
                if let Some(x) = g.get_mut(k) {
                    now_ish(v, x);
                }
            }
        }
        (Value::Array(w), Value::Array(g)) => {
            for (v, x) in w.iter_mut().zip(g) {
                now_ish(v, x);
            }
        }
        _ => {}
    }
}

pub fn strip_history_parent(v: &mut Value, history: bool) {
    match v {
        Value::Object(o) => {
            if history {
                o.remove("parent");
            }
            for (k, x) in o.iter_mut() {
                strip_history_parent(x, history || k == "history");
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| strip_history_parent(x, history)),
        _ => {}
    }
}

pub struct Doc {
    pub file: Vec<u8>,
    pub want: Option<Value>,
}

pub fn build(case: &Value, ctx: &mut Ctx) -> Doc {
    let seed = ctx.rng.u64();
    let r = &mut ctx.rng;
    let mut p = Params::new(r, slots::key_bytes());
    p.rounds = 1;
    p.gzip = r.bool();
    let events = arr(&case["events"]);
    let last = events.last().unwrap()["at"].as_u64().unwrap() as usize;
    let rd = R {
        seed,
        key: p.psk,
        stream: Salsa::new(&p.psk).apply(&vec![0; last + 64]),
    };
    // the tree
    let mut stack: Vec<Node> = vec![Node::new("")];
    for (i, e) in events.iter().enumerate() {
        match e["op"].as_str().unwrap() {
            "open" => stack.push(Node::new(e["name"].as_str().unwrap())),
            "close" => {
                let n = stack.pop().unwrap();
                stack.last_mut().unwrap().add(n);
            }
            _ => {
                let (t, c) = (e["t"].as_str().unwrap(), e["class"].as_str().unwrap());
                let l = rd.leaf(t, c, i as i64);
                let mut n = Node::new(e["name"].as_str().unwrap());
                n.attrs = l.attrs;
                if t == "pool" && c != "noid" {
                    n.attrs.insert(0, ("ID".into(), e["id"].as_str().unwrap().into()));
                }
                match l.raw {
                    // the key stream at the position that the specification says
                    Some(b) => {
                        let at = e["at"].as_u64().unwrap() as usize;
                        let x: Vec<u8> = b.iter().zip(&rd.stream[at..]).map(|(a, k)| a ^ k).collect();
                        if !x.is_empty() {
                            n.kids.push(Item::T(b64(&x)));
                        }
                    }
                    None => {
                        if !l.text.is_empty() {
                            n.kids.push(Item::T(l.text));
                        } else if r.bool() {
                            n.kids.push(Item::Raw(String::new()));
                        }
                    }
                }
                stack.last_mut().unwrap().add(n);
            }
        }
    }
    let file_node = match stack.pop().unwrap().kids.pop() {
        Some(Item::E(n)) => n,
        _ => panic!("no document"),
    };
    let indent = *r.pick(&[None, Some("\t"), Some("\r\n  ")]);
    let xml = xmlm::document(&file_node, indent);
    let h = p.header_in_order(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 0]);
    let bs = *r.pick(&[100, 1 << 20]);
    let file = p.file(&h, &xml, bs);
    let want = if case["err"] == json!(true) || case["loose"] == json!(true) {
        None
    } else {
        let mut w = rd.expected(&case["model"]);
        w["comment"] = Value::Null;
        w["compression"] = json!(if p.gzip { "gzip" } else { "none" });
        w["rounds"] = json!(1);
        Some(w)
    };
    Doc { file, want }
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let d = build(case, ctx);
    match (open(&d.file, &slots::key()), d.want) {
        (_, None) if case["loose"] == json!(true) => ctx.add("not asserted", 1),
        (Err(_), None) => ctx.add("rejected", 1),
        (Ok(_), None) => return Err("the document has a value of the wrong type, but it opens".into()),
        (Err(e), Some(_)) => return Err(format!("a valid document is rejected: {}", e)),
        (Ok(db), Some(mut want)) => {
            let mut got = proj::database(&db);
            strip_history_parent(&mut got, false);
            now_ish(&mut want, &mut got);
            if let Some(x) = show_diff(&want, &got) {
                return Err(format!("in the opened document, {}", x));
            }
            ctx.add("opened", 1);
        }
    }
    Ok(())
}
