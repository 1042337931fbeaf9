//! The projection of a database to JSON, which is what every comparison looks
//! at, and the same projection taken from the XML of a file.
use crate::codec::Salsa;
use crate::util::*;
use crate::xmlm::*;
use base64::Engine as _;
use chrono::{DateTime, Utc};
use kpdb::*;
use serde_json::{json, Map, Value};

pub fn dt(d: &DateTime<Utc>) -> Value {
    json!(format!("{}+{}", d.timestamp(), d.timestamp_subsec_nanos()))
}
pub fn uu(b: &[u8]) -> Value {
    json!(format!("u:{}", hex(b)))
}
fn color(c: &Option<Color>) -> Value {
    match c {
        Some(c) => json!([c.red, c.green, c.blue]),
        None => Value::Null,
    }
}
fn ci(c: &Option<CustomIconUuid>) -> Value {
    match c {
        Some(c) => uu(c.0.as_bytes()),
        None => Value::Null,
    }
}
pub fn skey(k: &StringKey) -> String {
    match k {
        StringKey::Notes => "!Notes".into(),
        StringKey::Password => "!Password".into(),
        StringKey::Title => "!Title".into(),
        StringKey::Url => "!URL".into(),
        StringKey::Username => "!UserName".into(),
        StringKey::Other(s) => jstr(s),
    }
}
pub fn sval(v: &StringValue) -> Value {
    match v {
        StringValue::Plain(s) => json!(["plain", jstr(s)]),
        StringValue::Protected(s) => match std::str::from_utf8(s.unsecure()) {
            Ok(t) => json!(["protected", jstr(t)]),
            Err(_) => json!(["protected-bytes", jb(s.unsecure())]),
        },
    }
}
pub fn bval(v: &BinaryValue) -> Value {
    match v {
        BinaryValue::Plain(b) => json!(["plain", jb(b)]),
        BinaryValue::Protected(s) => json!(["protected", jb(s.unsecure())]),
        BinaryValue::Ref(id) => json!(["ref", jstr(&id.0)]),
    }
}
/// The number KeePass uses for an icon; written from KeePass, not from the library.
pub fn icon_num(i: &Icon) -> i32 {
    crate::tables::icon_code(i)
}
pub fn obf_num(o: &Obfuscation) -> i32 {
    match o {
        Obfuscation::None => 0,
        Obfuscation::UseClipboard => 1,
    }
}

pub fn entry(e: &Entry) -> Value {
    let mut m = Map::new();
    m.insert("uuid".into(), uu(e.uuid.0.as_bytes()));
    m.insert("parent".into(), uu(e.parent.0.as_bytes()));
    m.insert(
        "assoc".into(),
        Value::Array(
            e.associations
                .iter()
                .map(|a| json!([jstr(&a.window), jstr(&a.keystroke_sequence)]))
                .collect(),
        ),
    );
    m.insert("at_seq".into(), js(&e.auto_type_def_sequence));
    m.insert("at_enabled".into(), json!(e.auto_type_enabled));
    m.insert("at_obf".into(), json!(obf_num(&e.auto_type_obfuscation)));
    m.insert("bg".into(), color(&e.background_color));
    m.insert("fg".into(), color(&e.foreground_color));
    let mut b = Map::new();
    for (k, v) in &e.binaries {
        b.insert(jstr(&k.0), bval(v));
    }
    m.insert("bins".into(), Value::Object(b));
    let mut s = Map::new();
    for (k, v) in &e.strings {
        s.insert(skey(k), sval(v));
    }
    m.insert("strings".into(), Value::Object(s));
    m.insert("ci".into(), ci(&e.custom_icon_uuid));
    m.insert("icon".into(), json!(icon_num(&e.icon)));
    m.insert("url".into(), js(&e.override_url));
    m.insert("tags".into(), js(&e.tags));
    m.insert("t_create".into(), dt(&e.creation_time));
    m.insert("t_expiry".into(), dt(&e.expiry_time));
    m.insert("t_access".into(), dt(&e.last_accessed));
    m.insert("t_mod".into(), dt(&e.last_modified));
    m.insert("t_loc".into(), dt(&e.location_changed));
    m.insert("expires".into(), json!(e.expires));
    m.insert("usage".into(), json!(e.usage_count));
    m.insert("history".into(), Value::Array(e.history.iter().map(entry).collect()));
    Value::Object(m)
}

pub fn group(g: &Group) -> Value {
    let mut m = Map::new();
    m.insert("uuid".into(), uu(g.uuid.0.as_bytes()));
    m.insert("parent".into(), uu(g.parent.0.as_bytes()));
    m.insert("name".into(), js(&g.name));
    m.insert("notes".into(), js(&g.notes));
    m.insert("icon".into(), json!(icon_num(&g.icon)));
    m.insert("ci".into(), ci(&g.custom_icon_uuid));
    m.insert("at_seq".into(), js(&g.def_auto_type_sequence));
    m.insert("en_at".into(), json!(g.enable_auto_type));
    m.insert("en_search".into(), json!(g.enable_searching));
    m.insert("expanded".into(), json!(g.is_expanded));
    m.insert("ltve".into(), uu(g.last_top_visible_entry.0.as_bytes()));
    m.insert("t_create".into(), dt(&g.creation_time));
    m.insert("t_expiry".into(), dt(&g.expiry_time));
    m.insert("t_access".into(), dt(&g.last_accessed));
    m.insert("t_mod".into(), dt(&g.last_modified));
    m.insert("t_loc".into(), dt(&g.location_changed));
    m.insert("expires".into(), json!(g.expires));
    m.insert("usage".into(), json!(g.usage_count));
    m.insert("entries".into(), Value::Array(g.entries.iter().map(entry).collect()));
    m.insert("groups".into(), Value::Array(g.groups.iter().map(group).collect()));
    Value::Object(m)
}

pub fn header(db: &Database) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert(
        "comment".into(),
        match &db.comment {
            Some(c) => jb(&c.0),
            None => Value::Null,
        },
    );
    m.insert(
        "compression".into(),
        json!(match db.compression {
            Compression::None => "none",
            Compression::GZip => "gzip",
        }),
    );
    m.insert("rounds".into(), json!(db.transform_rounds.0));
    m.insert("version".into(), json!([db.version.major, db.version.minor]));
    m.insert(
        "type".into(),
        json!(match db.db_type {
            DbType::Kdb1 => 1,
            DbType::Kdb2 => 2,
        }),
    );
    m.insert(
        "cipher".into(),
        json!(match db.master_cipher {
            MasterCipher::Aes256 => "aes",
        }),
    );
    m.insert(
        "stream".into(),
        json!(match db.stream_cipher {
            StreamCipher::Salsa20 => "salsa20",
        }),
    );
    m
}

pub fn database(db: &Database) -> Value {
    let mut m = header(db);
    let mut b = Map::new();
    for (k, v) in &db.binaries {
        b.insert(jstr(&k.0), jb(v));
    }
    m.insert("binaries".into(), Value::Object(b));
    let mut b = Map::new();
    for (k, v) in &db.custom_data {
        b.insert(jstr(k), js(v));
    }
    m.insert("custom_data".into(), Value::Object(b));
    let mut b = Map::new();
    for (k, v) in &db.custom_icons {
        b.insert(hex(k.0.as_bytes()), jb(v));
    }
    m.insert("custom_icons".into(), Value::Object(b));
    m.insert("color".into(), color(&db.color));
    m.insert("def_user".into(), js(&db.def_username));
    m.insert("t_def_user".into(), dt(&db.def_username_changed));
    m.insert("desc".into(), js(&db.description));
    m.insert("t_desc".into(), dt(&db.description_changed));
    m.insert("t_etg".into(), dt(&db.entry_templates_group_changed));
    m.insert("etg".into(), uu(db.entry_templates_group_uuid.0.as_bytes()));
    m.insert("generator".into(), js(&db.generator));
    m.insert("hist_items".into(), json!(db.history_max_items));
    m.insert("hist_size".into(), json!(db.history_max_size));
    m.insert("lsg".into(), uu(db.last_selected_group.0.as_bytes()));
    m.insert("ltvg".into(), uu(db.last_top_visible_group.0.as_bytes()));
    m.insert("maint_days".into(), json!(db.maintenance_history_days));
    m.insert("mk_force".into(), json!(db.master_key_change_force));
    m.insert("mk_rec".into(), json!(db.master_key_change_rec));
    m.insert("t_mk".into(), dt(&db.master_key_changed));
    m.insert("name".into(), js(&db.name));
    m.insert("t_name".into(), dt(&db.name_changed));
    m.insert("p_notes".into(), json!(db.protect_notes));
    m.insert("p_password".into(), json!(db.protect_password));
    m.insert("p_title".into(), json!(db.protect_title));
    m.insert("p_url".into(), json!(db.protect_url));
    m.insert("p_username".into(), json!(db.protect_username));
    m.insert("t_rb".into(), dt(&db.recycle_bin_changed));
    m.insert("rb_enabled".into(), json!(db.recycle_bin_enabled));
    m.insert("rb".into(), uu(db.recycle_bin_uuid.0.as_bytes()));
    m.insert("root".into(), group(&db.root_group));
    Value::Object(m)
}

/// What remains after save and open: without the generator, the parents and the
/// history of history entries.
pub fn normal(mut v: Value) -> Value {
    fn ent(e: &mut Value, in_history: bool) {
        let o = e.as_object_mut().unwrap();
        o.remove("parent");
        if in_history {
            o.insert("history".into(), json!([]));
        } else if let Some(Value::Array(h)) = o.get_mut("history") {
            for x in h {
                ent(x, true);
            }
        }
    }
    fn grp(g: &mut Value) {
        let o = g.as_object_mut().unwrap();
        o.remove("parent");
        if let Some(Value::Array(h)) = o.get_mut("entries") {
            for x in h {
                ent(x, false);
            }
        }
        if let Some(Value::Array(h)) = o.get_mut("groups") {
            for x in h {
                grp(x);
            }
        }
    }
    let o = v.as_object_mut().unwrap();
    o.remove("generator");
    if let Some(r) = o.get_mut("root") {
        grp(r);
    }
    v
}

/// Checks the parent links of an opened database.
pub fn parents_ok(db: &Database) -> Res<()> {
    fn go(g: &Group) -> Res<()> {
        for e in &g.entries {
            if e.parent != g.uuid {
                return Err(format!(
                    "entry {} in group {} has parent {}",
                    hex(e.uuid.0.as_bytes()),
                    hex(g.uuid.0.as_bytes()),
                    hex(e.parent.0.as_bytes())
                ));
            }
        }
        for s in &g.groups {
            if s.parent != g.uuid {
                return Err(format!(
                    "group {} in group {} has parent {}",
                    hex(s.uuid.0.as_bytes()),
                    hex(g.uuid.0.as_bytes()),
                    hex(s.parent.0.as_bytes())
                ));
            }
            go(s)?;
        }
        Ok(())
    }
    if db.root_group.parent != GroupUuid::nil() {
        return Err(format!("root group has parent {}", hex(db.root_group.parent.0.as_bytes())));
    }
    go(&db.root_group)
}

// ---------------------------------------------------------------------------
// The strict reader of the XML of a saved file.

/// A protected value found in the XML: plain bytes and key stream position.
pub struct XmlRead {
    pub value: Value,
    pub header_hash: Option<Vec<u8>>,
    pub generator: String,
    pub protected: Vec<(u64, usize)>,
}

struct Rd<'a> {
    salsa: &'a mut Salsa,
    protected: Vec<(u64, usize)>,
}

type Res<T> = std::result::Result<T, String>;

pub fn bytes_of(t: &str) -> Res<Vec<u8>> {
    if t.is_empty() {
        return Ok(vec![]);
    }
    base64::engine::general_purpose::STANDARD
        .decode(t)
        .map_err(|e| format!("base64 {:?}: {}", t.chars().take(40).collect::<String>(), e))
}
pub fn x_uuid(t: &str) -> Res<Value> {
    let b = bytes_of(t)?;
    if b.len() != 16 {
        return Err(format!("UUID of {} bytes", b.len()));
    }
    Ok(uu(&b))
}
pub fn x_bool(t: &str) -> Res<Value> {
    match t.to_ascii_lowercase().as_str() {
        "true" => Ok(json!(true)),
        "false" => Ok(json!(false)),
        _ => Err(format!("boolean {:?}", t)),
    }
}
/// A boolean attribute, of which other programs compare the letters as they are.
fn a_bool(t: &str) -> Res<bool> {
    match t {
        "True" => Ok(true),
        "False" => Ok(false),
        _ => Err(format!("boolean attribute {:?}", t)),
    }
}
pub fn x_optbool(t: &str) -> Res<Value> {
    if t.eq_ignore_ascii_case("null") {
        Ok(Value::Null)
    } else {
        x_bool(t)
    }
}
pub fn x_int(t: &str) -> Res<Value> {
    let n: i32 = t.parse().map_err(|_| format!("number {:?}", t))?;
    if n.to_string() != t {
        return Err(format!("number {:?}", t));
    }
    Ok(json!(n))
}
pub fn x_date(t: &str) -> Res<Value> {
    let d: DateTime<Utc> = t.parse().map_err(|_| format!("date {:?}", t))?;
    if !t.ends_with('Z') || !t.contains('T') {
        return Err(format!("date {:?} is not in UTC form", t));
    }
    Ok(dt(&d))
}
pub fn x_color(t: &str) -> Res<Value> {
    if t.is_empty() {
        return Ok(Value::Null);
    }
    if t.len() != 7 || !t.starts_with('#') || !t[1..].chars().all(|c| c.is_ascii_hexdigit()) {
        return Err(format!("color {:?}", t));
    }
    let b = unhex(&t[1..]);
    Ok(json!([b[0], b[1], b[2]]))
}
pub fn x_ci(t: &str) -> Res<Value> {
    if t.is_empty() {
        Ok(Value::Null)
    } else {
        x_uuid(t)
    }
}
pub fn x_text(t: &str) -> Res<Value> {
    Ok(js(t))
}
pub fn x_icon(t: &str) -> Res<Value> {
    let n = x_int(t)?;
    match n.as_i64() {
        Some(0..=68) => Ok(n),
        _ => Err(format!("icon {}", t)),
    }
}
pub fn x_obf(t: &str) -> Res<Value> {
    let n = x_int(t)?;
    match n.as_i64() {
        Some(0..=1) => Ok(n),
        _ => Err(format!("obfuscation {}", t)),
    }
}

type Conv = fn(&str) -> Res<Value>;

fn no_stray(n: &Node) -> Res<()> {
    for k in &n.kids {
        if let Item::T(t) = k {
            if !t.trim_matches(&[' ', '\t', '\r', '\n'][..]).is_empty() {
                return Err(format!("text inside {}: {:?}", n.name, t.chars().take(40).collect::<String>()));
            }
        }
    }
    Ok(())
}

fn plain_attrs(n: &Node) -> Res<()> {
    if n.attrs.is_empty() {
        Ok(())
    } else {
        Err(format!("attributes on {}", n.name))
    }
}

/// Reads the leaves of a container; each must occur exactly once.
fn leaves(n: &Node, table: &[(&str, &str, Conv)], others: &[&str], m: &mut Map<String, Value>) -> Res<()> {
    no_stray(n)?;
    for e in n.elems() {
        if let Some((_, key, conv)) = table.iter().find(|t| t.0 == e.name) {
            plain_attrs(e)?;
            let t = e.text()?;
            let v = conv(&t).map_err(|x| format!("{}/{}: {}", n.name, e.name, x))?;
            if m.insert(key.to_string(), v).is_some() {
                return Err(format!("{} twice in {}", e.name, n.name));
            }
        } else if !others.contains(&e.name.as_str()) {
            return Err(format!("unexpected element {} in {}", e.name, n.name));
        }
    }
    for (tag, key, _) in table {
        if !m.contains_key(*key) {
            return Err(format!("{} missing in {}", tag, n.name));
        }
    }
    Ok(())
}

fn one<'a>(n: &'a Node, tag: &str) -> Res<&'a Node> {
    let mut it = n.elems().filter(|e| e.name == tag);
    let r = it.next().ok_or(format!("{} missing in {}", tag, n.name))?;
    if it.next().is_some() {
        return Err(format!("{} twice in {}", tag, n.name));
    }
    Ok(r)
}

fn key_value<'a>(n: &'a Node) -> Res<(String, &'a Node)> {
    no_stray(n)?;
    if n.elems().count() != 2 {
        return Err(format!("{} with {} elements", n.name, n.elems().count()));
    }
    plain_attrs(n)?;
    let k = one(n, "Key")?;
    plain_attrs(k)?;
    Ok((k.text()?, one(n, "Value")?))
}

impl<'a> Rd<'a> {
    /// (protected, bytes) of a Value element that holds base64 or, if plain, text.
    fn protected(&mut self, v: &Node) -> Res<Option<Vec<u8>>> {
        match v.get_attr("Protected") {
            None => Ok(None),
            Some(p) => match a_bool(p)? {
                true => {
                    let b = bytes_of(&v.text()?)?;
                    let pos = self.salsa.count;
                    self.protected.push((pos, b.len()));
                    Ok(Some(self.salsa.apply(&b)))
                }
                false => Ok(None),
            },
        }
    }

    fn times(&mut self, n: &Node, m: &mut Map<String, Value>) -> Res<()> {
        let t = one(n, "Times")?;
        plain_attrs(t)?;
        let table: &[(&str, &str, Conv)] = &[
            ("CreationTime", "t_create", x_date),
            ("ExpiryTime", "t_expiry", x_date),
            ("LastAccessTime", "t_access", x_date),
            ("LastModificationTime", "t_mod", x_date),
            ("LocationChanged", "t_loc", x_date),
            ("Expires", "expires", x_bool),
            ("UsageCount", "usage", x_int),
        ];
        leaves(t, table, &[], m)
    }

    fn entry(&mut self, n: &Node, history: bool) -> Res<Value> {
        plain_attrs(n)?;
        let mut m = Map::new();
        let table: &[(&str, &str, Conv)] = &[
            ("UUID", "uuid", x_uuid),
            ("BackgroundColor", "bg", x_color),
            ("ForegroundColor", "fg", x_color),
            ("CustomIconUUID", "ci", x_ci),
            ("IconID", "icon", x_icon),
            ("OverrideURL", "url", x_text),
            ("Tags", "tags", x_text),
        ];
        let mut others = vec!["AutoType", "Times", "String", "Binary"];
        if !history {
            others.push("History");
        }
        leaves(n, table, &others, &mut m)?;
        self.times(n, &mut m)?;
        let at = one(n, "AutoType")?;
        let table: &[(&str, &str, Conv)] = &[
            ("DataTransferObfuscation", "at_obf", x_obf),
            ("DefaultSequence", "at_seq", x_text),
            ("Enabled", "at_enabled", x_bool),
        ];
        leaves(at, table, &["Association"], &mut m)?;
        let mut assoc = vec![];
        for a in at.elems().filter(|e| e.name == "Association") {
            let mut am = Map::new();
            leaves(a, &[("Window", "w", x_text), ("KeystrokeSequence", "k", x_text)], &[], &mut am)?;
            assoc.push(json!([am["w"], am["k"]]));
        }
        m.insert("assoc".into(), Value::Array(assoc));
        let mut bins = Map::new();
        let mut strings = Map::new();
        let mut hist = vec![];
        for e in n.elems() {
            match e.name.as_str() {
                "Binary" => {
                    let (k, v) = key_value(e)?;
                    for a in &v.attrs {
                        if a.0 != "Protected" && a.0 != "Ref" {
                            return Err(format!("attribute {} on Value", a.0));
                        }
                    }
                    let val = if let Some(r) = v.get_attr("Ref") {
                        if !v.text()?.is_empty() {
                            return Err("reference with content".into());
                        }
                        json!(["ref", jstr(r)])
                    } else if let Some(b) = self.protected(v)? {
                        json!(["protected", jb(&b)])
                    } else {
                        json!(["plain", jb(&bytes_of(&v.text()?)?)])
                    };
                    if bins.insert(jstr(&k), val).is_some() {
                        return Err(format!("binary {:?} twice", k));
                    }
                }
                "String" => {
                    let (k, v) = key_value(e)?;
                    for a in &v.attrs {
                        if a.0 != "Protected" {
                            return Err(format!("attribute {} on Value", a.0));
                        }
                    }
                    let val = if let Some(b) = self.protected(v)? {
                        let t = String::from_utf8(b).map_err(|_| format!("protected string {:?} is not UTF-8", k))?;
                        json!(["protected", jstr(&t)])
                    } else {
                        json!(["plain", jstr(&v.text()?)])
                    };
                    let key = match k.as_str() {
                        "Notes" | "Password" | "Title" | "URL" | "UserName" => format!("!{}", k),
                        _ => jstr(&k),
                    };
                    if strings.insert(key, val).is_some() {
                        return Err(format!("string {:?} twice", k));
                    }
                }
                "History" => {
                    plain_attrs(e)?;
                    no_stray(e)?;
                    for h in e.elems() {
                        if h.name != "Entry" {
                            return Err(format!("{} in History", h.name));
                        }
                        hist.push(self.entry(h, true)?);
                    }
                }
                _ => {}
            }
        }
        if !history {
            one(n, "History")?;
        }
        m.insert("bins".into(), Value::Object(bins));
        m.insert("strings".into(), Value::Object(strings));
        m.insert("history".into(), Value::Array(hist));
        Ok(Value::Object(m))
    }

    fn group(&mut self, n: &Node) -> Res<Value> {
        plain_attrs(n)?;
        let mut m = Map::new();
        let table: &[(&str, &str, Conv)] = &[
            ("UUID", "uuid", x_uuid),
            ("CustomIconUUID", "ci", x_ci),
            ("DefaultAutoTypeSequence", "at_seq", x_text),
            ("EnableAutoType", "en_at", x_optbool),
            ("EnableSearching", "en_search", x_optbool),
            ("IconID", "icon", x_icon),
            ("IsExpanded", "expanded", x_bool),
            ("LastTopVisibleEntry", "ltve", x_uuid),
            ("Name", "name", x_text),
            ("Notes", "notes", x_text),
        ];
        leaves(n, table, &["Times", "Entry", "Group"], &mut m)?;
        self.times(n, &mut m)?;
        let mut es = vec![];
        let mut gs = vec![];
        for e in n.elems() {
            match e.name.as_str() {
                "Entry" => es.push(self.entry(e, false)?),
                "Group" => gs.push(self.group(e)?),
                _ => {}
            }
        }
        m.insert("entries".into(), Value::Array(es));
        m.insert("groups".into(), Value::Array(gs));
        Ok(Value::Object(m))
    }
}

/// Reads the XML of a saved file. The result has the form of `normal(database(..))`
/// without the header part.
pub fn read_xml(xml: &[u8], psk: &[u8]) -> Res<XmlRead> {
    let doc = parse(xml)?;
    let mut salsa = Salsa::new(psk);
    let mut rd = Rd {
        salsa: &mut salsa,
        protected: vec![],
    };
    if doc.name != "KeePassFile" {
        return Err(format!("root element {}", doc.name));
    }
    no_stray(&doc)?;
    for e in doc.elems() {
        if e.name != "Meta" && e.name != "Root" {
            return Err(format!("unexpected element {}", e.name));
        }
    }
    let meta = one(&doc, "Meta")?;
    let mut m = Map::new();
    let table: &[(&str, &str, Conv)] = &[
        ("Color", "color", x_color),
        ("DatabaseDescription", "desc", x_text),
        ("DatabaseDescriptionChanged", "t_desc", x_date),
        ("DatabaseName", "name", x_text),
        ("DatabaseNameChanged", "t_name", x_date),
        ("DefaultUserName", "def_user", x_text),
        ("DefaultUserNameChanged", "t_def_user", x_date),
        ("EntryTemplatesGroup", "etg", x_uuid),
        ("EntryTemplatesGroupChanged", "t_etg", x_date),
        ("Generator", "generator", x_text),
        ("HeaderHash", "hh", |t| Ok(json!(hex(&bytes_of(t)?)))),
        ("HistoryMaxItems", "hist_items", x_int),
        ("HistoryMaxSize", "hist_size", x_int),
        ("LastSelectedGroup", "lsg", x_uuid),
        ("LastTopVisibleGroup", "ltvg", x_uuid),
        ("MaintenanceHistoryDays", "maint_days", x_int),
        ("MasterKeyChangeForce", "mk_force", x_int),
        ("MasterKeyChangeRec", "mk_rec", x_int),
        ("MasterKeyChanged", "t_mk", x_date),
        ("RecycleBinChanged", "t_rb", x_date),
        ("RecycleBinEnabled", "rb_enabled", x_bool),
        ("RecycleBinUUID", "rb", x_uuid),
    ];
    leaves(meta, table, &["Binaries", "CustomData", "CustomIcons", "MemoryProtection"], &mut m)?;
    let table: &[(&str, &str, Conv)] = &[
        ("ProtectNotes", "p_notes", x_bool),
        ("ProtectPassword", "p_password", x_bool),
        ("ProtectTitle", "p_title", x_bool),
        ("ProtectURL", "p_url", x_bool),
        ("ProtectUserName", "p_username", x_bool),
    ];
    leaves(one(meta, "MemoryProtection")?, table, &[], &mut m)?;
    let mut pool = Map::new();
    let b = one(meta, "Binaries")?;
    no_stray(b)?;
    for e in b.elems() {
        if e.name != "Binary" {
            return Err(format!("{} in Binaries", e.name));
        }
        let id = e.get_attr("ID").ok_or("binary without ID")?;
        let raw = bytes_of(&e.text()?)?;
        let compressed = match e.get_attr("Compressed") {
            Some(c) => a_bool(c)?,
            None => false,
        };
        let data = if compressed {
            crate::codec::ungz(&raw).map_err(|x| format!("binary {:?}: {}", id, x))?
        } else {
            raw
        };
        if pool.insert(jstr(id), jb(&data)).is_some() {
            return Err(format!("binary {:?} twice", id));
        }
    }
    m.insert("binaries".into(), Value::Object(pool));
    let mut cd = Map::new();
    let c = one(meta, "CustomData")?;
    no_stray(c)?;
    for e in c.elems() {
        if e.name != "Item" {
            return Err(format!("{} in CustomData", e.name));
        }
        let (k, v) = key_value(e)?;
        plain_attrs(v)?;
        if cd.insert(jstr(&k), js(&v.text()?)).is_some() {
            return Err(format!("custom data {:?} twice", k));
        }
    }
    m.insert("custom_data".into(), Value::Object(cd));
    let mut icons = Map::new();
    let c = one(meta, "CustomIcons")?;
    no_stray(c)?;
    for e in c.elems() {
        if e.name != "Icon" {
            return Err(format!("{} in CustomIcons", e.name));
        }
        let mut im = Map::new();
        leaves(
            e,
            &[("UUID", "u", x_uuid), ("Data", "d", |t| Ok(jb(&bytes_of(t)?)))],
            &[],
            &mut im,
        )?;
        let u = im["u"].as_str().unwrap()[2..].to_string();
        if icons.insert(u, im["d"].clone()).is_some() {
            return Err("custom icon twice".into());
        }
    }
    m.insert("custom_icons".into(), Value::Object(icons));
    let root = one(&doc, "Root")?;
    no_stray(root)?;
    for e in root.elems() {
        if e.name != "Group" {
            return Err(format!("{} in Root", e.name));
        }
    }
    let g = rd.group(one(root, "Group")?)?;
    m.insert("root".into(), g);
    let hh = m.remove("hh").map(|v| unhex(v.as_str().unwrap()));
    let generator = m.remove("generator").unwrap().as_str().unwrap()[2..].to_string();
    let protected = rd.protected;
    Ok(XmlRead {
        value: Value::Object(m),
        header_hash: hh,
        generator,
        protected,
    })
}

/// The whole strict reading of a saved file, as a projection.
pub fn strict(file: &[u8], composite: &[u8; 32]) -> Res<(Value, crate::codec::Decoded, XmlRead)> {
    let d = crate::codec::decode(file, composite)?;
    let x = read_xml(&d.xml, &d.params.psk)?;
    match &x.header_hash {
        Some(h) if h.as_slice() == &sha(&d.header)[..] => {}
        _ => return Err("header hash".into()),
    }
    let mut v = x.value.clone();
    let o = v.as_object_mut().unwrap();
    o.insert(
        "comment".into(),
        match &d.params.comment {
            Some(c) => jb(c),
            None => Value::Null,
        },
    );
    o.insert("compression".into(), json!(if d.params.gzip { "gzip" } else { "none" }));
    o.insert("rounds".into(), json!(d.params.rounds));
    o.insert("version".into(), json!([d.version.0, d.version.1]));
    o.insert("type".into(), json!(2));
    o.insert("cipher".into(), json!("aes"));
    o.insert("stream".into(), json!("salsa20"));
    Ok((v, d, x))
}
