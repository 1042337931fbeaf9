//! Secrets.tla: what can be seen of the values of a database.
use crate::m_fields::{open, save};
use crate::slots::{entry_at, group_at};
use crate::util::*;
use crate::values::word;
use crate::xmlm::{self, Item, Node};
use crate::{codec, slots, Ctx, Out};
use kpdb::*;
use secstr::SecStr;
use serde_json::Value;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;

/// Windows of the forms in which a value could be seen.
#[derive(Default)]
struct Needles {
    raw: HashSet<[u8; 10]>,
    b64: HashSet<[u8; 12]>,
    hex: HashSet<[u8; 16]>,
    list: HashSet<[u8; 32]>,
    marks: Vec<u64>,
}

/// Which values the first three bytes of the windows have, in 24 bits.
fn mark(w: &[u8]) -> usize {
    (w[0] as usize) << 12 ^ (w[1] as usize) << 6 ^ w[2] as usize
}

fn ends(v: &[u8]) -> Vec<&[u8]> {
    if v.len() <= 160 {
        vec![v]
    } else {
        vec![&v[..64], &v[v.len() - 64..]]
    }
}

impl Needles {
    fn mark(&mut self, w: &[u8]) {
        self.marks.resize(1 << 14, 0);
        let m = mark(w);
        self.marks[m >> 6] |= 1 << (m & 63);
    }
    fn marked(&self, w: &[u8]) -> bool {
        let m = mark(w);
        !self.marks.is_empty() && self.marks[m >> 6] >> (m & 63) & 1 == 1
    }
    fn add(&mut self, v: &[u8]) {
        if v.is_empty() {
            return;
        }
        for part in ends(v) {
            for w in part.windows(10) {
                {
                    self.mark(w);
                    self.raw.insert(w.try_into().unwrap());
                }
            }
            for shift in 0..3 {
                if part.len() > shift {
                    for w in b64(&part[shift..]).trim_end_matches('=').as_bytes().windows(12) {
                        {
                    self.mark(w);
                    self.b64.insert(w.try_into().unwrap());
                }
                    }
                }
            }
            let h = hex(part);
            for w in h.as_bytes().windows(16).chain(h.to_uppercase().as_bytes().windows(16)) {
                {
                    self.mark(w);
                    self.hex.insert(w.try_into().unwrap());
                }
            }
            let list = |sep: &str, f: &dyn Fn(u8) -> String| part.iter().map(|b| f(*b)).collect::<Vec<_>>().join(sep);
            for t in [list(",", &|b| b.to_string()), list(",", &|b| format!("0x{:x}", b)), list(",", &|b| format!("{:x}", b)), list(" ", &|b| b.to_string())] {
                for w in t.as_bytes().windows(32) {
                    {
                    self.mark(w);
                    self.list.insert(w.try_into().unwrap());
                }
                }
            }
        }
    }
    fn text(&mut self, t: &str) {
        self.add(t.as_bytes());
        for part in ends(t.as_bytes()) {
            let Ok(p) = std::str::from_utf8(part) else { continue };
            for form in [xmlm::esc(p), xmlm::esc_attr(p), format!("{:?}", p)] {
                for w in form.as_bytes().windows(10) {
                    {
                    self.mark(w);
                    self.raw.insert(w.try_into().unwrap());
                }
                }
            }
            for u in [p.encode_utf16().flat_map(|c| c.to_le_bytes()).collect::<Vec<u8>>(), p.encode_utf16().flat_map(|c| c.to_be_bytes()).collect()] {
                for w in u.windows(10) {
                    {
                    self.mark(w);
                    self.raw.insert(w.try_into().unwrap());
                }
                }
            }
        }
    }
    fn find(&self, hay: &[u8]) -> Option<String> {
        fn show(w: &[u8]) -> Option<String> {
            Some(String::from_utf8_lossy(w).into_owned())
        }
        for h in hay.windows(10).enumerate().filter(|(_, w)| self.marked(w)).map(|(i, _)| &hay[i..]) {
            if self.raw.contains::<[u8; 10]>(h[..10].try_into().unwrap()) {
                return show(&h[..10]);
            }
            if h.len() >= 12 && self.b64.contains::<[u8; 12]>(h[..12].try_into().unwrap()) {
                return show(&h[..12]);
            }
            if h.len() >= 16 && self.hex.contains::<[u8; 16]>(h[..16].try_into().unwrap()) {
                return show(&h[..16]);
            }
            if h.len() >= 32 && self.list.contains::<[u8; 32]>(h[..32].try_into().unwrap()) {
                return show(&h[..32]);
            }
        }
        None
    }
    /// Also in text without its white space.
    fn find_text(&self, t: &str) -> Option<String> {
        self.find(t.as_bytes()).or_else(|| self.find(t.split_whitespace().collect::<String>().as_bytes()))
    }
}

#[derive(Clone)]
enum Val {
    Text(String),
    Bytes(Vec<u8>),
    Key(Option<String>, Option<Vec<u8>>),
}

const LETTERS: [(u32, u32); 5] = [(0x391, 0x3a1), (0x410, 0x44f), (0x4e00, 0x9fff), (0x1f300, 0x1f5ff), (0xe0, 0xf6)];

fn value(class: &str, r: &mut Rng) -> Val {
    match class {
        "ascii" => {
            let n = r.range(12, 40);
            Val::Text(word(r, n))
        }
        "long" => {
            let n = r.range(1000, 4000);
            Val::Text(word(r, n))
        }
        "letters" => Val::Text(
            (0..r.range(8, 20))
                .map(|_| {
                    let (a, b) = *r.pick(&LETTERS);
                    char::from_u32(a + r.below((b - a + 1) as usize) as u32).unwrap()
                })
                .collect(),
        ),
        "markup" => {
            let mut s = String::new();
            for _ in 0..r.range(4, 10) {
                let n = r.range(3, 12);
                s.push_str(&word(r, n));
                s.push(*r.pick(&['<', '>', '&', '"', '\'', '\\', '\n', '\t', ' ', ']']));
            }
            s.push_str(&word(r, 3));
            Val::Text(s)
        }
        "bytes" => {
            let n = r.range(16, 60);
            Val::Bytes(r.bytes(n))
        }
        "long bytes" => {
            let n = r.range(600, 3000);
            Val::Bytes(r.bytes(n))
        }
        "password" => Val::Key(Some(word(r, 16)), None),
        "long password" => Val::Key(Some(word(r, 120)), None),
        "file" => Val::Key(None, Some(r.bytes(32))),
        "both" => Val::Key(Some(word(r, 16)), Some(r.bytes(32))),
        _ => panic!("class {}", class),
    }
}

/// Another value of the same length.
fn other(v: &[u8], r: &mut Rng) -> Vec<u8> {
    match std::str::from_utf8(v) {
        Ok(t) => t
            .chars()
            .map(|c| {
                let pool: Vec<char> = match c.len_utf8() {
                    1 => word(r, 1).chars().collect(),
                    2 => vec!['é', 'Ж', 'α', 'ñ'],
                    3 => vec!['中', '文', '字', '語'],
                    _ => vec!['🌍', '🌒', '🌞', '🌩'],
                };
                *r.pick(&pool)
            })
            .collect::<String>()
            .into_bytes(),
        Err(_) => r.bytes(v.len()),
    }
}

fn change_entry(e: &mut Entry, r: &mut Rng) {
    for v in e.strings.values_mut() {
        if let StringValue::Protected(s) = v {
            let t = other(s.unsecure(), r);
            *v = StringValue::Protected(SecStr::from(t));
        }
    }
    for v in e.binaries.values_mut() {
        if let BinaryValue::Protected(s) = v {
            let t = other(s.unsecure(), r);
            *v = BinaryValue::Protected(SecStr::from(t));
        }
    }
    for h in e.history.iter_mut() {
        change_entry(h, r);
    }
}

fn change_group(g: &mut Group, r: &mut Rng) {
    g.entries.iter_mut().for_each(|e| change_entry(e, r));
    g.groups.iter_mut().for_each(|s| change_group(s, r));
}

fn forms<T: Debug>(x: &T) -> [String; 4] {
    [format!("{:?}", x), format!("{:#?}", x), format!("{:x?}", x), format!("{:X?}", x)]
}

/// The debug output of a and b is the same, up to the order.
fn same<T: Debug>(what: &str, a: &T, b: &T, hidden: &Needles) -> Out {
    for (x, y) in forms(a).iter().zip(&forms(b)) {
        if let Some(w) = hidden.find_text(x) {
            return Err(format!("the debug output of {} has {:?}", what, w));
        }
        if x != y {
            let sorted = |s: &String| {
                let mut v = s.clone().into_bytes();
                v.sort();
                v
            };
            if sorted(x) != sorted(y) {
                let i = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
                let lo = (0..=i.saturating_sub(20)).rev().find(|k| x.is_char_boundary(*k)).unwrap_or(0);
                return Err(format!("the debug output of {} changes with a secret: {:?}", what, x[lo..].chars().take(60).collect::<String>()));
            }
        }
    }
    Ok(())
}

fn kstring(k: &str) -> StringKey {
    match k {
        "title" => StringKey::Title,
        "username" => StringKey::Username,
        "password" => StringKey::Password,
        "url" => StringKey::Url,
        "notes" => StringKey::Notes,
        k => StringKey::Other(k.into()),
    }
}

fn site(p: &str) -> &str {
    match p {
        "root" => "entry0",
        "sub" => "entry",
        "sub2" => "entry2",
        "deep" => "entry3",
        p => p,
    }
}

struct World {
    db: Database,
    vals: BTreeMap<u64, Val>,
    key: u64,
}

fn composite(p: &Option<String>, k: &Option<Vec<u8>>) -> CompositeKey {
    let kf = |k: &Vec<u8>| KeyFile {
        key: SecStr::from(k.clone()),
        file_type: KeyFileType::Binary,
    };
    match (p, k) {
        (Some(p), None) => CompositeKey::from_password(p.clone()),
        (None, Some(k)) => CompositeKey::from_key_file(kf(k)),
        (Some(p), Some(k)) => CompositeKey::from_both(p.clone(), kf(k)),
        _ => panic!(),
    }
}

impl World {
    fn key_parts(&self) -> (Option<String>, Option<Vec<u8>>) {
        match &self.vals[&self.key] {
            Val::Key(p, k) => (p.clone(), k.clone()),
            _ => panic!(),
        }
    }

    fn put(&mut self, place: &str, field: &str, state: &str, v: u64) {
        let e = entry_at(&mut self.db, site(place));
        let prot = state == "protected";
        match (&self.vals[&v], field.starts_with("bin")) {
            (Val::Text(t), false) => {
                let x = if prot { StringValue::Protected(SecStr::from(t.clone())) } else { StringValue::Plain(t.clone()) };
                e.strings.insert(kstring(field), x);
            }
            (Val::Bytes(b), true) => {
                let x = if prot { BinaryValue::Protected(SecStr::from(b.clone())) } else { BinaryValue::Plain(b.clone()) };
                e.binaries.insert(BinaryKey(field.into()), x);
            }
            _ => panic!("{} {}", place, field),
        }
    }

    fn public(&mut self, place: &str, field: &str, v: u64, old: Option<u64>, r: &mut Rng) {
        let text = |v: &Val| match v {
            Val::Text(t) => t.clone(),
            _ => String::new(),
        };
        let bytes = |v: &Val| match v {
            Val::Bytes(b) => b.clone(),
            _ => vec![],
        };
        let val = self.vals[&v].clone();
        let (t, b) = (text(&val), bytes(&val));
        let was = old.map(|o| text(&self.vals[&o])).unwrap_or_default();
        let db = &mut self.db;
        match (place, field) {
            ("meta", "name") => db.name = t,
            ("meta", "description") => db.description = t,
            ("meta", "username") => db.def_username = t,
            ("meta", "data key") => {
                db.custom_data.remove(&was);
                db.custom_data.insert(t, "value".into());
            }
            ("meta", "data value") => {
                db.custom_data.insert("key".into(), t);
            }
            ("meta", "pool") => {
                db.binaries.insert(BinaryId("0".into()), b);
            }
            ("meta", "icon") => {
                db.custom_icons.clear();
                db.custom_icons.insert(CustomIconUuid(uuid::Uuid::from_bytes(r.arr16())), b);
            }
            ("root group", _) | ("sub group", _) | ("deep group", _) => {
                let g = group_at(db, place.trim_end_matches(" group"));
                match field {
                    "name" => g.name = t,
                    "notes" => g.notes = t,
                    _ => g.def_auto_type_sequence = t,
                }
            }
            _ => {
                let e = entry_at(db, site(place));
                match field {
                    "tags" => e.tags = t,
                    "override" => e.override_url = t,
                    "sequence" => e.auto_type_def_sequence = t,
                    "window" => {
                        e.associations = vec![Association { window: t, keystroke_sequence: "keys".into() }];
                    }
                    "key" => {
                        e.strings.remove(&StringKey::Other(was));
                        e.strings.insert(StringKey::Other(t), StringValue::Plain("x".into()));
                    }
                    _ => {
                        e.binaries.remove(&BinaryKey(was));
                        e.binaries.insert(BinaryKey(t), BinaryValue::Plain(vec![1]));
                    }
                }
            }
        }
    }

    fn observe(&self, shown: &[u64], covered: &[u64], broken: &[&str], ctx: &mut Ctx) -> Out {
        let (mut all, mut hidden) = (Needles::default(), Needles::default());
        let mut plain: Vec<Vec<u8>> = vec![];
        for (n, v) in &self.vals {
            let is_shown = shown.contains(n);
            match v {
                Val::Text(t) => {
                    all.text(t);
                    if !is_shown {
                        hidden.text(t);
                    } else {
                        plain.push(t.as_bytes().to_vec());
                    }
                }
                Val::Bytes(b) => {
                    all.add(b);
                    if !is_shown {
                        hidden.add(b);
                    } else {
                        plain.push(b.clone());
                    }
                }
                Val::Key(p, k) => {
                    for x in [&mut all, &mut hidden] {
                        if let Some(p) = p {
                            x.text(p);
                            x.add(&sha(p.as_bytes()));
                        }
                        if let Some(k) = k {
                            x.add(k);
                        }
                        x.add(&codec::composite(p.as_deref(), k.as_deref()));
                    }
                }
            }
        }
        // debug output, and that of the same values with other secrets
        let r = &mut ctx.rng;
        let db = &self.db;
        let mut twin = db.clone();
        change_group(&mut twin.root_group, r);
        let (p, k) = self.key_parts();
        let p2 = p.as_ref().map(|p| word(r, p.len()));
        let k2 = k.as_ref().map(|k| r.bytes(k.len()));
        twin.composite_key = composite(&p2, &k2);
        same("the database", db, &twin, &hidden)?;
        same("the key", &db.composite_key, &twin.composite_key, &hidden)?;
        same("a result", &Ok::<_, Error>(db.composite_key.clone()), &Ok(twin.composite_key.clone()), &hidden)?;
        same("what was built from parts", &composite(&p, &k), &composite(&p2, &k2), &hidden)?;
        if let (Some(k), Some(k2)) = (&k, &k2) {
            for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
                let kf = |k: &Vec<u8>| KeyFile { key: SecStr::from(k.clone()), file_type: t.clone() };
                same("the key file", &kf(k), &kf(k2), &hidden)?;
                same("an option", &Some(kf(k)), &Some(kf(k2)), &hidden)?;
            }
        }
        for (g, h) in db.root_group.iter().zip(twin.root_group.iter()) {
            same("a group", g, h, &hidden)?;
            for (e, f) in g.entries.iter().zip(&h.entries) {
                same("an entry", e, f, &hidden)?;
                same("the strings", &e.strings, &f.strings, &hidden)?;
                same("the binaries", &e.binaries, &f.binaries, &hidden)?;
                for (k, v) in &e.strings {
                    same("a string", v, &f.strings[k], &hidden)?;
                }
                for (k, v) in &e.binaries {
                    same("a binary", v, &f.binaries[k], &hidden)?;
                }
            }
        }
        // the file
        let file = save(db).map_err(|e| format!("save failed: {}", e))?;
        let comp = codec::composite(p.as_deref(), k.as_deref());
        let d = codec::decode(&file, &comp)?;
        let mut outside = all;
        outside.add(&d.params.key());
        outside.add(&codec::transform(&comp, &d.params.transform_seed, d.params.rounds));
        for w in ["<?xml version", "<KeePassFile>", "<Generator>", "<Protected", "<UUID>"] {
            outside.text(w);
        }
        let mut places = vec![file.clone()];
        for i in 0..file.len().saturating_sub(18) {
            if file[i..i + 3] == [0x1f, 0x8b, 8] {
                places.extend(codec::ungz(&file[i..]).ok());
            }
        }
        for x in &places {
            if let Some(w) = outside.find(x) {
                return Err(format!("the file has {:?} in clear", w));
            }
        }
        // the XML
        if let Some(w) = hidden.find(&d.xml) {
            return Err(format!("the XML has {:?}", w));
        }
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        fn walk(n: &Node, hidden: &Needles, seen: &mut HashSet<Vec<u8>>) -> Out {
            let mut texts: Vec<String> = n.attrs.iter().map(|a| a.1.clone()).collect();
            let mut t = String::new();
            for k in &n.kids {
                match k {
                    Item::T(x) => t.push_str(x),
                    Item::E(n) => walk(n, hidden, seen)?,
                    _ => {}
                }
            }
            texts.push(t);
            for t in texts {
                let mut forms = vec![t.clone().into_bytes()];
                if let Some(b) = unb64(t.trim()) {
                    forms.extend(codec::ungz(&b).ok());
                    forms.push(b);
                }
                for f in forms {
                    if let Some(w) = hidden.find(&f) {
                        return Err(format!("<{}> in the XML has {:?}", n.name, w));
                    }
                    seen.insert(f);
                }
            }
            Ok(())
        }
        walk(&xmlm::parse(&d.xml)?, &hidden, &mut seen)?;
        // plain values are where they can be seen, or the search is no good
        if let Some(x) = plain.iter().find(|x| !seen.contains(*x)) {
            return Err(format!("the plain value {:?} is not in the XML", String::from_utf8_lossy(x)));
        }
        // another key
        if p2 != p || k2 != k {
            match open(&file, &twin.composite_key) {
                Ok(_) => return Err("the file opens with another key".into()),
                Err(e) => {
                    let t = format!("{:?} {}", e, e);
                    if let Some(w) = outside.find_text(&t) {
                        return Err(format!("the error has {:?}", w));
                    }
                }
            }
        }
        // broken files
        for what in broken {
            for (how, f) in break_file(what, &d, &file, &mut ctx.rng)? {
                let r = if *what == "failing reader" {
                    Database::open(&mut Failing(&f), &composite(&p, &k)).map(|_| ())
                } else if *what == "failing writer" {
                    db.save(&mut Short(f.len()))
                } else {
                    open(&f, &composite(&p, &k)).map(|_| ())
                };
                match r {
                    Ok(_) => ctx.add("broken files that open", 1),
                    Err(e) => {
                        ctx.add("errors", 1);
                        let mut t = forms(&e).join(" ");
                        t.push_str(&e.to_string());
                        let mut s: Option<&dyn std::error::Error> = Some(&e);
                        while let Some(x) = s {
                            t.push_str(&format!(" {:?} {}", x, x));
                            s = x.source();
                        }
                        if let Some(w) = hidden.find_text(&t) {
                            return Err(format!("the error of a broken file ({}, {}) has {:?}", what, how, w));
                        }
                    }
                }
            }
        }
        ctx.add("observations", 1);
        ctx.add("values hidden", covered.len() as u64);
        Ok(())
    }
}

/// Gives all of the bytes, then an error.
struct Failing<'a>(&'a [u8]);
impl std::io::Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(buf.len());
        if n == 0 && !buf.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "the device is gone"));
        }
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// Takes that many bytes, then no more.
struct Short(usize);
impl std::io::Write for Short {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "the device is full"));
        }
        let n = self.0.min(buf.len());
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Takes the key stream off the protected values.
fn unseal(n: &mut Node, s: &mut codec::Salsa) -> Out {
    if n.get_attr("Protected") == Some("True") {
        let c = unb64(&n.text()?).ok_or("a protected value is not base64")?;
        n.kids = if c.is_empty() { vec![] } else { vec![Item::P(s.apply(&c))] };
        return Ok(());
    }
    for k in n.kids.iter_mut() {
        if let Item::E(e) = k {
            unseal(e, s)?;
        }
    }
    Ok(())
}

/// Every element, in document order.
fn visit(n: &mut Node, f: &mut dyn FnMut(&mut Node)) {
    f(n);
    for k in n.kids.iter_mut() {
        if let Item::E(e) = k {
            visit(e, f);
        }
    }
}

/// Files that do not open, or no longer as they did.
fn break_file(what: &str, d: &codec::Decoded, file: &[u8], r: &mut Rng) -> std::result::Result<Vec<(String, Vec<u8>)>, String> {
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    let mut tree = xmlm::parse(&d.xml)?;
    unseal(&mut tree, &mut codec::Salsa::new(&d.params.psk))?;
    let has = |n: &Node| n.kids.iter().any(|k| matches!(k, Item::P(_)));
    let mut protected = 0;
    visit(&mut tree, &mut |n| protected += has(n) as usize);
    let locked = |mut t: Node| {
        xmlm::seal(&mut t, &mut codec::Salsa::new(&d.params.psk));
        xmlm::document(&t, None)
    };
    let pack = |xml: &[u8]| d.params.file(&d.header, xml, 1 << 20);
    let again = |payload: Vec<u8>| [d.header.clone(), d.params.encrypt_payload(&payload)].concat();
    // the k-th protected value, changed
    let at = |k: usize, f: &mut dyn FnMut(&mut Node)| {
        let mut t = tree.clone();
        let mut i = 0;
        visit(&mut t, &mut |n| {
            if has(n) {
                if i == k {
                    f(n);
                }
                i += 1;
            }
        });
        t
    };
    // in the element of that name, of which there may be many
    let mut named = |name: &str, text: &str, r: &mut Rng| {
        let mut all = 0;
        let mut t = tree.clone();
        visit(&mut t, &mut |n| all += (n.name == name) as usize);
        let k = r.below(all.max(1));
        let mut i = 0;
        visit(&mut t, &mut |n| {
            if n.name == name {
                if i == k {
                    n.kids = vec![Item::T(text.into())];
                }
                i += 1;
            }
        });
        out.push((name.into(), pack(&locked(t))));
    };
    match what {
        "no identifier" => named("UUID", "AAAA", r),
        "no number" => named("IconID", "12x", r),
        "no date" => named("CreationTime", "yesterday", r),
        "no boolean" => named("Expires", "perhaps", r),
        "header hash" => named("HeaderHash", &b64(&[7; 32]), r),
        _ => {}
    }
    let some: Vec<usize> = if protected == 0 { vec![] } else { (0..protected.min(3)).map(|_| r.below(protected)).collect() };
    for k in some {
        let which = |s: &str| format!("{} {}", s, k);
        match what {
            "no text" => {
                for (s, b) in [("start", 0xffu8), ("middle", 0xc0), ("end", 0xe2), ("after", 0x80)] {
                    let t = at(k, &mut |n| {
                        if let Item::P(v) = &mut n.kids[0] {
                            let i = match s {
                                "start" => 0,
                                "middle" => v.len() / 2,
                                "end" => v.len() - 1,
                                _ => v.len(),
                            };
                            if i == v.len() {
                                v.push(b)
                            } else {
                                v[i] = b
                            }
                        }
                    });
                    out.push((which(s), pack(&locked(t))));
                }
            }
            "no base64" | "nested" | "unknown" | "no key" => {
                let t = at(k, &mut |n| match what {
                    "no base64" => n.kids.push(Item::T("?".into())),
                    "nested" => n.kids.push(Item::E(Node::leaf("Value", "x"))),
                    "unknown" => {
                        n.name = "Unknown".into();
                        n.kids.push(Item::T("?".into()))
                    }
                    _ => n.name = "NoValue".into(),
                });
                out.push((which(what), pack(&locked(t))));
            }
            "no attribute" => {
                for v in ["perhaps", "", "False"] {
                    let t = at(k, &mut |n| n.attrs = vec![("Protected".into(), v.into())]);
                    out.push((which(v), pack(&locked(t))));
                }
            }
            "no compressed data" => {
                let t = at(k, &mut |n| {
                    n.attrs = vec![("Compressed".into(), "True".into())];
                });
                out.push((which(what), pack(&locked(t))));
            }
            "cut" | "end tag" | "entity" => {
                let t = at(k, &mut |n| n.attrs.push(("Here".into(), "".into())));
                let x = String::from_utf8(locked(t)).map_err(|e| e.to_string())?;
                let i = x.find(" Here=").ok_or("lost")?;
                let j = i + x[i..].find("</").ok_or("lost")?;
                let y = match what {
                    "cut" => x[..*r.pick(&[j - 2, j, j + 4, j + 8])].to_string(),
                    "end tag" => format!("{}</Else>{}", &x[..j], &x[j..]),
                    _ => format!("{}&nothing;{}", &x[..j], &x[j..]),
                };
                out.push((which(what), pack(y.as_bytes())));
            }
            _ => {}
        }
    }
    let n = d.payload.len();
    match what {
        "no document" => {
            out.push((what.into(), pack(b"")));
            out.push((what.into(), pack(b"no document at all")));
        }
        "two roots" => out.push((what.into(), pack(&[&d.xml[..], b"<KeePassFile />"].concat()))),
        "block hash" | "block number" | "start bytes" | "last bytes" => {
            let mut b = d.payload.clone();
            let i = match what {
                "block hash" => 32 + 4 + r.below(32),
                "block number" => 32 + r.below(4),
                "start bytes" => r.below(32),
                _ => n - 1 - r.below(30),
            };
            b[i] ^= 1 << r.below(8);
            out.push((what.into(), again(b)));
        }
        "half" => {
            out.push((what.into(), again(d.payload[..n / 2].to_vec())));
            out.push((what.into(), file[..file.len() / 2].to_vec()));
            out.push((what.into(), file[..file.len() - 16].to_vec()));
        }
        "failing reader" => out.push((what.into(), file.to_vec())),
        "failing writer" => out.push((what.into(), vec![0; r.below(file.len() / 2)])),
        _ => {}
    }
    Ok(out)
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let hist = case["hist"].as_array().unwrap();
    let mut w = World {
        db: slots::base("plain", &mut ctx.rng),
        vals: BTreeMap::new(),
        key: 0,
    };
    w.vals.insert(0, Val::Key(Some(word(&mut ctx.rng, 16)), None));
    let (p, k) = w.key_parts();
    w.db.composite_key = composite(&p, &k);
    let mut pubs: BTreeMap<(String, String), u64> = BTreeMap::new();
    for (i, o) in hist.iter().enumerate() {
        let s = |k: usize| o["slot"][k].as_str().unwrap();
        let (op, v) = (o["op"].as_str().unwrap(), o["v"].as_u64().unwrap());
        let at = |e: String| format!("step {} ({}): {}", i + 1, op, e);
        match op {
            "put" | "public" | "key" => {
                let x = value(o["class"].as_str().unwrap(), &mut ctx.rng);
                w.vals.insert(v, x);
            }
            _ => {}
        }
        match op {
            "put" | "turn" => w.put(s(0), s(1), o["state"].as_str().unwrap(), v),
            "public" => {
                let old = pubs.insert((s(0).into(), s(1).into()), v);
                w.public(s(0), s(1), v, old, &mut ctx.rng);
            }
            "drop" => {
                let e = entry_at(&mut w.db, site(s(0)));
                e.strings.remove(&kstring(s(1)));
                e.binaries.remove(&BinaryKey(s(1).into()));
            }
            "keep" => {
                let e = entry_at(&mut w.db, "entry");
                let mut h = e.clone();
                h.history.clear();
                e.history = vec![h];
                let kept: Vec<_> = pubs.iter().filter(|x| x.0 .0 == "sub").map(|x| (x.0 .1.clone(), *x.1)).collect();
                pubs.retain(|k, _| k.0 != "hist");
                for (f, v) in kept {
                    pubs.insert(("hist".into(), f), v);
                }
            }
            "key" => {
                w.key = v;
                let (p, k) = w.key_parts();
                w.db.composite_key = composite(&p, &k);
            }
            "reopen" => {
                let f = save(&w.db).map_err(|e| at(e.to_string()))?;
                let (p, k) = w.key_parts();
                w.db = open(&f, &composite(&p, &k)).map_err(|e| at(e.to_string()))?;
            }
            "clone" => w.db = w.db.clone(),
            "gzip" => {}
            _ => panic!("operation {}", op),
        }
        w.db.compression = if o["gzip"].as_bool().unwrap() { Compression::GZip } else { Compression::None };
        let set = |k: &str| o[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>();
        let broken: Vec<&str> = o["broken"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        w.observe(&set("shown"), &set("covered"), &broken, ctx).map_err(at)?;
    }
    Ok(())
}
