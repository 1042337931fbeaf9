//! Vault.tla: operations on the tree of groups and entries. After each one the
//! tree and what the call returned have to be what the specification says.
use crate::m_doc::strip_history_parent;
use crate::m_fields::{open, save};
use crate::util::*;
use crate::{proj, slots, Ctx, Out};
use chrono::{TimeZone, Utc};
use kpdb::*;
use secstr::SecStr;
use serde_json::{json, Value};
use uuid::Uuid;

const WORDS: [&str; 2] = ["alpha", "bravo"];

struct W {
    seed: u64,
}

fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}
fn nums(v: &Value) -> Vec<usize> {
    arr(v).iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
fn word(w: &str) -> &'static str {
    WORDS[(w == "b") as usize]
}
fn mixed(s: &str, r: &mut Rng) -> String {
    s.chars()
        .map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}

impl W {
    fn id(&self, n: u64) -> Uuid {
        if n == 0 {
            return Uuid::nil();
        }
        // identifiers that differ in one byte only, at either end
        let mut b = [7u8; 16];
        b[if n % 2 == 0 { 0 } else { 15 }] = n as u8;
        b[8] = (n >> 8) as u8;
        Uuid::from_bytes(b)
    }
    fn rng(&self, k: u64) -> Rng {
        Rng::from_str(self.seed, &format!("content {}", k))
    }
    fn date(&self, r: &mut Rng) -> chrono::DateTime<Utc> {
        Utc.timestamp_opt(1_000_000_000 + r.below(900_000_000) as i64, 0).unwrap()
    }
    fn entry(&self, m: &Value) -> Entry {
        let (k, id) = (m["k"].as_u64().unwrap(), m["id"].as_u64().unwrap());
        let mut r = self.rng(k);
        let w = m["w"].as_str().unwrap();
        let mut e = Entry::default();
        e.uuid = EntryUuid(self.id(id));
        e.parent = GroupUuid(self.id(m["p"].as_u64().unwrap()));
        e.usage_count = m["v"].as_i64().unwrap() as i32;
        e.creation_time = self.date(&mut r);
        e.expiry_time = self.date(&mut r);
        e.last_accessed = self.date(&mut r);
        e.last_modified = self.date(&mut r);
        e.location_changed = self.date(&mut r);
        // fields that a search does not look at
        e.tags = format!("alpha bravo {}", k);
        e.override_url = "bravo alpha".into();
        e.auto_type_def_sequence = "{ALPHA}{BRAVO}".into();
        e.associations.push(Association {
            window: "alpha".into(),
            keystroke_sequence: "bravo".into(),
        });
        e.strings.insert(
            StringKey::Other("alpha bravo".into()),
            StringValue::Protected(SecStr::from("alpha bravo zulu")),
        );
        e.strings.insert(StringKey::Password, StringValue::Protected(SecStr::from("Bravo Alpha")));
        if w != "none" {
            let key = match r.below(6) {
                0 => StringKey::Title,
                1 => StringKey::Username,
                2 => StringKey::Url,
                3 => StringKey::Notes,
                4 => StringKey::Password,
                _ => StringKey::Other(r.pick(KEYS).to_string()),
            };
            let before = if r.chance(1, 20) { "0 ".repeat(3000) } else { String::new() };
            let text = before + &format!("{} {}{}", k, mixed(word(w), &mut r), r.pick(&["", "!", "é"]));
            e.strings.insert(key, StringValue::Plain(text));
        }
        slots::noise_entry(&mut e, &mut r);
        if r.chance(1, 8) {
            return e;
        }
        let mut h = Entry::default();
        h.uuid = EntryUuid(self.id([1u64, 2, 3, 0, 9].into_iter().filter(|x| *x != id).nth(r.below(4)).unwrap()));
        h.strings.insert(StringKey::Title, StringValue::Plain("alpha bravo zulu".into()));
        for t in [0; 5] {
            let d = self.date(&mut r);
            let _ = t;
            h.creation_time = d;
            h.expiry_time = d;
            h.last_accessed = d;
            h.last_modified = d;
            h.location_changed = d;
        }
        for _ in 0..*r.pick(&[1, 1, 1, 3]) {
            e.history.push(h.clone());
        }
        e
    }
    fn group(&self, m: &Value) -> Group {
        let k = m["k"].as_u64().unwrap();
        let mut r = self.rng(k);
        let mut g = Group::default();
        g.uuid = GroupUuid(self.id(m["id"].as_u64().unwrap()));
        g.parent = GroupUuid(self.id(m["p"].as_u64().unwrap()));
        g.usage_count = m["v"].as_i64().unwrap() as i32;
        g.name = format!("{}{} {}", r.pick(&["", "_", "ß"]), mixed(word(m["w"].as_str().unwrap()), &mut r), k);
        g.notes = "alpha bravo zulu".into();
        g.last_top_visible_entry = EntryUuid(self.id(r.below(4) as u64));
        g.creation_time = self.date(&mut r);
        g.expiry_time = self.date(&mut r);
        g.last_accessed = self.date(&mut r);
        g.last_modified = self.date(&mut r);
        g.location_changed = self.date(&mut r);
        slots::noise_group(&mut g, &mut r);
        g.entries = arr(&m["es"]).iter().map(|x| self.entry(x)).collect();
        g.groups = arr(&m["gs"]).iter().map(|x| self.group(x)).collect();
        g
    }
    fn query(&self, q: &str, r: &mut Rng) -> String {
        match q {
            "all" => String::new(),
            "none" => r.pick(&["zulu", "alphabravo", "alphax", "(?i)alpha", "al.ha", "lpah"]).to_string(),
            _ => {
                let w = word(q);
                let n = r.range(3, 5);
                let at = r.below(6 - n);
                mixed(&w[at..at + n], r)
            }
        }
    }
}

fn gmut<'a>(root: &'a mut Group, path: &[usize]) -> &'a mut Group {
    path.iter().fold(root, |g, i| &mut g.groups[i - 1])
}
fn gref<'a>(root: &'a Group, path: &[usize]) -> &'a Group {
    path.iter().fold(root, |g, i| &g.groups[i - 1])
}

/// The places of all groups and entries by their addresses.
fn places(root: &Group) -> Vec<(usize, bool, Value)> {
    fn go(g: &Group, path: Vec<usize>, out: &mut Vec<(usize, bool, Value)>) {
        out.push((g as *const Group as usize, true, json!(path)));
        for (i, e) in g.entries.iter().enumerate() {
            out.push((e as *const Entry as usize, false, json!([path, i + 1])));
        }
        for (i, s) in g.groups.iter().enumerate() {
            let mut p = path.clone();
            p.push(i + 1);
            go(s, p, out);
        }
    }
    let mut out = vec![];
    go(root, vec![], &mut out);
    out
}
fn place(map: &[(usize, bool, Value)], a: usize, group: bool) -> Value {
    map.iter()
        .find(|x| x.0 == a && x.1 == group)
        .map(|x| x.2.clone())
        .unwrap_or(json!("an object outside the tree"))
}

fn view_g(g: &Group) -> Value {
    let mut v = proj::group(g);
    strip_history_parent(&mut v, false);
    v
}
fn view_e(e: &Entry) -> Value {
    let mut v = proj::entry(e);
    strip_history_parent(&mut v, false);
    v
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let w = W { seed: ctx.rng.u64() };
    let watch: Vec<&str> = arr(&case["watch"]).iter().map(|x| x.as_str().unwrap()).collect();
    let mut db = slots::base("empty", &mut ctx.rng);
    slots::noise_meta(&mut db, &mut ctx.rng);
    // the roles of groups make no difference
    for u in [&mut db.recycle_bin_uuid, &mut db.entry_templates_group_uuid, &mut db.last_selected_group] {
        if ctx.rng.bool() {
            *u = GroupUuid(w.id(ctx.rng.below(3) as u64));
        }
    }
    db.root_group = w.group(&case["start"]);
    for (step, h) in arr(&case["hist"]).iter().enumerate() {
        let o = &h["o"];
        let name = o["op"].as_str().unwrap();
        let want = w.group(&h["t"]);
        if !watch.contains(&name) {
            db.root_group = want;
            continue;
        }
        let before = proj::database(&db);
        let (path, to) = (nums(&o["path"]), nums(&o["to"]));
        let id = o["id"].as_u64().unwrap();
        let (eid, gid) = (EntryUuid(w.id(id)), GroupUuid(w.id(id)));
        let q = match name {
            "findE" | "findG" | "findEm" | "findGm" => w.query(o["q"].as_str().unwrap(), &mut ctx.rng),
            _ => String::new(),
        };
        let fresh = json!({"k": h["n"].as_u64().unwrap() + 1, "id": id, "w": o["q"], "v": 0, "p": 0, "es": [], "gs": []});
        let mut v = h["n"].as_i64().unwrap() as i32;
        let mut new = || {
            v += 1;
            v
        };
        let map = places(&db.root_group);
        let addr = |g: &Group| place(&map, g as *const Group as usize, true);
        let eaddr = |e: &Entry| place(&map, e as *const Entry as usize, false);
        let mut got: Vec<Value> = vec![];
        let mut removed: Option<Value> = None;
        match name {
            "addE" => gmut(&mut db.root_group, &path).add_entry(w.entry(&fresh)),
            "addG" => gmut(&mut db.root_group, &path).add_group(w.group(&fresh)),
            "rmE" => removed = gmut(&mut db.root_group, &path).remove_entry(eid).map(|e| view_e(&e)),
            "rmG" => removed = gmut(&mut db.root_group, &path).remove_group(gid).map(|g| view_g(&g)),
            "moveE" => {
                if let Some(e) = gmut(&mut db.root_group, &path).remove_entry(eid) {
                    removed = Some(view_e(&e));
                    gmut(&mut db.root_group, &to).add_entry(e);
                }
            }
            "moveG" => {
                if let Some(g) = gmut(&mut db.root_group, &path).remove_group(gid) {
                    removed = Some(view_g(&g));
                    gmut(&mut db.root_group, &to).add_group(g);
                }
            }
            "copyG" => {
                let g = gref(&db.root_group, &path).clone();
                gmut(&mut db.root_group, &to).add_group(g);
            }
            "iter" => {
                got = db.root_group.iter().map(addr).collect();
                iterator_ok(&db.root_group, got.len(), &mut ctx.rng).map_err(|e| format!("step {}: {}", step, e))?;
            }
            "subIter" => got = gref(&db.root_group, &path).iter().map(addr).collect(),
            "iterMut" => {
                for g in db.root_group.iter_mut() {
                    g.usage_count = new();
                    got.push(addr(g));
                }
            }
            "iterMutSome" => {
                for g in db.root_group.iter_mut().take(id as usize) {
                    g.usage_count = new();
                    got.push(addr(g));
                }
            }
            "subIterMut" => {
                for g in gmut(&mut db.root_group, &path).iter_mut() {
                    g.usage_count = new();
                    got.push(addr(g));
                }
            }
            "iterAdd" => {
                for g in db.root_group.iter_mut() {
                    got.push(addr(g));
                    g.entries.push(w.entry(&json!({"k": new(), "id": id, "w": "a", "v": 0, "p": 0})));
                }
            }
            "iterRm" => {
                for g in db.root_group.iter_mut() {
                    got.push(addr(g));
                    if let Some(i) = g.entries.iter().position(|e| e.uuid == eid) {
                        g.entries.remove(i);
                    }
                }
            }
            "getE" => got = db.get_entry(eid).into_iter().map(eaddr).collect(),
            "getG" => got = db.get_group(gid).into_iter().map(addr).collect(),
            "getEm" => {
                if let Some(e) = db.get_entry_mut(eid) {
                    e.usage_count = new();
                    got.push(eaddr(e));
                }
            }
            "getGm" => {
                if let Some(g) = db.get_group_mut(gid) {
                    g.usage_count = new();
                    got.push(addr(g));
                }
            }
            "findE" => got = db.find_entries(q.as_str()).into_iter().map(eaddr).collect(),
            "findG" => got = db.find_groups(q.as_str()).into_iter().map(addr).collect(),
            "findEm" => {
                for e in db.find_entries_mut(q.as_str()) {
                    e.usage_count = new();
                    got.push(eaddr(e));
                }
            }
            "findGm" => {
                for g in db.find_groups_mut(q.as_str()) {
                    g.usage_count = new();
                    got.push(addr(g));
                }
            }
            "saveOpen" => {
                let f = save(&db).map_err(|e| format!("step {}: save failed: {}", step, e))?;
                db = open(&f, &slots::key()).map_err(|e| format!("step {}: the saved file does not open: {}", step, e))?;
            }
            _ => panic!("operation {}", name),
        }
        let what = format!("step {}, {} {}{}", step, name, json!([path, id, to]), if q.is_empty() { q } else { format!(" {:?}", q) });
        match name {
            "rmE" | "rmG" | "moveE" | "moveG" => {
                let exp = arr(&h["res"]).first().map(|m| if name.ends_with('E') { view_e(&w.entry(m)) } else { view_g(&w.group(m)) });
                if let Some(d) = show_diff(&json!(exp), &json!(removed)) {
                    return Err(format!("{}: returned, {}", what, d));
                }
            }
            "addE" | "addG" | "copyG" | "saveOpen" => {}
            _ => {
                if json!(got) != json!(arr(&h["res"])) {
                    return Err(format!("{}: expected the places {} but got {}", what, h["res"], json!(got)));
                }
            }
        }
        if let Some(d) = show_diff(&view_g(&want), &view_g(&db.root_group)) {
            return Err(format!("{}: afterwards in the tree, {}", what, d));
        }
        if name != "saveOpen" {
            let mut after = proj::database(&db);
            after["root"] = before["root"].clone();
            if let Some(d) = show_diff(&before, &after) {
                return Err(format!("{}: afterwards in the database, {}", what, d));
            }
        }
        ctx.add(name, 1);
    }
    Ok(())
}

/// The other ways to go through an iterator agree with going through it.
fn iterator_ok(g: &Group, n: usize, r: &mut Rng) -> Out {
    let same = |a: Option<&Group>, b: Option<&Group>| a.map(|x| x as *const Group) == b.map(|x| x as *const Group);
    let all: Vec<&Group> = g.iter().collect();
    let k = r.below(n + 2);
    if g.iter().count() != n || !same(g.iter().last(), all.last().cloned()) {
        return Err("count or last of the iterator differ from going through it".into());
    }
    if !same(g.iter().nth(k), all.get(k).cloned()) || g.iter().skip(k).count() != n.saturating_sub(k) {
        return Err(format!("element {} of the iterator differs from going through it", k));
    }
    let mut it = g.iter();
    for i in 0..n {
        let (lo, hi) = it.size_hint();
        if lo > n - i || hi.map(|h| h < n - i).unwrap_or(false) {
            return Err(format!("the size hint {:?} is wrong with {} groups to come", (lo, hi), n - i));
        }
        it.next();
    }
    match it.next().is_none() && it.next().is_none() {
        true => Ok(()),
        false => Err("the iterator goes on after its end".into()),
    }
}

/// No two references of one mutable traversal give access to the same group.
pub fn alias(case: &Value, ctx: &mut Ctx) -> Out {
    let w = W { seed: ctx.rng.u64() };
    let mut db = slots::base("empty", &mut ctx.rng);
    db.root_group = w.group(&case["start"]);
    let owned: Vec<(usize, Vec<usize>)> = db
        .root_group
        .iter()
        .map(|g| (g as *const Group as usize, g.iter().map(|x| x as *const Group as usize).collect()))
        .collect();
    // the addresses only: nothing is read or written through the references
    let a: Vec<usize> = db.root_group.iter_mut().map(|g| g as *mut Group as usize).collect();
    let b: Vec<usize> = db.find_groups_mut("").into_iter().map(|g| g as *mut Group as usize).collect();
    for (what, list) in [("iter_mut", a), ("find_groups_mut", b)] {
        for i in 0..list.len() {
            for j in 0..list.len() {
                if i != j && list[i] == list[j] {
                    return Err(format!("{} hands out the same group twice", what));
                }
            }
        }
        for x in &list {
            let below = &owned.iter().find(|o| o.0 == *x).ok_or("a group outside the tree")?.1;
            if list.iter().any(|y| y != x && below.contains(y)) {
                ctx.sig = "mutable-traversal-nested".into();
                return Err(format!("{} hands out a group and a group below it", what));
            }
        }
    }
    Ok(())
}

/// Match.tla: entries and groups found by text.
const PAIRS: &[(char, char)] = &[
    ('q', 'Q'), ('z', 'Z'), ('a', 'A'), ('i', 'I'), ('k', 'K'), ('é', 'É'), ('ø', 'Ø'), ('ž', 'Ž'), ('ÿ', 'Ÿ'), ('ω', 'Ω'),
    ('я', 'Я'), ('ђ', 'Ђ'), ('ժ', 'Ժ'), ('ⱥ', 'Ⱥ'), ('ẫ', 'Ẫ'), ('𐐨', '𐐀'), ('ｚ', 'Ｚ'), ('ⅷ', 'Ⅷ'), ('ⓚ', 'Ⓚ'),
];
const CASELESS: &[char] = &['1', ' ', '.', '*', '\\', '漢', 'ع', '🔑', '%', '\n', '-', 'ª'];

/// Names that other programs give to strings.
const KEYS: &[&str] = &[
    "x", "", "_etm_template", "KP2A_URL_1", "TimeOtp-Secret-Base32", "HmacOtp-Counter", "KPRPC JSON", "otp", "KPH: note", "~", "title2", "$", "{S:x}",
];

fn concrete(t: &Value, pairs: &[(char, char); 2], o: char, long: usize) -> String {
    arr(t)
        .iter()
        .map(|c| match c.as_str().unwrap() {
            "a" => pairs[0].0,
            "A" => pairs[0].1,
            "b" => pairs[1].0,
            "B" => pairs[1].1,
            "s" => 'σ',
            "S" => 'Σ',
            "z" => 'ς',
            _ => o,
        })
        // runs of o, all longer by the same factor
        .flat_map(|c| std::iter::repeat(c).take(if c == o { long } else { 1 }))
        .collect()
}

pub fn matching(case: &Value, ctx: &mut Ctx) -> Out {
    let r = &mut ctx.rng;
    let pairs = loop {
        let p = [*r.pick(PAIRS), *r.pick(PAIRS)];
        if p[0] != p[1] {
            break p;
        }
    };
    let o = *r.pick(CASELESS);
    let long = if r.chance(1, 30) { *r.pick(&[200, 5000, 70000]) } else { 1 };
    let strings: Vec<(bool, String)> = arr(&case["strings"])
        .iter()
        .map(|s| (s["prot"] == json!(true), concrete(&s["text"], &pairs, o, long)))
        .collect();
    let mut keys = vec![
        StringKey::Title,
        StringKey::Username,
        StringKey::Url,
        StringKey::Notes,
        StringKey::Password,
    ];
    keys.extend(KEYS.iter().map(|k| StringKey::Other(k.to_string())));
    let mut entry = Entry::new();
    for (prot, text) in &strings {
        let k = keys.remove(r.below(keys.len()));
        entry.strings.insert(k, StringValue::new(text.as_str(), *prot));
    }
    for (list, want) in [("found", true), ("missed", false)] {
        for q in arr(&case[list]) {
            let q = concrete(q, &pairs, o, long);
            let mut e = entry.clone();
            // what a search does not look at
            slots::noise_entry(&mut e, r);
            e.tags = q.clone();
            e.override_url = q.clone();
            e.auto_type_def_sequence = q.clone();
            e.strings.insert(StringKey::Other(format!("decoy {}", q)), StringValue::new(q.as_str(), true));
            let mut h = Entry::new();
            h.set_title(q.as_str());
            e.history.push(h);
            let mut db = slots::base("empty", r);
            db.root_group.name = "~".into();
            db.root_group.notes = q.clone();
            let at_root = r.bool();
            let mut sub = Group::new("~");
            slots::noise_meta(&mut db, r);
            slots::noise_group(&mut db.root_group, r);
            slots::noise_group(&mut sub, r);
            db.root_group.notes = q.clone();
            if at_root {
                db.root_group.entries.push(e);
            } else {
                sub.entries.push(e);
            }
            // a group is named as the first string
            let named = strings.first().filter(|s| !s.0 && strings.len() == 1);
            if let Some(s) = named {
                sub.name = s.1.clone();
            }
            db.root_group.groups.push(sub);
            let before = proj::database(&db);
            let got = db.find_entries(q.as_str()).len();
            if (got == 1) != want || got > 1 {
                return Err(format!("find_entries({:?}) finds {} times {:?}", q, got, strings));
            }
            let got = db.find_entries_mut(q.as_str()).len();
            if (got == 1) != want || got > 1 {
                return Err(format!("find_entries_mut({:?}) finds {} times {:?}", q, got, strings));
            }
            if let Some(s) = named {
                let all = if q.is_empty() { 2 } else { want as usize };
                if db.find_groups(q.as_str()).len() != all {
                    return Err(format!("find_groups({:?}) finds {} with {:?}", q, db.find_groups(q.as_str()).len(), s.1));
                }
                if db.find_groups_mut(q.as_str()).len() != all {
                    return Err(format!("find_groups_mut({:?}) with {:?}", q, s.1));
                }
            }
            if proj::database(&db) != before {
                return Err("a search changes the database".into());
            }
            ctx.count.entry("queries".into()).and_modify(|n| *n += 1).or_insert(1);
        }
    }
    Ok(())
}
