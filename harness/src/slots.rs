//! The fields of a database as named slots: the specification Fields.tla names
//! a slot by site and field and gives it a value class.
use crate::util::*;
use crate::values as v;
use kpdb::*;
use secstr::SecStr;
use uuid::Uuid;

pub const PASSWORD: &str = "p";

pub fn key() -> CompositeKey {
    CompositeKey::from_password(PASSWORD)
}
pub fn key_bytes() -> [u8; 32] {
    crate::codec::composite(Some(PASSWORD), None)
}

pub fn group_named(r: &mut Rng, name: &str) -> Group {
    let mut g = Group::new(name);
    g.uuid = GroupUuid(Uuid::from_bytes(r.arr16()));
    g
}
pub fn entry_new(r: &mut Rng) -> Entry {
    let mut e = Entry::new();
    e.uuid = EntryUuid(Uuid::from_bytes(r.arr16()));
    e
}

/// root [entry0] / sub [entry with one history entry, entry2] / deep [entry3], other
pub fn base(kind: &str, r: &mut Rng) -> Database {
    let mut db = Database::new(&key());
    // now and then the rounds that new databases have
    if r.below(8) > 0 {
        db.transform_rounds = TransformRounds(1);
    }
    db.root_group.uuid = GroupUuid(Uuid::from_bytes(r.arr16()));
    if kind == "empty" {
        return db;
    }
    let mut sub = group_named(r, "sub");
    let mut deep = group_named(r, "deep");
    let other = group_named(r, "other");
    let mut e = entry_new(r);
    e.history.push(entry_new(r));
    if r.bool() {
        e.history[0].uuid = e.uuid; // as other programs write it
    }
    deep.entries.push(entry_new(r));
    sub.entries.push(e);
    sub.entries.push(entry_new(r));
    sub.groups.push(deep);
    db.root_group.entries.push(entry_new(r));
    db.root_group.groups.push(sub);
    db.root_group.groups.push(other);
    if kind == "dense" {
        fill_meta(&mut db, r);
        fill_group(&mut db.root_group, r);
        limits(&mut db, r);
    } else if kind == "twins" {
        fill_meta(&mut db, r);
        fill_group(&mut db.root_group, r);
        limits(&mut db, r);
        twins(&mut db, r);
    } else if kind != "plain" {
        panic!("base {}", kind);
    }
    db
}

/// Settings for programs that keep or remove history entries.
fn limits(db: &mut Database, r: &mut Rng) {
    if r.bool() {
        db.history_max_items = *r.pick(&[-1, 0, 1, 10]);
        db.history_max_size = *r.pick(&[-1, 0, 1, 6 << 20]);
        db.maintenance_history_days = *r.pick(&[-1, 0, 1, 365]);
        db.master_key_change_rec = *r.pick(&[-1, 0, 1]);
        db.master_key_change_force = *r.pick(&[-1, 0, 1]);
    }
}

/// Everything twice: equal entries, an entry equal to its history, equal groups,
/// equal binaries, icons and custom data, all with the identifiers of each other.
fn twins(db: &mut Database, r: &mut Rng) {
    let id = v::uuid("any", r);
    let mut e = db.root_group.groups[0].entries[0].clone();
    e.uuid = EntryUuid(id);
    let b = r.bytes(40);
    for k in ["one", "two"] {
        e.strings.insert(StringKey::Other(k.into()), StringValue::Plain("same".into()));
        e.strings.insert(StringKey::Other(format!("{}p", k)), StringValue::new("same", true));
        e.binaries.insert(BinaryKey(k.into()), BinaryValue::Plain(b.clone()));
        e.binaries.insert(BinaryKey(format!("{}p", k)), BinaryValue::Protected(SecStr::new(b.clone())));
        e.binaries.insert(BinaryKey(format!("{}r", k)), BinaryValue::Ref(BinaryId("1".into())));
        e.associations.push(Association { window: "same".into(), keystroke_sequence: "same".into() });
        db.custom_icons.insert(CustomIconUuid(v::uuid("any", r)), b.clone());
        db.custom_data.insert(k.into(), "same".into());
        db.binaries.insert(BinaryId(if k == "one" { "0" } else { "1" }.into()), b.clone());
    }
    e.history.clear();
    let h = e.clone();
    e.history = vec![h.clone(), h];
    db.root_group.groups[0].entries = vec![e.clone(), e.clone()];
    db.root_group.groups[0].groups[0].entries = vec![e.clone()];
    db.root_group.entries = vec![e];
    let deep = db.root_group.groups[0].groups[0].clone();
    let uuid = GroupUuid(id);
    db.root_group.groups[1] = deep;
    db.root_group.groups[1].uuid = uuid;
    db.root_group.groups[0].groups[0].uuid = uuid;
    db.root_group.groups[0].uuid = uuid;
    for u in [&mut db.recycle_bin_uuid, &mut db.entry_templates_group_uuid, &mut db.last_selected_group, &mut db.last_top_visible_group] {
        if r.bool() {
            *u = uuid;
        }
    }
}

/// An identifier that occurs in the database.
fn reference(db: &Database, icon: bool, entry: bool, r: &mut Rng) -> Uuid {
    let mut ids: Vec<Uuid> = match (icon, entry) {
        (true, _) => db.custom_icons.keys().map(|x| x.0).collect(),
        (_, true) => db.root_group.iter().flat_map(|g| g.entries.iter().map(|e| e.uuid.0)).collect(),
        _ => db.root_group.iter().map(|g| g.uuid.0).collect(),
    };
    ids.sort();
    match ids.len() {
        0 => v::uuid("any", r),
        _ => *r.pick(&ids),
    }
}
fn set_ref(db: &mut Database, site: &str, field: &str, r: &mut Rng) {
    let of = |db: &Database, icon: bool, entry: bool, r: &mut Rng| reference(db, icon, entry, r);
    match (site, field) {
        ("meta", _) => {
            let id = GroupUuid(of(db, false, false, r));
            match field {
                "entry_templates_group_uuid" => db.entry_templates_group_uuid = id,
                "last_selected_group" => db.last_selected_group = id,
                "last_top_visible_group" => db.last_top_visible_group = id,
                "recycle_bin_uuid" => db.recycle_bin_uuid = id,
                _ => panic!("reference {}", field),
            }
        }
        ("root" | "sub" | "deep" | "other", _) => {
            let id = of(db, field == "custom_icon_uuid", field == "last_top_visible_entry", r);
            let g = group_at(db, site);
            match field {
                "uuid" => g.uuid = GroupUuid(id),
                "parent" => g.parent = GroupUuid(id),
                "custom_icon_uuid" => g.custom_icon_uuid = Some(CustomIconUuid(id)),
                "last_top_visible_entry" => g.last_top_visible_entry = EntryUuid(id),
                _ => panic!("reference {}", field),
            }
        }
        _ => {
            let id = of(db, field == "custom_icon_uuid", field == "uuid", r);
            let pool = db.binaries.keys().next().cloned().unwrap_or(BinaryId("0".into()));
            let name = v::text("word", r);
            let e = entry_at(db, site);
            match field {
                "uuid" => e.uuid = EntryUuid(id),
                "parent" => e.parent = GroupUuid(id),
                "custom_icon_uuid" => e.custom_icon_uuid = Some(CustomIconUuid(id)),
                "bin.ref" => {
                    e.binaries.insert(BinaryKey(name), BinaryValue::Ref(pool));
                }
                _ => panic!("reference {}", field),
            }
        }
    }
}

fn fill_meta(db: &mut Database, r: &mut Rng) {
    for f in META {
        set_meta(db, f.0, f.1, r);
    }
    if r.below(8) > 0 {
        db.transform_rounds = TransformRounds(1 + r.below(3) as u64);
    }
}
pub fn fill_group(g: &mut Group, r: &mut Rng) {
    for f in GROUP {
        set_group(g, f.0, f.1, r);
    }
    for e in g.entries.iter_mut() {
        fill_entry(e, r);
    }
    for s in g.groups.iter_mut() {
        fill_group(s, r);
    }
}
pub fn fill_entry(e: &mut Entry, r: &mut Rng) {
    for f in ENTRY {
        set_entry(e, f.0, f.1, r);
    }
    for h in e.history.iter_mut() {
        fill_entry(h, r);
    }
}

/// Settings that no operation on the tree looks at, set at random.
pub fn noise_group(g: &mut Group, r: &mut Rng) {
    for f in GROUP {
        if f.0 != "name" && f.0 != "usage_count" && r.bool() {
            set_group(g, f.0, f.1, r);
        }
    }
}
pub fn noise_entry(e: &mut Entry, r: &mut Rng) {
    for f in ENTRY {
        let content = f.0.ends_with(".plain") || f.0.ends_with(".prot");
        if f.0 != "usage_count" && (!content || f.0.starts_with("bin.")) && r.bool() {
            set_entry(e, f.0, f.1, r);
        }
    }
}
pub fn noise_meta(db: &mut Database, r: &mut Rng) {
    for f in META {
        if r.bool() {
            set_meta(db, f.0, f.1, r);
        }
    }
    if r.bool() {
        db.history_max_items = *r.pick(&[-1, 0, 1, 2]);
        db.history_max_size = *r.pick(&[-1, 0, 1, 100]);
        db.maintenance_history_days = *r.pick(&[-1, 0, 1]);
    }
}

/// Fields with the class used for ordinary content.
const META: &[(&str, &str)] = &[
    ("comment", "text"),
    ("binaries", "two"),
    ("color", "any"),
    ("custom_data", "two"),
    ("custom_icons", "two"),
    ("def_username", "phrase"),
    ("def_username_changed", "day"),
    ("description", "phrase"),
    ("description_changed", "day"),
    ("entry_templates_group_changed", "day"),
    ("entry_templates_group_uuid", "any"),
    ("history_max_items", "any"),
    ("history_max_size", "any"),
    ("last_selected_group", "any"),
    ("last_top_visible_group", "any"),
    ("maintenance_history_days", "any"),
    ("master_key_change_force", "any"),
    ("master_key_change_rec", "any"),
    ("master_key_changed", "day"),
    ("name", "phrase"),
    ("name_changed", "day"),
    ("protect_notes", "rnd"),
    ("protect_password", "rnd"),
    ("protect_title", "rnd"),
    ("protect_url", "rnd"),
    ("protect_username", "rnd"),
    ("recycle_bin_changed", "day"),
    ("recycle_bin_enabled", "rnd"),
    ("recycle_bin_uuid", "any"),
];
const GROUP: &[(&str, &str)] = &[
    ("custom_icon_uuid", "any"),
    ("def_auto_type_sequence", "phrase"),
    ("enable_auto_type", "rnd"),
    ("enable_searching", "rnd"),
    ("icon", "any"),
    ("is_expanded", "rnd"),
    ("last_top_visible_entry", "any"),
    ("name", "phrase"),
    ("notes", "phrase"),
    ("creation_time", "day"),
    ("expiry_time", "day"),
    ("last_accessed", "day"),
    ("last_modified", "day"),
    ("location_changed", "day"),
    ("expires", "rnd"),
    ("usage_count", "any"),
];
const ENTRY: &[(&str, &str)] = &[
    ("associations", "two"),
    ("auto_type_def_sequence", "phrase"),
    ("auto_type_enabled", "rnd"),
    ("auto_type_obfuscation", "rnd"),
    ("background_color", "any"),
    ("foreground_color", "any"),
    ("custom_icon_uuid", "any"),
    ("icon", "any"),
    ("override_url", "phrase"),
    ("tags", "phrase"),
    ("creation_time", "day"),
    ("expiry_time", "day"),
    ("last_accessed", "day"),
    ("last_modified", "day"),
    ("location_changed", "day"),
    ("expires", "rnd"),
    ("usage_count", "any"),
    ("title.plain", "phrase"),
    ("username.plain", "phrase"),
    ("password.prot", "phrase"),
    ("url.plain", "phrase"),
    ("notes.prot", "phrase"),
    ("other.plain", "phrase"),
    ("other.prot", "phrase"),
    ("bin.plain", "b17"),
    ("bin.prot", "b65"),
    ("bin.ref", "word"),
];

pub fn entry_at<'a>(db: &'a mut Database, site: &str) -> &'a mut Entry {
    match site {
        "entry" => &mut db.root_group.groups[0].entries[0],
        "hist" => &mut db.root_group.groups[0].entries[0].history[0],
        "entry2" => &mut db.root_group.groups[0].entries[1],
        "entry0" => &mut db.root_group.entries[0],
        "entry3" => &mut db.root_group.groups[0].groups[0].entries[0],
        _ => panic!("site {}", site),
    }
}
pub fn group_at<'a>(db: &'a mut Database, site: &str) -> &'a mut Group {
    match site {
        "root" => &mut db.root_group,
        "sub" => &mut db.root_group.groups[0],
        "deep" => &mut db.root_group.groups[0].groups[0],
        "other" => &mut db.root_group.groups[1],
        _ => panic!("site {}", site),
    }
}

pub fn set(db: &mut Database, site: &str, field: &str, class: &str, r: &mut Rng) {
    match site {
        _ if class == "ref" => set_ref(db, site, field, r),
        "meta" => set_meta(db, field, class, r),
        "root" | "sub" | "deep" | "other" => set_group(group_at(db, site), field, class, r),
        _ => set_entry(entry_at(db, site), field, class, r),
    }
}

fn boolean(class: &str, r: &mut Rng) -> bool {
    match class {
        "true" => true,
        "false" => false,
        "rnd" => r.bool(),
        _ => panic!("bool class {}", class),
    }
}
fn optbool(class: &str, r: &mut Rng) -> Option<bool> {
    match class {
        "none" => None,
        "rnd" => *r.pick(&[None, Some(false), Some(true)]),
        _ => Some(boolean(class, r)),
    }
}
fn icon(class: &str, r: &mut Rng) -> Icon {
    match class {
        "any" => *r.pick(&crate::tables::ICONS),
        _ => crate::tables::ICONS[class[1..].parse::<usize>().unwrap()], // i0 .. i68
    }
}
fn optuuid(class: &str, r: &mut Rng) -> Option<CustomIconUuid> {
    match class {
        "none" => None,
        _ => Some(CustomIconUuid(v::uuid(class, r))),
    }
}
/// The classes of both parts of an item.
fn item(class: &str) -> (&str, &str) {
    class.split_once('/').expect("item class")
}
fn count(class: &str) -> usize {
    match class {
        "none" => 0,
        "one" => 1,
        "two" => 2,
        "five" => 5,
        "twelve" => 12,
        "n130" => 130,
        "fifty" => 50,
        "n300" => 300,
        "n3000" => 3000,
        _ => panic!("count {}", class),
    }
}

pub fn set_meta(db: &mut Database, field: &str, class: &str, r: &mut Rng) {
    match field {
        "comment" => db.comment = v::comment(class, r),
        "compression" => {
            db.compression = match class {
                "none" => Compression::None,
                _ => Compression::GZip,
            }
        }
        "rounds" => {
            db.transform_rounds = TransformRounds(match class {
                "r0" => 0,
                "r1" => 1,
                "r255" => 255,
                "r256" => 256,
                "r6000" => 6000,
                "r65535" => 65535,
                "r65536" => 65536,
                "r70000" => 70000,
                "r300000" => 300_000,
                _ => panic!("rounds {}", class),
            })
        }
        "version" => {
            let (a, b) = match class {
                "v3.1" => (3, 1),
                "v3.0" => (3, 0),
                "v2.20" => (2, 20),
                "v0.0" => (0, 0),
                "v4.0" => (4, 0),
                "v3.257" => (3, 257),
                "v258.1" => (258, 1),
                "vmax" => (65535, 65535),
                _ => panic!("version {}", class),
            };
            db.version = Version { major: a, minor: b }
        }
        "db_type" => {
            db.db_type = match class {
                "kdb1" => DbType::Kdb1,
                _ => DbType::Kdb2,
            }
        }
        "generator" => db.generator = v::text(class, r),
        "binaries" => {

            for i in 0..count(class) {
                let b = v::bytes(*r.pick(&["b1", "b16", "b65", "b1k"]), r);
                db.binaries.insert(BinaryId(i.to_string()), b);
            }
        }
        "binaries.data" => {
            let b = v::bytes(class, r);
            db.binaries.insert(BinaryId("7".into()), b);
        }
        "binaries.id" => {
            db.binaries.insert(BinaryId(v::text(class, r)), r.bytes(9));
        }
        "color" => db.color = v::color(class, r),
        "binaries.item" => {
            let (a, b) = item(class);
            db.binaries.insert(BinaryId(v::text(a, r)), v::bytes(b, r));
        }
        "custom_data.item" => {
            let (a, b) = item(class);
            db.custom_data.insert(v::text(a, r), v::text(b, r));
        }
        "custom_icons.item" => {
            let (a, b) = item(class);
            db.custom_icons.insert(CustomIconUuid(v::uuid(a, r)), v::bytes(b, r));
        }
        "custom_data" => {

            for _ in 0..count(class) {
                db.custom_data.insert(v::text("word", r), v::text("phrase", r));
            }
        }
        "custom_data.key" => {
            db.custom_data.insert(v::text(class, r), v::text("word", r));
        }
        "custom_data.value" => {
            db.custom_data.insert(v::text("word", r), v::text(class, r));
        }
        "custom_icons" => {

            for _ in 0..count(class) {
                let n = r.range(1, 90);
                db.custom_icons.insert(CustomIconUuid(v::uuid("any", r)), r.bytes(n));
            }
        }
        "custom_icons.uuid" => {
            db.custom_icons.insert(CustomIconUuid(v::uuid(class, r)), r.bytes(9));
        }
        "custom_icons.data" => {
            let b = v::bytes(class, r);
            db.custom_icons.insert(CustomIconUuid(v::uuid("any", r)), b);
        }
        "def_username" => db.def_username = v::text(class, r),
        "def_username_changed" => db.def_username_changed = v::date(class, r),
        "description" => db.description = v::text(class, r),
        "description_changed" => db.description_changed = v::date(class, r),
        "entry_templates_group_changed" => db.entry_templates_group_changed = v::date(class, r),
        "entry_templates_group_uuid" => db.entry_templates_group_uuid = GroupUuid(v::uuid(class, r)),
        "history_max_items" => db.history_max_items = v::int(class, r),
        "history_max_size" => db.history_max_size = v::int(class, r),
        "last_selected_group" => db.last_selected_group = GroupUuid(v::uuid(class, r)),
        "last_top_visible_group" => db.last_top_visible_group = GroupUuid(v::uuid(class, r)),
        "maintenance_history_days" => db.maintenance_history_days = v::int(class, r),
        "master_key_change_force" => db.master_key_change_force = v::int(class, r),
        "master_key_change_rec" => db.master_key_change_rec = v::int(class, r),
        "master_key_changed" => db.master_key_changed = v::date(class, r),
        "name" => db.name = v::text(class, r),
        "name_changed" => db.name_changed = v::date(class, r),
        "protect_notes" => db.protect_notes = boolean(class, r),
        "protect_password" => db.protect_password = boolean(class, r),
        "protect_title" => db.protect_title = boolean(class, r),
        "protect_url" => db.protect_url = boolean(class, r),
        "protect_username" => db.protect_username = boolean(class, r),
        "recycle_bin_changed" => db.recycle_bin_changed = v::date(class, r),
        "recycle_bin_enabled" => db.recycle_bin_enabled = boolean(class, r),
        "recycle_bin_uuid" => db.recycle_bin_uuid = GroupUuid(v::uuid(class, r)),
        _ => panic!("meta field {}", field),
    }
}

pub fn set_group(g: &mut Group, field: &str, class: &str, r: &mut Rng) {
    match field {
        "uuid" => g.uuid = GroupUuid(v::uuid(class, r)),
        "parent" => g.parent = GroupUuid(v::uuid(class, r)),
        "custom_icon_uuid" => g.custom_icon_uuid = optuuid(class, r),
        "def_auto_type_sequence" => g.def_auto_type_sequence = v::text(class, r),
        "enable_auto_type" => g.enable_auto_type = optbool(class, r),
        "enable_searching" => g.enable_searching = optbool(class, r),
        "icon" => g.icon = icon(class, r),
        "is_expanded" => g.is_expanded = boolean(class, r),
        "last_top_visible_entry" => g.last_top_visible_entry = EntryUuid(v::uuid(class, r)),
        "name" => g.name = v::text(class, r),
        "notes" => g.notes = v::text(class, r),
        "creation_time" => g.creation_time = v::date(class, r),
        "expiry_time" => g.expiry_time = v::date(class, r),
        "last_accessed" => g.last_accessed = v::date(class, r),
        "last_modified" => g.last_modified = v::date(class, r),
        "location_changed" => g.location_changed = v::date(class, r),
        "expires" => g.expires = boolean(class, r),
        "usage_count" => g.usage_count = v::int(class, r),
        // nothing in them, some without an identifier, among the others (whose places stay)
        "entries" if class == "bare" => {
            let mut e = entry_new(r);
            if r.bool() {
                e.uuid = EntryUuid::nil();
            }
            g.entries.insert(g.entries.len().min(2), e.clone());
            g.entries.push(e);
        }
        "groups" if class == "bare" => {
            let mut s = group_named(r, "");
            if r.bool() {
                s.uuid = GroupUuid::nil();
            }
            g.groups.insert(g.groups.len().min(2), s.clone());
            let mut t = s.clone();
            t.groups.push(s.clone());
            g.groups.push(t);
            g.groups.push(s);
        }
        "entries" => {
            for _ in 0..count(class) {
                let mut e = entry_new(r);
                e.set_title(v::text("word", r));
                e.set_password(v::text("word", r));
                g.entries.push(e);
            }
        }
        "groups" => {
            for _ in 0..count(class) {
                let n = v::text("word", r);
                g.groups.push(group_named(r, &n));
            }
        }
        "depth" => {
            let n = match class {
                "d5" => 5,
                "d30" => 30,
                "d100" => 100,
                "d180" => 180,
                _ => panic!("depth {}", class),
            };
            let mut at = g;
            for i in 0..n {
                let mut s = group_named(r, &format!("level {}", i));
                let mut e = entry_new(r);
                e.set_password(v::text("word", r));
                s.entries.push(e);
                at.groups.push(s);
                at = at.groups.last_mut().unwrap();
            }
        }
        _ => panic!("group field {}", field),
    }
}

fn string_value(how: &str, class: &str, r: &mut Rng) -> StringValue {
    match (how, class) {
        ("prot", "badutf8") => StringValue::Protected(SecStr::new(v::bytes("badutf8", r))),
        ("prot", _) => StringValue::new(v::text(class, r), true),
        _ => StringValue::new(v::text(class, r), false),
    }
}

pub fn set_entry(e: &mut Entry, field: &str, class: &str, r: &mut Rng) {
    if let Some((what, how)) = field.split_once('.') {
        let key = match what {
            "title" => Some(StringKey::Title),
            "username" => Some(StringKey::Username),
            "password" => Some(StringKey::Password),
            "url" => Some(StringKey::Url),
            "notes" => Some(StringKey::Notes),
            "other" => Some(StringKey::Other(v::text("word", r))),
            _ => None,
        };
        if let Some(k) = key {
            let val = string_value(how, class, r);
            e.strings.insert(k, val);
            return;
        }
        match field {
            "assoc.item" => {
                let (a, b) = item(class);
                e.associations.push(Association { window: v::text(a, r), keystroke_sequence: v::text(b, r) });
            }
            "strings.item.plain" | "strings.item.prot" => {
                let (a, b) = item(class);
                let k = StringKey::Other(v::text(a, r));
                let val = string_value(&field[13..], b, r);
                e.strings.insert(k, val);
            }
            "bin.item.plain" | "bin.item.prot" | "bin.item.ref" => {
                let (a, b) = item(class);
                let k = BinaryKey(v::text(a, r));
                let val = match &field[9..] {
                    "plain" => BinaryValue::Plain(v::bytes(b, r)),
                    "prot" => BinaryValue::Protected(SecStr::new(v::bytes(b, r))),
                    _ => BinaryValue::Ref(BinaryId(v::text(b, r))),
                };
                e.binaries.insert(k, val);
            }
            "bin.plain" => {
                e.binaries
                    .insert(BinaryKey(v::text("word", r)), BinaryValue::Plain(v::bytes(class, r)));
            }
            "bin.prot" => {
                e.binaries.insert(
                    BinaryKey(v::text("word", r)),
                    BinaryValue::Protected(SecStr::new(v::bytes(class, r))),
                );
            }
            "bin.ref" => {
                e.binaries
                    .insert(BinaryKey(v::text("word", r)), BinaryValue::Ref(BinaryId(v::text(class, r))));
            }
            "bin.key" => {
                e.binaries
                    .insert(BinaryKey(v::text(class, r)), BinaryValue::Protected(SecStr::new(r.bytes(11))));
            }
            "strings.key" => {
                let k = match class {
                    "std" => StringKey::Other("Title".into()),
                    "stdlower" => StringKey::Other("password".into()),
                    "stdupper" => StringKey::Other("USERNAME".into()),
                    _ => StringKey::Other(v::text(class, r)),
                };
                let p = r.bool();
                let val = StringValue::new(v::text("phrase", r), p);
                e.strings.insert(k, val);
            }
            _ => panic!("entry field {}", field),
        }
        return;
    }
    match field {
        "uuid" => e.uuid = EntryUuid(v::uuid(class, r)),
        "parent" => e.parent = GroupUuid(v::uuid(class, r)),
        "associations" => {

            for _ in 0..count(class) {
                e.associations.push(Association {
                    window: v::text("phrase", r),
                    keystroke_sequence: v::text("phrase", r),
                });
            }
        }
        "assoc_window" => e.associations.push(Association {
            window: v::text(class, r),
            keystroke_sequence: v::text("word", r),
        }),
        "assoc_keys" => e.associations.push(Association {
            window: v::text("word", r),
            keystroke_sequence: v::text(class, r),
        }),
        "auto_type_def_sequence" => e.auto_type_def_sequence = v::text(class, r),
        "auto_type_enabled" => e.auto_type_enabled = boolean(class, r),
        "auto_type_obfuscation" => {
            e.auto_type_obfuscation = match class {
                "none" => Obfuscation::None,
                "clipboard" => Obfuscation::UseClipboard,
                _ => *r.pick(&[Obfuscation::None, Obfuscation::UseClipboard]),
            }
        }
        "background_color" => e.background_color = v::color(class, r),
        "foreground_color" => e.foreground_color = v::color(class, r),
        "custom_icon_uuid" => e.custom_icon_uuid = optuuid(class, r),
        "icon" => e.icon = icon(class, r),
        "override_url" => e.override_url = v::text(class, r),
        "tags" => e.tags = v::text(class, r),
        "creation_time" => e.creation_time = v::date(class, r),
        "expiry_time" => e.expiry_time = v::date(class, r),
        "last_accessed" => e.last_accessed = v::date(class, r),
        "last_modified" => e.last_modified = v::date(class, r),
        "location_changed" => e.location_changed = v::date(class, r),
        "expires" => e.expires = boolean(class, r),
        "usage_count" => e.usage_count = v::int(class, r),
        "strings" => {
            for i in 0..count(class) {
                let k = StringKey::Other(format!("{}{}", v::text("word", r), i));
                let p = r.bool();
                let val = StringValue::new(v::text("phrase", r), p);
                e.strings.insert(k, val);
            }
        }
        "binaries" => {
            for i in 0..count(class) {
                let n = r.range(0, 70);
                let b = r.bytes(n);
                let val = match r.below(3) {
                    0 => BinaryValue::Plain(b),
                    1 => BinaryValue::Protected(SecStr::new(b)),
                    _ => BinaryValue::Ref(BinaryId(i.to_string())),
                };
                e.binaries.insert(BinaryKey(format!("{}{}", v::text("word", r), i)), val);
            }
        }
        "history" if class == "bare" => {
            let mut h = entry_new(r);
            if r.bool() {
                h.uuid = EntryUuid::nil();
            }
            e.history.insert(e.history.len().min(2), h.clone());
            e.history.push(h);
        }
        "history" => {
            for _ in 0..count(class) {
                let mut h = entry_new(r);
                h.uuid = e.uuid;
                if count(class) < 100 {
                    fill_entry(&mut h, r);
                } else {
                    h.set_password(v::text("word", r));
                }
                e.history.push(h);
            }
        }
        "history.nested" => unreachable!(),
        _ => panic!("entry field {}", field),
    }
}
