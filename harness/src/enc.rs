//! Writes a database as another KDBX 3.1 program might write it: other element
//! orders, layouts, spellings and unknown elements.
use crate::codec::{self, Params, Salsa};
use crate::tables;
use crate::util::*;
use crate::xmlm::{self, Item, Node};
use chrono::{DateTime, Datelike, SecondsFormat, Timelike, Utc};
use kpdb::*;

#[derive(Clone, Debug)]
pub struct Style {
    pub shuffle: bool,
    pub indent: Option<&'static str>,
    pub bool_case: usize,
    pub unknown: usize, // chance in 16 of an unknown element at each place
    pub text: usize,    // 0 escaped, 1 CDATA where possible, 2 numeric references, 3 mixed
    pub gzip_pool: usize, // 0 never, 1 always, 2 mixed
    pub protect_pool: bool,
    pub pim: bool, // ProtectInMemory for protected strings
    pub header_hash: bool,
    pub self_close: bool,
    pub bom: bool,
    pub hshuffle: bool,
    pub dup: bool, // a header field twice, the first with another value
    pub block: usize,
    pub deflate: &'static str,
    pub prolog: &'static str,
    pub dates: &'static str,
    pub look: xmlm::Look,
}

const DEFLATE: &[&str] = &["usual", "stored", "fast", "best", "named", "members", "flushed"];
const DATES: &[&str] = &["zulu", "padded", "offset"];
const PROLOG: &[&str] = &["keepass", "none", "short", "single", "comment", "instruction"];

impl Style {
    pub fn keepass() -> Style {
        Style {
            shuffle: false,
            indent: Some("\t"),
            bool_case: 0,
            unknown: 0,
            text: 0,
            gzip_pool: 1,
            protect_pool: false,
            pim: false,
            header_hash: true,
            self_close: true,
            bom: false,
            hshuffle: false,
            dup: false,
            block: 1 << 20,
            deflate: "usual",
            prolog: "keepass",
            dates: "zulu",
            look: xmlm::Look::default(),
        }
    }
    /// The style that Foreign.tla chose.
    pub fn from(v: &serde_json::Value) -> Style {
        let s = |k: &str| v[k].as_str().unwrap().to_string();
        let b = |k: &str| v[k].as_bool().unwrap();
        Style {
            shuffle: b("shuffle"),
            indent: match s("indent").as_str() {
                "none" => None,
                "tab" => Some("\t"),
                "two" => Some("  "),
                _ => Some("\r\n "),
            },
            bool_case: match s("bools").as_str() {
                "Title" => 0,
                "lower" => 1,
                "upper" => 2,
                _ => 3,
            },
            unknown: v["unknown"].as_u64().unwrap() as usize,
            text: match s("text").as_str() {
                "escaped" => 0,
                "cdata" => 1,
                "references" => 2,
                _ => 3,
            },
            gzip_pool: match s("pool").as_str() {
                "plain" => 0,
                "gzip" => 1,
                _ => 2,
            },
            protect_pool: b("protpool"),
            pim: b("pim"),
            header_hash: b("hash"),
            self_close: b("close"),
            bom: b("bom"),
            hshuffle: b("hshuffle"),
            dup: s("dup") == "header",
            block: v["block"].as_u64().unwrap() as usize,
            deflate: DEFLATE.iter().find(|x| **x == s("deflate")).unwrap(),
            prolog: PROLOG.iter().find(|x| **x == s("prolog")).unwrap(),
            dates: DATES.iter().find(|x| **x == s("dates")).unwrap(),
            look: xmlm::Look {
                spaced: s("tags") == "spaced" || s("tags") == "both",
                single: s("tags") == "single" || s("tags") == "both",
                short: s("tags") == "short",
            },
        }
    }
    pub fn random(r: &mut Rng) -> Style {
        Style {
            shuffle: r.bool(),
            indent: *r.pick(&[None, Some("\t"), Some("  "), Some("\r\n ")]),
            bool_case: r.below(4),
            unknown: *r.pick(&[0, 0, 2, 6]),
            text: r.below(4),
            gzip_pool: r.below(3),
            protect_pool: r.bool(),
            pim: r.bool(),
            header_hash: r.chance(3, 4),
            self_close: r.bool(),
            bom: false,
            hshuffle: false,
            dup: false,
            block: 1 << 20,
            deflate: "usual",
            prolog: "keepass",
            dates: "zulu",
            look: xmlm::Look::default(),
        }
    }
}

pub struct Enc<'a> {
    pub st: Style,
    pub r: &'a mut Rng,
}

fn uuid(b: &[u8]) -> String {
    b64(b)
}

impl<'a> Enc<'a> {
    fn boolean(&mut self, b: bool) -> String {
        let k = if self.st.bool_case == 3 { self.r.below(3) } else { self.st.bool_case };
        match (k, b) {
            (0, true) => "True",
            (0, false) => "False",
            (1, true) => "true",
            (1, false) => "false",
            (_, true) => "TRUE",
            (_, false) => "FALSE",
        }
        .to_string()
    }
    fn optbool(&mut self, b: Option<bool>) -> String {
        match b {
            Some(b) => self.boolean(b),
            None => (*self.r.pick(&["null", "Null"])).to_string(),
        }
    }
    /// A text leaf in the style.
    pub fn text(&mut self, name: &str, t: &str) -> Node {
        let mut n = Node::new(name);
        self.put_text(&mut n, t);
        n
    }
    fn put_text(&mut self, n: &mut Node, t: &str) {
        if t.is_empty() {
            if !self.st.self_close {
                n.kids.push(Item::Raw(String::new()));
            }
            return;
        }
        let k = if self.st.text == 3 { self.r.below(3) } else { self.st.text };
        match k {
            1 if !t.contains("]]>") && !t.contains('\r') => n.kids.push(Item::Raw(format!("<![CDATA[{}]]>", t))),
            2 => {
                let mut s = String::new();
                for (i, c) in t.chars().enumerate() {
                    if i < 2000 && (i % 3 == 0 || "<>&\r".contains(c)) {
                        if i % 2 == 0 {
                            s.push_str(&format!("&#{};", c as u32));
                        } else {
                            s.push_str(&format!("&#x{:X};", c as u32));
                        }
                    } else {
                        s.push_str(&xmlm::esc(&c.to_string()));
                    }
                }
                n.kids.push(Item::Raw(s));
            }
            _ => n.kids.push(Item::T(t.into())),
        }
    }
    fn leaf(&mut self, name: &str, t: &str) -> Node {
        Node::leaf(name, t)
    }
    fn date(&mut self, name: &str, d: &DateTime<Utc>) -> Node {
        let inner = (2..9999).contains(&d.year());
        let t = if self.st.dates == "offset" && inner {
            let minutes = *self.r.pick(&[0, 1, 60, 120, 330, -1, -210, -720, 840]);
            let at = d.with_timezone(&chrono::FixedOffset::east_opt(minutes * 60).unwrap());
            at.to_rfc3339_opts(if d.nanosecond() == 0 { SecondsFormat::Secs } else { SecondsFormat::Nanos }, false)
        } else if self.st.dates == "padded" && inner {
            d.to_rfc3339_opts(SecondsFormat::Nanos, true)
        } else if d.nanosecond() == 0 {
            d.to_rfc3339_opts(SecondsFormat::Secs, true)
        } else {
            format!("{:?}", d)
        };
        Node::leaf(name, &t)
    }
    fn color(&mut self, name: &str, c: &Option<Color>) -> Node {
        match c {
            Some(c) => {
                let t = format!("{:02x}{:02x}{:02x}", c.red, c.green, c.blue);
                let t = if self.r.bool() { t.to_uppercase() } else { t };
                Node::leaf(name, &format!("#{}", t))
            }
            None => Node::new(name),
        }
    }
    pub fn unknown(&mut self, depth: usize) -> Node {
        let names = ["Unknown", "Extension", "KeeX", "PublicCustomData", "QualityCheck", "PreviousParentGroup", "Foo.Bar-1", "SettingsChanged", "DeletedObjects"];
        let mut n = Node::new(*self.r.pick(&names));
        match self.r.below(if depth > 2 { 3 } else { 6 }) {
            0 => {}
            1 => n.kids.push(Item::T("some text".into())),
            2 => {
                n.attrs.push(("Protected".into(), self.boolean(true)));
                let k = self.r.range(0, 40);
                let b = self.r.bytes(k);
                n.kids.push(Item::P(b));
            }
            3 => {
                for _ in 0..self.r.range(1, 3) {
                    let k = self.unknown(depth + 1);
                    n.add(k);
                }
            }
            4 => {
                // known names inside an unknown element mean nothing
                for t in ["Name", "UUID", "Group", "Entry", "String", "Key", "Value", "Notes", "Binary", "Times", "Meta", "Root", "History"] {
                    if self.r.chance(1, 3) {
                        n.add(Node::leaf(t, "x y"));
                    }
                }
            }
            _ => {
                let mut s = Node::new("String");
                s.add(Node::leaf("Key", "Title"));
                let mut v = Node::new("Value").attr("Protected", "True");
                let k = self.r.range(1, 70);
                let b = self.r.bytes(k);
                v.kids.push(Item::P(b));
                s.add(v);
                let mut e = Node::new("Entry");
                e.add(s);
                n.add(e);
            }
        }
        n
    }
    /// Puts children into a container: `free` in any order, `fixed` in order.
    fn fill(&mut self, n: &mut Node, free: Vec<Node>, fixed: Vec<Node>) {
        let mut free = free;
        if self.st.shuffle {
            for i in (1..free.len()).rev() {
                let j = self.r.below(i + 1);
                free.swap(i, j);
            }
        }
        let mut all: Vec<Node> = vec![];
        if self.st.shuffle {
            let (mut a, mut b) = (free.into_iter().peekable(), fixed.into_iter().peekable());
            while a.peek().is_some() || b.peek().is_some() {
                let take_a = b.peek().is_none() || (a.peek().is_some() && self.r.chance(2, 3));
                all.push(if take_a { a.next().unwrap() } else { b.next().unwrap() });
            }
        } else {
            all.extend(free);
            all.extend(fixed);
        }
        for x in all {
            if self.st.unknown > 0 && self.r.chance(self.st.unknown, 16) {
                let u = self.unknown(0);
                n.add(u);
            }
            n.add(x);
        }
        if self.st.unknown > 0 && self.r.chance(self.st.unknown, 16) {
            let u = self.unknown(0);
            n.add(u);
        }
    }
    fn times(&mut self, t: &dyn Times) -> Node {
        let k = vec![
            self.date("CreationTime", &t.creation_time()),
            self.date("ExpiryTime", &t.expiry_time()),
            self.date("LastAccessTime", &t.last_accessed()),
            self.date("LastModificationTime", &t.last_modified()),
            self.date("LocationChanged", &t.location_changed()),
            {
                let b = self.boolean(t.expires());
                self.leaf("Expires", &b)
            },
            self.leaf("UsageCount", &t.usage_count().to_string()),
        ];
        let mut n = Node::new("Times");
        self.fill(&mut n, k, vec![]);
        n
    }
    fn entry(&mut self, e: &Entry, history: bool) -> Node {
        let mut free = vec![
            self.leaf("UUID", &uuid(e.uuid.0.as_bytes())),
            self.leaf("IconID", &tables::icon_code(&e.icon).to_string()),
            self.color("ForegroundColor", &e.foreground_color),
            self.color("BackgroundColor", &e.background_color),
            self.text("OverrideURL", &e.override_url),
            self.text("Tags", &e.tags),
            self.times(e),
        ];
        match &e.custom_icon_uuid {
            Some(u) => free.push(self.leaf("CustomIconUUID", &uuid(u.0.as_bytes()))),
            None => {
                if self.r.bool() {
                    free.push(Node::new("CustomIconUUID"))
                }
            }
        }
        let mut keys: Vec<_> = e.strings.keys().collect();
        keys.sort();
        for k in keys {
            let mut s = Node::new("String");
            let kn = self.text("Key", &k.to_string());
            let v = match &e.strings[k] {
                StringValue::Plain(t) => {
                    let mut v = Node::new("Value");
                    if self.r.chance(1, 8) {
                        let f = self.boolean(false);
                        v.attrs.push(("Protected".into(), f));
                    }
                    self.put_text(&mut v, t);
                    v
                }
                StringValue::Protected(p) => {
                    let t = std::str::from_utf8(p.unsecure()).ok();
                    if self.st.pim && self.r.chance(1, 3) && t.map(|t| t.chars().all(xmlm::legal)).unwrap_or(false) {
                        let b = self.boolean(true);
                        let mut v = Node::new("Value").attr("ProtectInMemory", &b);
                        self.put_text(&mut v, t.unwrap());
                        v
                    } else {
                        let b = self.boolean(true);
                        let mut v = Node::new("Value").attr("Protected", &b);
                        v.kids.push(Item::P(p.unsecure().to_vec()));
                        v
                    }
                }
            };
            self.fill(&mut s, vec![kn, v], vec![]);
            free.push(s);
        }
        let mut keys: Vec<_> = e.binaries.keys().collect();
        keys.sort();
        for k in keys {
            let mut s = Node::new("Binary");
            let kn = self.text("Key", &k.0);
            let v = match &e.binaries[k] {
                BinaryValue::Plain(b) => Node::leaf("Value", &b64(b)),
                BinaryValue::Protected(p) => {
                    let b = self.boolean(true);
                    let mut v = Node::new("Value").attr("Protected", &b);
                    v.kids.push(Item::P(p.unsecure().to_vec()));
                    v
                }
                BinaryValue::Ref(id) => Node::new("Value").attr("Ref", &id.0),
            };
            self.fill(&mut s, vec![kn, v], vec![]);
            free.push(s);
        }
        let mut at = Node::new("AutoType");
        let b = self.boolean(e.auto_type_enabled);
        let k = vec![
            self.leaf("Enabled", &b),
            self.leaf("DataTransferObfuscation", if e.auto_type_obfuscation == Obfuscation::None { "0" } else { "1" }),
            self.text("DefaultSequence", &e.auto_type_def_sequence),
        ];
        let mut assoc = vec![];
        for a in &e.associations {
            let mut n = Node::new("Association");
            let k = vec![self.text("Window", &a.window), self.text("KeystrokeSequence", &a.keystroke_sequence)];
            self.fill(&mut n, k, vec![]);
            assoc.push(n);
        }
        self.fill(&mut at, k, assoc);
        free.push(at);
        if !history && (!e.history.is_empty() || self.r.bool()) {
            let mut h = Node::new("History");
            let es: Vec<Node> = e.history.iter().map(|x| self.entry(x, true)).collect();
            self.fill(&mut h, vec![], es);
            free.push(h);
        }
        let mut n = Node::new("Entry");
        self.fill(&mut n, free, vec![]);
        n
    }
    fn group(&mut self, g: &Group) -> Node {
        let b1 = self.boolean(g.is_expanded);
        let b2 = self.optbool(g.enable_auto_type);
        let b3 = self.optbool(g.enable_searching);
        let mut free = vec![
            self.leaf("UUID", &uuid(g.uuid.0.as_bytes())),
            self.text("Name", &g.name),
            self.text("Notes", &g.notes),
            self.leaf("IconID", &tables::icon_code(&g.icon).to_string()),
            self.times(g),
            self.leaf("IsExpanded", &b1),
            self.text("DefaultAutoTypeSequence", &g.def_auto_type_sequence),
            self.leaf("EnableAutoType", &b2),
            self.leaf("EnableSearching", &b3),
            self.leaf("LastTopVisibleEntry", &uuid(g.last_top_visible_entry.0.as_bytes())),
        ];
        if let Some(u) = &g.custom_icon_uuid {
            free.push(self.leaf("CustomIconUUID", &uuid(u.0.as_bytes())));
        }
        let es: Vec<Node> = g.entries.iter().map(|e| self.entry(e, false)).collect();
        let gs: Vec<Node> = g.groups.iter().map(|s| self.group(s)).collect();
        // entries and groups keep their own order but may be mixed
        let mut kids = vec![];
        if self.st.shuffle {
            let (mut a, mut b) = (es.into_iter().peekable(), gs.into_iter().peekable());
            while a.peek().is_some() || b.peek().is_some() {
                let take_a = b.peek().is_none() || (a.peek().is_some() && self.r.bool());
                kids.push(if take_a { a.next().unwrap() } else { b.next().unwrap() });
            }
        } else {
            kids.extend(es);
            kids.extend(gs);
        }
        let mut n = Node::new("Group");
        self.fill(&mut n, free, kids);
        n
    }
    pub fn tree(&mut self, db: &Database, header_hash: Option<[u8; 32]>) -> Node {
        let mut free = vec![];
        if let Some(h) = header_hash {
            free.push(Node::leaf("HeaderHash", &b64(&h)));
        }
        free.push(self.text("Generator", &db.generator));
        free.push(self.text("DatabaseName", &db.name));
        free.push(self.date("DatabaseNameChanged", &db.name_changed));
        free.push(self.text("DatabaseDescription", &db.description));
        free.push(self.date("DatabaseDescriptionChanged", &db.description_changed));
        free.push(self.text("DefaultUserName", &db.def_username));
        free.push(self.date("DefaultUserNameChanged", &db.def_username_changed));
        free.push(self.leaf("MaintenanceHistoryDays", &db.maintenance_history_days.to_string()));
        free.push(self.color("Color", &db.color));
        free.push(self.date("MasterKeyChanged", &db.master_key_changed));
        free.push(self.leaf("MasterKeyChangeRec", &db.master_key_change_rec.to_string()));
        free.push(self.leaf("MasterKeyChangeForce", &db.master_key_change_force.to_string()));
        let mut mp = Node::new("MemoryProtection");
        let k = vec![
            ("ProtectTitle", db.protect_title),
            ("ProtectUserName", db.protect_username),
            ("ProtectPassword", db.protect_password),
            ("ProtectURL", db.protect_url),
            ("ProtectNotes", db.protect_notes),
        ]
        .into_iter()
        .map(|(t, b)| {
            let b = self.boolean(b);
            Node::leaf(t, &b)
        })
        .collect();
        self.fill(&mut mp, k, vec![]);
        free.push(mp);
        let mut ci = Node::new("CustomIcons");
        let mut keys: Vec<_> = db.custom_icons.keys().collect();
        keys.sort_by_key(|k| *k.0.as_bytes());
        let mut icons = vec![];
        for k in keys {
            let mut n = Node::new("Icon");
            let c = vec![self.leaf("UUID", &uuid(k.0.as_bytes())), self.leaf("Data", &b64(&db.custom_icons[k]))];
            self.fill(&mut n, c, vec![]);
            icons.push(n);
        }
        self.fill(&mut ci, icons, vec![]);
        free.push(ci);
        let b = self.boolean(db.recycle_bin_enabled);
        free.push(self.leaf("RecycleBinEnabled", &b));
        free.push(self.leaf("RecycleBinUUID", &uuid(db.recycle_bin_uuid.0.as_bytes())));
        free.push(self.date("RecycleBinChanged", &db.recycle_bin_changed));
        free.push(self.leaf("EntryTemplatesGroup", &uuid(db.entry_templates_group_uuid.0.as_bytes())));
        free.push(self.date("EntryTemplatesGroupChanged", &db.entry_templates_group_changed));
        free.push(self.leaf("HistoryMaxItems", &db.history_max_items.to_string()));
        free.push(self.leaf("HistoryMaxSize", &db.history_max_size.to_string()));
        free.push(self.leaf("LastSelectedGroup", &uuid(db.last_selected_group.0.as_bytes())));
        free.push(self.leaf("LastTopVisibleGroup", &uuid(db.last_top_visible_group.0.as_bytes())));
        let mut bs = Node::new("Binaries");
        let mut keys: Vec<_> = db.binaries.keys().collect();
        keys.sort();
        let mut bins = vec![];
        for k in keys {
            let data = &db.binaries[k];
            let mut n = Node::new("Binary").attr("ID", &k.0);
            let z = match self.st.gzip_pool {
                0 => false,
                1 => true,
                _ => self.r.bool(),
            };
            if self.st.protect_pool && self.r.bool() {
                let b = self.boolean(true);
                n.attrs.push(("Protected".into(), b));
                n.kids.push(Item::P(data.clone()));
            } else if z {
                let b = self.boolean(true);
                n.attrs.push(("Compressed".into(), b));
                n.kids.push(Item::T(b64(&codec::gz_as(self.st.deflate, data))));
            } else {
                if self.r.bool() {
                    let b = self.boolean(false);
                    n.attrs.push(("Compressed".into(), b));
                }
                n.kids.push(Item::T(b64(data)));
            }
            bins.push(n);
        }
        self.fill(&mut bs, bins, vec![]);
        free.push(bs);
        let mut cd = Node::new("CustomData");
        let mut keys: Vec<_> = db.custom_data.keys().collect();
        keys.sort();
        let mut items = vec![];
        for k in keys {
            let mut n = Node::new("Item");
            let c = vec![self.text("Key", k), self.text("Value", &db.custom_data[k])];
            self.fill(&mut n, c, vec![]);
            items.push(n);
        }
        self.fill(&mut cd, items, vec![]);
        free.push(cd);
        let mut meta = Node::new("Meta");
        self.fill(&mut meta, free, vec![]);
        let mut root = Node::new("Root");
        let g = self.group(&db.root_group);
        let del = Node::new("DeletedObjects");
        root.add(g);
        if self.r.bool() {
            root.add(del);
        }
        let mut doc = Node::new("KeePassFile");
        if self.st.shuffle && self.r.chance(1, 4) {
            doc.add(root);
            doc.add(meta);
        } else {
            doc.add(meta);
            doc.add(root);
        }
        doc
    }
}

/// A complete file in a foreign style.
pub fn file(db: &Database, composite: &[u8; 32], st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut p = Params::new(r, *composite);
    p.comment = db.comment.as_ref().map(|c| c.0.clone());
    p.gzip = db.compression == Compression::GZip;
    p.deflate = st.deflate;
    p.rounds = db.transform_rounds.0;
    p.version = (db.version.major, db.version.minor);
    let mut ids: Vec<u8> = vec![2, 3, 4, 5, 6, 7, 8, 9, 10];
    if p.comment.is_some() {
        ids.push(1);
    }
    if st.hshuffle {
        for i in (1..ids.len()).rev() {
            let j = r.below(i + 1);
            ids.swap(i, j);
        }
    }
    ids.push(0);
    let mut header = p.prologue();
    if st.dup {
        // a decoy somewhere before the field that counts
        let id = *r.pick(&[3u8, 4, 5, 6, 7, 8, 9]);
        let mut d = p.clone();
        d.gzip = !d.gzip;
        d.rounds = 7;
        d.master_seed = r.arr32();
        d.transform_seed = r.arr32();
        d.iv = r.arr16();
        d.psk = r.arr32();
        d.start = r.arr32();
        header.extend(codec::tlv(id, &d.field(id)));
    }
    for &id in &ids {
        header.extend(codec::tlv(id, &p.field(id)));
    }
    let hh = if st.header_hash { Some(sha(&header)) } else { None };
    let mut e = Enc { st: st.clone(), r };
    let mut tree = e.tree(db, hh);
    xmlm::seal(&mut tree, &mut Salsa::new(&p.psk));
    let mut xml = xmlm::document_as(&tree, st.indent, st.look, st.prolog);
    if st.bom {
        let mut b = vec![0xef, 0xbb, 0xbf];
        b.extend(xml);
        xml = b;
    }
    let bs = if xml.len() > 100_000 { st.block.max(4096) } else { st.block };
    p.file(&header, &xml, bs)
}
