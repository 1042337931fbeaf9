//! Keys.tla: which key opens which file. KeyFile.tla: reading and writing key
//! files.
use crate::codec::{self, Params};
use crate::enc::{self, Style};
use crate::m_fields::{open, save};
use crate::util::*;
use crate::xmlm::{self, Item, Node};
use crate::{proj, slots, Ctx, Out};
use kpdb::*;
use secstr::SecStr;
use serde_json::Value;

fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

/// The bytes that the characters of a case stand for.
struct Letters {
    pair: (char, char),
    other: char,
    z: char,
    block: [[u8; 32]; 2],
}

impl Letters {
    fn new(r: &mut Rng) -> Letters {
        Letters {
            pair: *r.pick(&[('a', 'A'), ('q', 'Q'), ('é', 'É'), ('я', 'Я')]),
            other: *r.pick(&['b', '1', '漢', '🔑', '~']),
            z: *r.pick(&['z', '0', ' ', 'ü', '\u{1}']),
            block: [r.arr32(), r.arr32()],
        }
    }
    fn bytes(&self, s: &Value) -> Vec<u8> {
        let mut out = vec![];
        for item in arr(s) {
            if item[0] == "h" {
                out.extend_from_slice(&sha(&self.bytes(&item[1])));
                continue;
            }
            let c = |c: char| c.to_string().into_bytes();
            out.extend(match item[1].as_str().unwrap() {
                "a" => c(self.pair.0),
                "A" => c(self.pair.1),
                "b" => c(self.other),
                "z" => c(self.z),
                "space" => c(' '),
                "newline" => c('\n'),
                "nul" => c('\0'),
                "cr" => c('\r'),
                "tab" => c('\t'),
                "bom" => c('\u{feff}'),
                "nbsp" => c('\u{a0}'),
                "zwj" => c('\u{200d}'),
                "combining" => c('\u{301}'),
                "emoji" => c('\u{1f511}'),
                "quote" => c('"'),
                "percent" => c('%'),
                "backslash" => c('\\'),
                "esc" => c('\u{1b}'),
                "repl" => c('\u{fffd}'),
                "wide" => c('\u{ff21}'),
                "composed" => c('\u{f1}'),
                "decomposed" => "n\u{303}".as_bytes().to_vec(),
                "" => vec![],
                "ideographic space" => c('\u{3000}'),
                "curly quote" => c('\u{201c}'),
                "A ring" => c('\u{c5}'),
                "angstrom" => c('\u{212b}'),
                "mu" => c('\u{3bc}'),
                "micro" => c('\u{b5}'),
                "K" => c('K'),
                "kelvin" => c('\u{212a}'),
                "s" => c('s'),
                "long s" => c('\u{17f}'),
                "ss" => "ss".into(),
                "sharp s" => c('\u{df}'),
                "fi" => "fi".into(),
                "ligature fi" => c('\u{fb01}'),
                "syllable" => c('\u{ac00}'),
                "jamo" => "\u{1100}\u{1161}".into(),
                "hyphen" => c('-'),
                "soft hyphen" => c('\u{ad}'),
                "dash" => c('\u{2013}'),
                "minus" => c('\u{2212}'),
                "1" => c('1'),
                "wide 1" => c('\u{ff11}'),
                "arabic 1" => c('\u{661}'),
                "sigma" => c('\u{3c3}'),
                "final sigma" => c('\u{3c2}'),
                "cr newline" => "\r\n".into(),
                "heart" => c('\u{2764}'),
                "heart emoji" => "\u{2764}\u{fe0f}".into(),
                "i" => c('i'),
                "dotless i" => c('\u{131}'),
                "dotted i" => c('\u{130}'),
                "half" => c('\u{bd}'),
                "1/2" => "1\u{2044}2".into(),
                "cyrillic a" => c('\u{430}'),
                "a latin" => c('a'),
                "zwsp" => c('\u{200b}'),
                "two accents" => "a\u{323}\u{307}".into(),
                "accents swapped" => "a\u{307}\u{323}".into(),
                "omega" => c('\u{3a9}'),
                "ohm" => c('\u{2126}'),
                "block 1" => self.block[0].to_vec(),
                "block 2" => self.block[1].to_vec(),
                x => panic!("character {}", x),
            });
        }
        out
    }
}

/// A key file with the content, obtained in one of the ways there are.
fn key_file(content: &[u8], r: &mut Rng) -> std::result::Result<KeyFile, String> {
    let made = |t: KeyFileType| KeyFile { key: SecStr::new(content.to_vec()), file_type: t };
    let read = |b: Vec<u8>, what: &str| KeyFile::open(&mut &b[..]).map_err(|e| format!("the {} key file does not open: {}", what, e));
    let through = |t: KeyFileType| {
        let mut b = Vec::new();
        made(t).save(&mut b).map_err(|e| e.to_string())?;
        read(b, "saved")
    };
    let k = r.below(if content.len() == 32 { 8 } else if content.is_empty() { 3 } else { 5 });
    match k {
        0 => Ok(made(KeyFileType::Xml)),
        1 => Ok(made(KeyFileType::Hex)),
        2 => Ok(made(KeyFileType::Binary)),
        3 => through(KeyFileType::Xml),
        4 => read(xml_key_file(content, r), "XML"),
        5 => read(content.to_vec(), "binary"),
        6 => read(hex(content).into_bytes(), "hexadecimal"),
        _ => through(if r.bool() { KeyFileType::Hex } else { KeyFileType::Binary }),
    }
}

fn xml_key_file(content: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut root = Node::new("KeyFile");
    let mut meta = Node::new("Meta");
    meta.add(Node::leaf("Version", "1.00"));
    let mut key = Node::new("Key");
    key.add(Node::leaf("Data", &b64(content)));
    root.add(meta).add(key);
    let indent = *r.pick(&[None, Some("\t"), Some(" ")]);
    let mut b = xmlm::document(&root, indent);
    // not the length of one of the other formats
    while b.len() == 32 || b.len() == 64 {
        b.push(b'\n');
    }
    b
}

pub fn keys(case: &Value, ctx: &mut Ctx) -> Out {
    let l = Letters::new(&mut ctx.rng);
    let r = &mut ctx.rng;
    let mut db: Option<Database> = None;
    // the file, and what is in it
    let mut files: Vec<(Vec<u8>, Value)> = vec![];
    for (step, o) in arr(&case["hist"]).iter().enumerate() {
        let name = o["op"].as_str().unwrap();
        let (p, f) = (l.bytes(&o["k"]["p"]), l.bytes(&o["k"]["f"]));
        let text = String::from_utf8(p).unwrap();
        let at = |s: String| format!("step {}, {}: {}", step, name, s);
        let (key, bytes) = match o["k"]["kind"].as_str().unwrap() {
            "password" => {
                let k = if r.bool() { CompositeKey::from_password(text.as_str()) } else { CompositeKey::from_password(text.clone()) };
                (k, codec::composite(Some(&text), None))
            }
            "file" => (CompositeKey::from_key_file(key_file(&f, r).map_err(at)?), codec::composite(None, Some(&f))),
            _ => {
                let kf = key_file(&f, r).map_err(at)?;
                let k = if r.bool() { CompositeKey::from_both(text.as_str(), kf) } else { CompositeKey::from_both(text.clone(), kf) };
                (k, codec::composite(Some(&text), Some(&f)))
            }
        };
        if key.unsecure() != bytes {
            return Err(at(format!("the key is {} and not {}", hex(&key.unsecure()), hex(&bytes))));
        }
        let rounds = TransformRounds(match arr(&o["rounds"]).first() {
            Some(n) => n.as_u64().unwrap(),
            None => *r.pick(&[0, 1, 2, 3, 17, 256, 257, 1000]),
        });
        match name {
            "set" => match &mut db {
                Some(d) => d.composite_key = key,
                None => {
                    let mut d = Database::new(&key);
                    d.transform_rounds = rounds;
                    let mut e = Entry::new();
                    e.set_title(format!("entry {}", r.below(1000)));
                    e.set_password("secret");
                    d.root_group.add_entry(e);
                    db = Some(d);
                }
            },
            "save" => {
                let d = db.as_mut().unwrap();
                d.transform_rounds = rounds;
                d.name = format!("saved in step {}", step);
                let file = save(d).map_err(|e| at(e.to_string()))?;
                if d.composite_key != key {
                    return Err(at("the database has another key now".into()));
                }
                let dec = codec::decode(&file, &bytes).map_err(|e| at(format!("another program cannot open the file: {}", e)))?;
                let _ = dec;
                files.push((file, proj::normal(proj::database(d))));
            }
            "foreign" => {
                let mut d = slots::base("plain", r);
                d.transform_rounds = rounds;
                let st = Style::random(r);
                let file = enc::file(&d, &bytes, &st, r);
                // its own reading is the reference: the content is no matter here
                files.push((file, Value::Null));
            }
            "open" => {
                let i = o["file"].as_u64().unwrap() as usize - 1;
                let res = open(&files[i].0, &key);
                match (res, o["ok"].as_bool().unwrap()) {
                    (Ok(d), true) => {
                        if d.composite_key != key {
                            return Err(at("the opened database has another key".into()));
                        }
                        if let Some(m) = show_diff(&files[i].1, &proj::normal(proj::database(&d))).filter(|_| !files[i].1.is_null()) {
                            return Err(at(m));
                        }
                        db = Some(d);
                    }
                    (Err(e), true) => return Err(at(format!("the right key does not open file {}: {}", i + 1, e))),
                    (Ok(_), false) => return Err(at(format!("a wrong key opens file {}", i + 1))),
                    (Err(_), false) => {}
                }
            }
            _ => panic!("operation {}", name),
        }
        ctx.count.entry(format!("{} {}", name, o["ok"])).and_modify(|n| *n += 1).or_insert(1);
    }
    Ok(())
}

// ------------------------------------------------------------- key files

fn plain(f: &Value, r: &mut Rng) -> Vec<u8> {
    let n = f["len"].as_u64().unwrap() as usize;
    let what = f["what"].as_str().unwrap();
    let mut b: Vec<u8> = match what {
        "random" => r.bytes(n),
        "zero" => vec![0; n],
        "high" => (0..n).map(|_| 0x80 | r.below(128) as u8).collect(),
        "lower hex" => (0..n).map(|_| *r.pick(b"0123456789abcdef")).collect(),
        "upper hex" => (0..n).map(|_| *r.pick(b"0123456789ABCDEF")).collect(),
        "mixed hex" => (0..n).map(|_| *r.pick(b"0123456789abcdefABCDEF")).collect(),
        "digits" => (0..n).map(|_| b'0' + r.below(10) as u8).collect(),
        "base64" => (0..n).map(|_| *r.pick(b"ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ+/0")).collect(),
        "text" => (0..n).map(|i| b"the quick brown fox, jumps "[i % 27]).collect(),
        "space" => vec![b' '; n],
        "newline" => vec![b'\n'; n],
        "xml" => {
            let s = b"<?xml version=\"1.0\"?><KeyFile><Meta><Version>1.00</Version></Meta><Key>";
            (0..n).map(|i| *s.get(i).unwrap_or(&b' ')).collect()
        }
        _ => panic!("content {}", what),
    };
    if n == 64 && what == "random" {
        b[r.below(64)] = b'x';
    }
    let at = f["at"].as_u64().unwrap() as usize;
    if at > 0 {
        let i = at - 1;
        match f["odd"].as_str().unwrap() {
            "g" => b[i] = b'g',
            "G" => b[i] = b'G',
            "space" => b[i] = b' ',
            "newline" => b[i] = b'\n',
            "nul" => b[i] = 0,
            "plus" => b[i] = b'+',
            "minus" => b[i] = b'-',
            "x" => b[i] = b'x',
            "colon" => b[i] = b':',
            "at" => b[i] = b'@',
            "grave" => b[i] = b'`',
            "slash" => b[i] = b'/',
            "dot" => b[i] = b'.',
            "high" => b[i] = 0x80 | r.below(128) as u8,
            "two bytes" => {
                let j = i.min(n - 2);
                b[j..j + 2].copy_from_slice("é".as_bytes());
            }
            x => panic!("character {}", x),
        }
    }
    b
}

fn unknown(name_ok: bool, r: &mut Rng) -> Node {
    let names: &[&str] = if name_ok { &["Extra", "Foo", "Checksum", "key", "data", "KEY", "Keys", "MetaData", "Datum"] } else { &["Foo"] };
    let mut n = Node::new(*r.pick(names));
    match r.below(4) {
        0 => {}
        1 => n.kids.push(Item::T("QUJD".into())),
        2 => {
            n.add(Node::leaf("Inner", "x"));
        }
        _ => n = n.attr("Version", "2.00"),
    }
    n
}

fn text_leaf(name: &str, t: &str, r: &mut Rng) -> Node {
    let mut n = Node::new(name);
    match r.below(4) {
        0 if !t.is_empty() => n.kids.push(Item::Raw(format!("<![CDATA[{}]]>", t))),
        1 if !t.is_empty() => {
            let i = r.below(t.len());
            n.kids.push(Item::Raw(format!("{}&#{};{}", &t[..i], t.as_bytes()[i], &t[i + 1..])));
        }
        _ => n = Node::leaf(name, t),
    }
    if r.chance(1, 4) {
        n = n.attr("note", "x");
    }
    n
}

fn document(f: &Value, key: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut root = Node::new(match f["root"].as_str().unwrap() {
        "other" => *r.pick(&["Keyfile", "keyfile", "KeyFiles", "Key", "KeePassFile", "Meta"]),
        n => n,
    });
    let data = b64(key);
    for k in arr(&f["kids"]) {
        let what = k["what"].as_str().unwrap();
        match k["el"].as_str().unwrap() {
            "Meta" => {
                let mut m = Node::new("Meta");
                let wrong = *r.pick(&["2.00", "2.0", "0.99", "1.01", "10.00", "x"]);
                match what {
                    "1.00" => {
                        m.add(text_leaf("Version", "1.00", r));
                    }
                    "other version" => {
                        m.add(text_leaf("Version", wrong, r));
                    }
                    "no version" => {
                        m.add(unknown(true, r));
                    }
                    "unknown then 1.00" => {
                        m.add(unknown(true, r)).add(text_leaf("Version", "1.00", r));
                    }
                    "1.00 then unknown" => {
                        m.add(text_leaf("Version", "1.00", r)).add(unknown(true, r));
                    }
                    "unknown then other version" => {
                        m.add(unknown(true, r)).add(text_leaf("Version", wrong, r));
                    }
                    "empty element" => {}
                    x => panic!("meta {}", x),
                }
                root.add(m);
            }
            "Key" => {
                let mut m = Node::new("Key");
                match what {
                    "data" => {
                        m.add(text_leaf("Data", &data, r));
                    }
                    "unknown then data" => {
                        m.add(unknown(true, r)).add(text_leaf("Data", &data, r));
                    }
                    "data then unknown" => {
                        m.add(text_leaf("Data", &data, r)).add(unknown(true, r));
                    }
                    "nested unknown then data" => {
                        let mut u = Node::new("Outer");
                        u.add(unknown(true, r)).add(unknown(true, r));
                        m.add(u).add(text_leaf("Data", &data, r));
                    }
                    "text around data" => {
                        m.kids.push(Item::T("QUJD ".into()));
                        m.add(text_leaf("Data", &data, r));
                        m.kids.push(Item::T(" REVG".into()));
                    }
                    "no data" => {
                        m.add(unknown(true, r));
                    }
                    "empty element" => {}
                    "bad base64" => {
                        let bad = match r.below(5) {
                            0 => format!("{}*", &data[..data.len() - 1]),
                            1 => format!("*{}", &data[1..]),
                            2 => "!".into(),
                            3 => format!("{}é", data),
                            _ => "A".to_string(),
                        };
                        m.add(Node::leaf("Data", &bad));
                    }
                    x => panic!("key {}", x),
                }
                root.add(m);
            }
            _ => match what {
                "unknown" => {
                    root.add(unknown(true, r));
                }
                "unknown nested" => {
                    let mut u = Node::new("Outer");
                    u.add(unknown(true, r)).add(unknown(true, r));
                    root.add(u);
                }
                "text" => root.kids.push(Item::T(" stray QUJD ".into())),
                _ => root.kids.push(Item::Raw("<!-- <Key><Data>QUJD</Data></Key> -->".into())),
            },
        }
    }
    let mut body = String::new();
    xmlm::write(&root, *r.pick(&[None, Some("\t"), Some("  ")]), 0, &mut body);
    let start = match r.below(4) {
        0 => "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n",
        1 => "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>",
        2 => "<!-- a comment -->\n",
        _ => "",
    };
    let cut = |s: &str, at: usize| s[..(0..=at).rev().find(|i| s.is_char_boundary(*i)).unwrap()].to_string();
    let s = match f["flaw"].as_str().unwrap() {
        "none" => format!("{}{}{}", start, body, if r.bool() { "\n" } else { "" }),
        "cut in the start tag" => start.to_string() + &cut(&body, 1 + r.below(7)),
        "cut in the content" => start.to_string() + &cut(&body, r.range(9, body.len() - 11)),
        "cut before the last tag" => start.to_string() + &body[..body.rfind("</").unwrap()],
        "wrong end tag" => start.to_string() + &body[..body.rfind("</").unwrap()] + *r.pick(&["</Keyfile>", "</Key>", "</>"]),
        "two roots" => format!("{}{}{}", start, body, body),
        "no root" => start.to_string(),
        "text before" => format!("{}junk{}", if r.bool() { start } else { "" }, body),
        "text after" => format!("{}{}junk", start, body),
        "bare ampersand" => format!("{}{}", start, body.replacen("</", "&</", 1)),
        "attribute twice" => format!("{}{}", start, body.replacen("<KeyFile", "<KeyFile a=\"1\" a=\"2\"", 1)),
        "no quotes" => format!("{}{}", start, body.replacen("<KeyFile", "<KeyFile a=1", 1)),
        x => panic!("flaw {}", x),
    };
    let mut b = s.into_bytes();
    if r.chance(1, 6) {
        b.splice(0..0, [0xef, 0xbb, 0xbf]);
    }
    while b.len() == 32 || b.len() == 64 {
        b.push(b'\n');
    }
    b
}

fn type_name(t: &KeyFileType) -> &'static str {
    match t {
        KeyFileType::Binary => "binary",
        KeyFileType::Hex => "hex",
        KeyFileType::Xml => "xml",
    }
}

pub fn key_files(case: &Value, ctx: &mut Ctx) -> Out {
    let r = &mut ctx.rng;
    let f = &case["file"];
    let want = case["key"]["type"].as_str().unwrap();
    let n = case["key"]["len"].as_u64().unwrap() as usize;
    let (kf, bytes) = if case["part"] == "made" {
        let (new, t) = match want.strip_prefix("new ") {
            Some(t) => (true, if t.is_empty() { "xml" } else { t }),
            None => (false, want),
        };
        let kf = if new {
            match want {
                "new " => KeyFile::new(),
                "new binary" => KeyFile::new_binary(),
                "new hex" => KeyFile::new_hex(),
                _ => KeyFile::new_xml(),
            }
            .map_err(|e| format!("{}: {}", want, e))?
        } else {
            let t = match t {
                "binary" => KeyFileType::Binary,
                "hex" => KeyFileType::Hex,
                _ => KeyFileType::Xml,
            };
            KeyFile { key: SecStr::new(r.bytes(n)), file_type: t }
        };
        if type_name(&kf.file_type) != t || kf.key.unsecure().len() != n {
            return Err(format!("{} gives a {} key of {} bytes", want, type_name(&kf.file_type), kf.key.unsecure().len()));
        }
        let bytes = kf.key.unsecure().to_vec();
        (kf, bytes)
    } else {
        let len = f["len"].as_u64().unwrap() as usize;
        let (b, key) = if f["plain"] == true {
            let b = plain(f, r);
            let key = match want {
                "hex" => unhex(&String::from_utf8(b.clone()).unwrap().to_lowercase()),
                _ => b.clone(),
            };
            (b, key)
        } else {
            let key = r.bytes(len);
            (document(f, &key, r), key)
        };
        let show = || String::from_utf8_lossy(&b).into_owned();
        match (KeyFile::open(&mut &b[..]), want) {
            (Err(_), "error") => {
                ctx.add("rejected", 1);
                return Ok(());
            }
            (Ok(k), "error") => return Err(format!("accepted as a {} key file: {:?}", type_name(&k.file_type), show())),
            (Err(e), _) => return Err(format!("rejected with {}: {:?}", e, show())),
            (Ok(k), _) => {
                if type_name(&k.file_type) != want {
                    return Err(format!("read as {} and not {}: {:?}", type_name(&k.file_type), want, show()));
                }
                if k.key.unsecure() != &key[..] {
                    return Err(format!("the key is {} and not {} in {:?}", hex(k.key.unsecure()), hex(&key), show()));
                }
                (k, key)
            }
        }
    };
    // save, look at the file, and open it
    let t = type_name(&kf.file_type);
    let before = kf.clone();
    let mut saved = Vec::new();
    kf.save(&mut saved).map_err(|e| format!("the {} key file is not saved: {}", t, e))?;
    if kf != before {
        return Err("saving changes the key file".into());
    }
    let in_file = match t {
        "binary" => saved.clone(),
        "hex" => {
            if saved.len() != 2 * bytes.len() || !saved.iter().all(|c| c.is_ascii_hexdigit()) {
                return Err(format!("not a hexadecimal key file: {:?}", String::from_utf8_lossy(&saved)));
            }
            unhex(&String::from_utf8(saved.clone()).unwrap().to_lowercase())
        }
        _ => {
            let root = xmlm::parse(&saved).map_err(|e| format!("not well-formed: {}", e))?;
            let child = |n: &Node, name: &str| -> std::result::Result<Node, String> {
                let v: Vec<&Node> = n.elems().filter(|x| x.name == name).collect();
                if v.len() == 1 { Ok(v[0].clone()) } else { Err(format!("{} elements {} in {}", v.len(), name, n.name)) }
            };
            if root.name != "KeyFile" {
                return Err(format!("the root element is {}", root.name));
            }
            let version = child(&child(&root, "Meta")?, "Version")?.text()?;
            if version != "1.00" {
                return Err(format!("the version is {:?}", version));
            }
            unb64(&child(&child(&root, "Key")?, "Data")?.text()?).ok_or("the data is not base64")?
        }
    };
    if in_file != bytes {
        return Err(format!("the {} file holds {} and not {}", t, hex(&in_file), hex(&bytes)));
    }
    let again = KeyFile::open(&mut &saved[..]).map_err(|e| format!("the saved {} key file does not open: {}", t, e))?;
    let wa = &case["again"];
    if type_name(&again.file_type) != wa["type"].as_str().unwrap() || again.key.unsecure() != &bytes[..] {
        return Err(format!("saved {} {} and opened {} {}", t, hex(&bytes), type_name(&again.file_type), hex(again.key.unsecure())));
    }
    // as keys they are the same
    let (a, b) = (CompositeKey::from_key_file(kf), CompositeKey::from_key_file(again));
    if a != b || a.unsecure() != codec::composite(None, Some(&bytes)) {
        return Err("the composite key is another".into());
    }
    ctx.add(t, 1);
    let _ = Params::new;
    Ok(())
}
