//! Malformed.tla: input that nobody wrote on purpose. Opening it has to give an
//! answer; which one does not matter here.
use crate::codec::{self, Params};
use crate::enc::{Enc, Style};
use crate::util::*;
use crate::{slots, values, xmlm, Ctx, Out};
use kpdb::*;
use serde_json::Value;

fn way(ctx: &str) -> Vec<&'static str> {
    let (m, e) = (["KeePassFile", "Meta"], ["KeePassFile", "Root", "Group", "Entry"]);
    let on = |a: &[&'static str], b: &[&'static str]| a.iter().chain(b).copied().collect::<Vec<_>>();
    match ctx {
        "File" | "KeyFile" => vec![],
        "KeePassFile" => vec!["KeePassFile"],
        "Meta" => m.to_vec(),
        "MemoryProtection" => on(&m, &["MemoryProtection"]),
        "Binaries" => on(&m, &["Binaries"]),
        "CustomData" => on(&m, &["CustomData"]),
        "Item" => on(&m, &["CustomData", "Item"]),
        "CustomIcons" => on(&m, &["CustomIcons"]),
        "Icon" => on(&m, &["CustomIcons", "Icon"]),
        "Root" => e[..2].to_vec(),
        "Group" => e[..3].to_vec(),
        "Entry" => e.to_vec(),
        "Times" => on(&e, &["Times"]),
        "AutoType" => on(&e, &["AutoType"]),
        "Association" => on(&e, &["AutoType", "Association"]),
        "String" => on(&e, &["String"]),
        "Binary" => on(&e, &["Binary"]),
        "History" => on(&e, &["History"]),
        "HistoryEntry" => on(&e, &["History", "Entry"]),
        "Unknown" => on(&e[..3], &["Unknown"]),
        "KeyRoot" => vec!["KeyFile"],
        "KeyMeta" => vec!["KeyFile", "Meta"],
        "KeyKey" => vec!["KeyFile", "Key"],
        _ => panic!("context {}", ctx),
    }
}

fn is_key(ctx: &str) -> bool {
    ctx.starts_with("Key") && ctx != "KeePassFile"
}

/// What follows a context that is cut off, so that opening gets further.
fn before(ctx: &str) -> &'static str {
    match ctx {
        "KeyKey" => "<Meta><Version>1.00</Version></Meta>",
        _ => "",
    }
}

fn text(r: &mut Rng) -> String {
    match r.below(9) {
        0 => "true".into(),
        1 => format!("{}", r.u64() as i32),
        2 => "2017-05-17T12:34:56Z".into(),
        3 => "#12aBcD".into(),
        4 => {
            let n = *r.pick(&[0, 1, 16, 32, 65]);
            b64(&r.bytes(n))
        }
        5 => "1.00".into(),
        6 => "Title".into(),
        _ => values::word(r, 6),
    }
}

fn mark(m: &str, stack: &mut Vec<String>, out: &mut Vec<u8>, r: &mut Rng) {
    let s: String = match m {
        "text" => text(r),
        "space" => " \r\n\t ".into(),
        "cdata" => format!("<![CDATA[{}<&]]>", text(r)),
        "comment" => format!("<!-- {} -->", text(r)),
        "pi" => format!("<?{} {}?>", values::word(r, 3), text(r)),
        "entity" => (*r.pick(&["&amp;", "&#65;", "&#x1F600;", "&lt;", "&#0;", "&#x110000;", "&#xD800;", "&#99999999999;", "&nosuch;", "&#;", "&#x;", "&;"])).into(),
        "amp" => "&".into(),
        "less" => "<".into(),
        "doctype" => (*r.pick(&["<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY x \"y\">]>", "<!DOCTYPE a [<!ENTITY x \"&x;&x;\">]>&x;", "<!DOCTYPE", "<!ELEMENT a>"])).into(),
        "declaration" => (*r.pick(&["<?xml version=\"1.0\"?>", "<?xml version=\"9\" encoding=\"x\"?>", "<?xml?>"])).into(),
        "nul" => "\0".into(),
        "high" => {
            let n = r.range(1, 4);
            out.extend((0..n).map(|_| 128 | r.u64() as u8));
            return;
        }
        "half tag" => (*r.pick(&["<a", "<a b", "<a b=", "<a b='", "</", "</a", "<a/", "<!", "<![CDATA[", "<!--", "<?", "< a>"])).into(),
        "two attributes" => "<a b='1' b='2'/>".into(),
        "no quotes" => "<a b=1/>".into(),
        "colon" => (*r.pick(&["<:a/>", "<a:/>", "<a:b/>", "<a:b:c/>", "<a :b='1'/>", "<:/>"])).into(),
        "namespace" => (*r.pick(&["<a xmlns='b'/>", "<a xmlns=''/>", "<a xmlns:b=''/>", "<a xmlns:b='c' b:d='e'/>", "<a xmlns:xml='q'/>", "<x:a xmlns:x='c'></x:a>"])).into(),
        "long name" => format!("<{0}></{0}>", "n".repeat(70000)),
        "long text" => "t ".repeat(70000),
        "wrong close" => "</Wrong>".into(),
        "close too many" => {
            let mut s = String::new();
            while let Some(n) = stack.pop() {
                s += &format!("</{}>", n);
            }
            s + "</KeePassFile>"
        }
        "bom" => "\u{feff}".into(),
        _ => panic!("mark {}", m),
    };
    out.extend(s.as_bytes());
}

fn start(name: &str, protected: bool, r: &mut Rng) -> String {
    let p = if protected { " Protected=\"True\"" } else { "" };
    let q = if name == "Binary" && r.bool() { " ID=\"0\"" } else { "" };
    format!("<{}{}{}>", name, q, p)
}

/// A document out of tokens.
fn soup(case: &Value, toks: &Value, r: &mut Rng) -> Vec<u8> {
    let ctx = case["ctx"].as_str().unwrap();
    let mut out: Vec<u8> = vec![];
    if r.bool() {
        out.extend(b"<?xml version=\"1.0\" encoding=\"utf-8\"?>");
    }
    let gap = *r.pick(&["", "", "\n"]);
    let mut stack: Vec<String> = vec![];
    for n in way(ctx) {
        out.extend(start(n, false, r).as_bytes());
        out.extend(gap.as_bytes());
        if n == "KeyFile" {
            out.extend(before(ctx).as_bytes());
        }
        stack.push(n.into());
    }
    for t in toks.as_array().unwrap() {
        let (op, name) = (t["op"].as_str().unwrap(), t["name"].as_str().unwrap());
        match op {
            "open" | "open protected" => {
                out.extend(start(name, op != "open", r).as_bytes());
                stack.push(name.into());
            }
            "empty" => out.extend(format!("<{}/>", name).as_bytes()),
            "leaf" => {
                let t = text(r);
                out.extend(format!("{}{}</{}>", start(name, false, r), t, name).as_bytes())
            }
            "leaf protected" => {
                let n = r.below(70);
                let t = b64(&r.bytes(n));
                out.extend(format!("{}{}</{}>", start(name, true, r), t, name).as_bytes())
            }
            "close" => {
                let n = stack.pop().unwrap_or("Unknown".into());
                out.extend(format!("</{}>", n).as_bytes())
            }
            _ => mark(name, &mut stack, &mut out, r),
        }
        out.extend(gap.as_bytes());
    }
    if case["end"] == "closed" {
        while let Some(n) = stack.pop() {
            out.extend(format!("</{}>", n).as_bytes());
        }
    }
    out
}

fn nest(case: &Value, r: &mut Rng) -> Vec<u8> {
    let ctx = case["ctx"].as_str().unwrap();
    let (name, depth, shape) = (case["name"].as_str().unwrap(), case["n"].as_u64().unwrap() as usize, case["what"].as_str().unwrap());
    let mut out = String::new();
    let w = way(ctx);
    for n in &w {
        out += &start(n, false, r);
        if *n == "KeyFile" {
            out += before(ctx);
        }
    }
    let open = start(name, r.chance(1, 4), r);
    for i in 0..depth {
        out += &open;
        if shape == "siblings" && i % 7 == 0 && depth <= 10000 {
            out += &format!("<Unknown>{}</Unknown>", i);
        }
    }
    match shape {
        "empty inside" => out += "<Unknown/>",
        "text inside" => out += &text(r),
        _ => {}
    }
    if shape != "open" {
        let close = format!("</{}>", name);
        for _ in 0..depth {
            out += &close;
        }
        for n in w.iter().rev() {
            out += &format!("</{}>", n);
        }
    }
    out.into_bytes()
}

fn content(what: &str, r: &mut Rng) -> Vec<u8> {
    let z = |b: &[u8]| b64(&codec::gz(b));
    let s: String = match what {
        "nothing" => "".into(),
        "space" => (*r.pick(&[" ", "\n\t", "\u{a0}", "\u{2003}"])).into(),
        "text" => values::word(r, 12),
        "zero" => "0".into(),
        "minus" => (*r.pick(&["-", "-1", "--1", "-0"])).into(),
        "plus" => (*r.pick(&["+", "+1", "++1"])).into(),
        "2^31" => "2147483648".into(),
        "-2^31" => "-2147483648".into(),
        "-2^31-1" => "-2147483649".into(),
        "2^63" => "9223372036854775808".into(),
        "2^64" => "18446744073709551616".into(),
        "many digits" => "9".repeat(5000),
        "fraction" => "1.5".into(),
        "exponent" => "1e9".into(),
        "arabic digits" => "\u{661}\u{662}".into(),
        "hex" => "0x1F".into(),
        "true" => "true".into(),
        "TRUE" => (*r.pick(&["TRUE", "tRuE", "\u{130}", "FALSE", "NULL"])).into(),
        "null" => "null".into(),
        "nul" => "a\0b".into(),
        "one base64" => "A".into(),
        "two base64" => (*r.pick(&["AA", "AB", "AA="])).into(),
        "three base64" => (*r.pick(&["AAA", "AAB", "AAAA=", "AAB="])).into(),
        "base64 over" => "AAAA====".into(),
        "padding only" => (*r.pick(&["=", "==", "===", "===="])).into(),
        "padding inside" => "AA==AA==".into(),
        "base64 url" => "-_-_".into(),
        "not utf8" => b64(&[0xff, 0xfe, 0xc0]),
        "gzip" => z(b"content"),
        "gzip cut" => {
            let b = codec::gz(b"some longer content, content");
            let n = r.below(b.len());
            b64(&b[..n])
        }
        "gzip wrong" => {
            let mut b = codec::gz(b"some longer content, content");
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            b64(&b)
        }
        "gzip of nothing" => z(b""),
        "gzip junk" => {
            let mut b = codec::gz(b"some content");
            b.extend(r.bytes(9));
            b64(&b)
        }
        "date" => "2017-05-17T12:34:56Z".into(),
        "month 13" => "2017-13-17T12:34:56Z".into(),
        "day 30" => "2017-02-30T12:34:56Z".into(),
        "hour 25" => "2017-05-17T25:34:56Z".into(),
        "second 60" => "2016-12-31T23:59:60Z".into(),
        "second 61" => "2016-12-31T23:59:61Z".into(),
        "year 0" => "0000-01-01T00:00:00Z".into(),
        "year -1" => "-0001-01-01T00:00:00Z".into(),
        "year 10000" => "+10000-01-01T00:00:00Z".into(),
        "year 262143" => (*r.pick(&["+262143-12-31T23:59:59Z", "+262142-12-31T23:59:59-23:59", "-262144-01-01T00:00:00+23:59", "-262143-01-01T00:00:00+23:59"])).into(),
        "year 999999" => "+999999-01-01T00:00:00Z".into(),
        "no zone" => "2017-05-17T12:34:56".into(),
        "zone" => "2017-05-17T12:34:56-23:59".into(),
        "wide zone" => "2017-05-17T12:34:56+99:99".into(),
        "long fraction" => "2017-05-17T12:34:56.12345678901234567890123Z".into(),
        "date and junk" => "2017-05-17T12:34:56Z.".into(),
        "color" => "#a0B1c2".into(),
        "color short" => "#a0B1c"[..r.below(7)].into(),
        "color long" => "#a0B1c2f".into(),
        "color sign" => (*r.pick(&["#+1+2+3", "#-1-2-3", "# 1 2 3"])).into(),
        "color multi" => (*r.pick(&["#\u{e9}bcde", "#a\u{e9}bcd", "#ab\u{e9}cd", "#abc\u{e9}d", "#abcd\u{e9}"])).into(),
        "color multi 2" => (*r.pick(&["#\u{20ac}bcd", "#a\u{20ac}cd", "#abc\u{20ac}", "\u{20ac}abcd"])).into(),
        "color multi 3" => (*r.pick(&["\u{e9}abcde", "#\u{1f600}ab", "#ab\u{1f600}", "\u{1f600}abc"])).into(),
        "high" => "\u{fffd}\u{10ffff}".into(),
        "emoji" => "\u{1f600}".repeat(40),
        "entity nul" => "&#0;".into(),
        "entity huge" => (*r.pick(&["&#x110000;", "&#xD800;", "&#xFFFFFFFFFF;"])).into(),
        "entity unknown" => "&abc;".into(),
        "cdata" => "<![CDATA[a]]>".into(),
        "element" => "<Value>a</Value>".into(),
        "elements" => "<Key><Group/></Key>a<Root>b</Root>".into(),
        w if w.starts_with("multi ") => {
            let mut it = w[6..].split(' ');
            let t: String = match it.next().unwrap() {
                "color" => "#a0B1c2".into(),
                "date" => "2017-05-17T12:34:56Z".into(),
                "uuid" => b64(&r.bytes(16)),
                "number" => "12345".into(),
                _ => (*r.pick(&["True", "False", "null"])).into(),
            };
            let k: usize = it.next().unwrap().parse().unwrap();
            // the first places one by one, then anywhere
            let at = if k < 7 && t.len() < 8 { k % t.len() } else { r.below(t.len()) };
            let c = *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}']);
            let end = if r.bool() { at + 1 } else { (at + c.len_utf8()).min(t.len()) };
            format!("{}{}{}", &t[..at], c, &t[end..])
        }
        w => match w.strip_prefix("bytes ") {
            Some(n) => b64(&r.bytes(n.parse().unwrap())),
            None => panic!("value {}", w),
        },
    };
    s.into_bytes()
}

fn value(case: &Value, r: &mut Rng) -> Vec<u8> {
    let ctx = case["ctx"].as_str().unwrap();
    let name = case["name"].as_str().unwrap();
    let mut out: Vec<u8> = vec![];
    let w = way(ctx);
    for n in &w {
        out.extend(start(n, false, r).as_bytes());
        if *n == "KeyFile" {
            out.extend(before(ctx).as_bytes());
        }
    }
    if name == "Value" && r.bool() {
        out.extend(b"<Key>k</Key>");
    }
    let word = |r: &mut Rng| *r.pick(&["True", "true", "False", "null", "", "x", "\u{130}", "1"]);
    let attrs = match case["end"].as_str().unwrap() {
        "none" => "".to_string(),
        "Protected" => " Protected=\"True\"".into(),
        "Compressed" => " Compressed=\"True\"".into(),
        "both" => " Compressed=\"True\" Protected=\"True\"".into(),
        "Ref" => format!(" Ref=\"{}\"", text(r)),
        "wrong" => format!(" Protected=\"{}\" Compressed=\"{}\"", word(r), word(r)),
        "ProtectInMemory" => format!(" ProtectInMemory=\"{}\"", word(r)),
        _ => format!(" ID=\"{}\" id=\"{}\"", text(r), text(r)),
    };
    out.extend(format!("<{}{}>", name, attrs).as_bytes());
    out.extend(content(case["what"].as_str().unwrap(), r));
    out.extend(format!("</{}>", name).as_bytes());
    if name == "Value" && r.bool() {
        out.extend(b"<Key>Title</Key>");
    }
    for n in w.iter().rev() {
        out.extend(format!("</{}>", n).as_bytes());
    }
    out
}

fn params(r: &mut Rng) -> Params {
    let mut p = Params::new(r, slots::key_bytes());
    p.rounds = 1;
    // what `document` is sealed with
    p.psk = [7; 32];
    p
}

fn header(p: &Params) -> Vec<u8> {
    p.header_in_order(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 0])
}

fn file(xml: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut p = params(r);
    p.gzip = r.chance(1, 4);
    let bs = if r.chance(1, 4) { 100 } else { 1 << 30 };
    p.file(&header(&p), xml, bs)
}

fn with_payload(p: &Params, payload: &[u8]) -> Vec<u8> {
    let mut f = header(p);
    f.extend(p.encrypt_payload(payload));
    f
}

fn document(r: &mut Rng) -> Vec<u8> {
    let mut db = slots::base("plain", r);
    slots::set(&mut db, "entry", "password.prot", "phrase", r);
    slots::set(&mut db, "hist", "notes.prot", "latin", r);
    slots::set(&mut db, "entry2", "bin.prot", "b65", r);
    slots::set(&mut db, "meta", "name", "phrase", r);
    let st = Style::keepass();
    let mut e = Enc { st: st.clone(), r };
    let mut tree = e.tree(&db, None);
    xmlm::seal(&mut tree, &mut codec::Salsa::new(&[7; 32]));
    xmlm::document(&tree, Some("\t"))
}

fn blocks(case: &Value, toks: &Value, r: &mut Rng) -> Vec<u8> {
    let mut p = params(r);
    p.gzip = case["what"] == "gzip";
    let xml = b"<KeePassFile><Meta></Meta><Root><Group></Group></Root></KeePassFile>".to_vec();
    let mut rest = if p.gzip { codec::gz(&xml) } else { xml };
    let mut v = p.start.to_vec();
    let mut id = 0u32;
    for t in toks.as_array().unwrap() {
        let (n, h, s) = (t["n"].as_str().unwrap(), t["hash"].as_str().unwrap(), t["size"].as_str().unwrap());
        let data: Vec<u8> = match s {
            "some" => rest.drain(..rest.len().min(30)).collect(),
            "rest" => rest.drain(..).collect(),
            "zero" => vec![],
            _ => r.bytes(20),
        };
        let number = match n {
            "next" => id,
            "zero" => 0,
            "skip" => id + 2,
            _ => *r.pick(&[u32::MAX, 1 << 31]),
        };
        let hash = match h {
            "right" => sha(&data),
            "wrong" => r.arr32(),
            _ => [0; 32],
        };
        let size: u32 = match s {
            "more than left" => 200,
            "2^31-1" => i32::MAX as u32,
            "2^31" => 1 << 31,
            "2^32-1" => u32::MAX,
            _ => data.len() as u32,
        };
        v.extend(number.to_le_bytes());
        v.extend(hash);
        v.extend(size.to_le_bytes());
        v.extend(&data);
        id += 1;
    }
    match case["end"].as_str().unwrap() {
        "nothing" => {}
        "part of a head" => {
            let n = r.range(1, 39);
            v.extend(&codec::block(id, &[0; 32], &[])[..n]);
        }
        "junk" => {
            let n = r.range(1, 100);
            v.extend(r.bytes(n));
        }
        _ => v.extend(codec::block(id, &[0; 32], &[])),
    }
    with_payload(&p, &v)
}

/// None where there is no such place.
fn packed(what: &str, at: usize, r: &mut Rng) -> Option<Vec<u8>> {
    let mut p = params(r);
    p.gzip = true;
    let xml = document(r);
    let z = codec::gz(&xml);
    let data = match what {
        "cipher length" => {
            let mut f = header(&p);
            f.extend(r.bytes(at));
            return Some(f);
        }
        "pad byte" | "pad run" => {
            let v = match what {
                "pad byte" => (at & 255) as u8,
                _ => (at % 18) as u8,
            };
            let blocks = 1 + at % 7;
            let mut pl = p.start.to_vec();
            let n = 16 * blocks;
            pl.extend(r.bytes(n));
            pl.truncate(16 * blocks);
            let n = pl.len();
            let from = if what == "pad run" { n - (v as usize).min(n) } else { n - 1 };
            pl[from..].iter_mut().for_each(|b| *b = v);
            let mut f = header(&p);
            f.extend(codec::cbc_enc_raw(&p.key(), &p.iv, &pl));
            return Some(f);
        }
        "empty" => {
            let n = at % 40;
            return Some(with_payload(&p, &r.bytes(n)));
        }
        "start only" => {
            let mut v = p.start.to_vec();
            let n = at % 50;
            v.extend(r.bytes(n));
            return Some(with_payload(&p, &v));
        }
        "gzip cut" if at < z.len() => z[..at].to_vec(),
        "gzip flip" if at < z.len() => {
            let mut z = z;
            z[at] ^= 1 << r.below(8);
            z
        }
        "gzip member" => {
            let n = at.min(xml.len());
            [codec::gz(&xml[..n]), codec::gz(&xml[n..])].concat()
        }
        "gzip end" => {
            let n = at % 40;
            [z, r.bytes(n)].concat()
        }
        "deflate" if at < z.len() => z[at..].to_vec(),
        "gzip header" => {
            let mut z = z;
            z[at % 10] = r.u64() as u8;
            if at % 3 == 0 {
                z[3] = (at / 3) as u8;
            }
            z
        }
        "gzip length" => {
            let mut z = z;
            let n = z.len();
            z[n - 1 - at % 8] = r.u64() as u8;
            z
        }
        "text" => xml,
        "xml cut" => {
            let n = at * xml.len() / 300 % xml.len();
            codec::gz(&xml[..n])
        }
        "not utf8" => {
            let mut x = xml;
            let i = at * x.len() / 300 % x.len();
            x[i] = 0x80 | r.u64() as u8;
            codec::gz(&x)
        }
        "utf16" => {
            let t = String::from_utf8(xml).unwrap();
            let mut b: Vec<u8> = if at % 3 == 0 { vec![] } else { vec![0xff, 0xfe] };
            for u in t.encode_utf16() {
                b.extend(if at % 3 == 2 { u.to_be_bytes() } else { u.to_le_bytes() });
            }
            b.truncate(b.len() - at % 2);
            codec::gz(&b)
        }
        "random" => r.bytes(at),
        _ => return None,
    };
    let mut v = p.start.to_vec();
    v.extend(codec::block(0, &sha(&data), &data));
    v.extend(codec::block(1, &[0; 32], &[]));
    Some(with_payload(&p, &v))
}

fn fields(case: &Value, r: &mut Rng) -> Vec<u8> {
    let p = params(r);
    let (id, n, what) = (case["at"].as_u64().unwrap() as u8, case["n"].as_u64().unwrap() as usize, case["what"].as_str().unwrap());
    let mut field = vec![id];
    field.extend((n as u16).to_le_bytes());
    // few rounds, whatever else
    let mut data = if id == 6 { vec![0; n] } else { r.bytes(n) };
    if id != 6 && (1..=10).contains(&id) && r.chance(1, 3) {
        data = p.field(id).into_iter().chain(data).take(n).collect();
        data.resize(n, 0);
    }
    match what {
        "cut in data" => field.extend(&data[..n / 2]),
        "cut in size" => field.truncate(2),
        "cut after id" => field.truncate(1),
        _ => field.extend(&data),
    }
    let mut f = p.prologue();
    if what == "first" {
        f.extend(&field);
    }
    let place = r.below(10);
    for (i, x) in [2u8, 3, 4, 5, 6, 7, 8, 9, 10, 0].iter().enumerate() {
        if i == place && what != "first" {
            f.extend(&field);
            if what.starts_with("cut") {
                return f;
            }
            if what == "twice" {
                f.extend(&field);
            }
        }
        f.extend(codec::tlv(*x, &if *x == 0 { b"\r\n\r\n".to_vec() } else { p.field(*x) }));
    }
    let xml = b"<KeePassFile><Meta/><Root><Group/></Root></KeePassFile>";
    let d = if p.gzip { codec::gz(xml) } else { xml.to_vec() };
    f.extend(p.encrypt_payload(&[p.start.to_vec(), codec::block(0, &sha(&d), &d), codec::block(1, &[0; 32], &[])].concat()));
    f
}

fn change(v: &mut Vec<u8>, at: usize, what: &str, r: &mut Rng) {
    let put = |v: &mut Vec<u8>, s: &[u8], over: bool| {
        let end = if over { (at + s.len()).min(v.len()) } else { at };
        v.splice(at..end, s.iter().copied());
    };
    let over = r.bool();
    match what {
        "less" => put(v, b"<", over),
        "greater" => put(v, b">", over),
        "amp" => put(v, b"&", over),
        "quote" => put(v, b"\"", over),
        "nul" => put(v, b"\0", over),
        "high" => put(v, &[128 | r.u64() as u8], over),
        "two bytes" => put(v, "\u{e9}".as_bytes(), over),
        "close" => put(v, b"</", over),
        "open" => put(v, b"<Group>", over),
        "comment" => put(v, b"<!--", over),
        "cdata" => put(v, b"<![CDATA[", over),
        "remove" => {
            v.remove(at);
        }
        "cut" => v.truncate(at),
        "repeat" => {
            let n = r.range(1, 30).min(v.len() - at);
            let s = v[at..at + n].to_vec();
            put(v, &s, false)
        }
        "remove 10" => {
            let n = 10.min(v.len() - at);
            v.drain(at..at + n);
        }
        _ => {
            let n = r.range(1, 4);
            let s = r.bytes(n);
            put(v, &s, true)
        }
    }
}

fn key_document(two: bool, r: &mut Rng) -> Vec<u8> {
    if two {
        // 64 characters, or 32 bytes
        return if r.bool() { hex(&r.arr32()).into_bytes() } else { r.bytes(32) };
    }
    format!(
        "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t<Data>{}</Data>\n\t</Key>\n</KeyFile>\n",
        b64(&r.arr32())
    )
    .into_bytes()
}

fn raw(what: &str, at: usize, r: &mut Rng) -> Vec<u8> {
    let mut p = params(r);
    p.gzip = false;
    match what {
        "random" => r.bytes(at),
        "signature" => [&codec::SIG1[..], &codec::SIG2, &r.bytes(at)].concat(),
        "version" => {
            let mut f = [&codec::SIG1[..], &codec::SIG2, &[1, 0, 3, 0]].concat();
            let n = at % 60;
            f.extend((0..n).map(|_| r.below(12) as u8));
            f
        }
        "kdb1" => [&codec::SIG1[..], &codec::SIG2_KDB1, &r.bytes(at)].concat(),
        "header" => {
            let f = file(b"<KeePassFile/>", r);
            f[..at.min(f.len())].to_vec()
        }
        "cipher" => [header(&p), r.bytes(16 * (at % 60))].concat(),
        "zero" => vec![0; at],
        "high" => vec![255; at],
        "text" => values::word(r, at + 1).into_bytes(),
        _ => {
            // header fields at random
            let mut f = p.prologue();
            for _ in 0..at % 14 {
                let id = r.below(12) as u8;
                let mut d = if id < 11 && id > 0 { p.field(id) } else { vec![1] };
                if r.chance(1, 3) && id != 6 {
                    let n = r.below(40);
                    d.resize(n, 1);
                }
                f.extend(codec::tlv(id, &d));
            }
            f.extend(r.bytes(at % 50));
            f
        }
    }
}

/// Whether deriving the key would take long.
fn heavy(f: &[u8]) -> bool {
    let mut q = 12;
    while q + 3 <= f.len() {
        let n = u16::from_le_bytes([f[q + 1], f[q + 2]]) as usize;
        if f[q] == 6 && n == 8 && q + 11 <= f.len() && f[q + 5..q + 11] != [0; 6] {
            return true;
        }
        if f[q] == 0 {
            return false;
        }
        q += 3 + n;
    }
    false
}

fn open(f: &[u8], name: &str, ctx: &mut Ctx) {
    if heavy(f) {
        return ctx.add("skipped, too many rounds", 1);
    }
    let r = match name {
        "database" => Database::open(&mut &f[..], &slots::key()).map(drop).is_ok(),
        _ => KeyFile::open(&mut &f[..]).map(drop).is_ok(),
    };
    ctx.add(&format!("{} {}", name, if r { "opened" } else { "rejected" }), 1);
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let (layer, c) = (case["layer"].as_str().unwrap(), &case["case"]);
    let key = is_key(c["ctx"].as_str().unwrap());
    let (what, at) = (c["what"].as_str().unwrap(), c["at"].as_u64().unwrap() as usize);
    let r = &mut ctx.rng;
    match layer {
        "xml" | "nest" | "value" => {
            let x = match layer {
                "xml" => soup(c, &case["toks"], r),
                "nest" => nest(c, r),
                _ => value(c, r),
            };
            if key {
                open(&x, "key file", ctx)
            } else {
                let f = file(&x, r);
                open(&f, "database", ctx)
            }
        }
        "blocks" => {
            let f = blocks(c, &case["toks"], r);
            open(&f, "database", ctx)
        }
        "packed" => match packed(what, at, r) {
            Some(f) => open(&f, "database", ctx),
            None => ctx.add("no such place", 1),
        },
        "header" => {
            let f = fields(c, r);
            open(&f, "database", ctx)
        }
        "byte" => {
            let place = c["ctx"].as_str().unwrap();
            // the same document in every case
            let mut fr = Rng::from_str(ctx.seed, "malformed");
            let mut v = match place {
                "keyfile" => key_document(false, &mut fr),
                "keyfile 2" => key_document(true, r),
                _ => document(&mut fr),
            };
            if place == "gzip" {
                v = codec::gz(&v);
            }
            // as many places as there are, over the whole
            let places = c["n"].as_u64().unwrap() as usize + 1;
            let at = if v.len() > places { at * v.len() / places } else { at };
            if at >= v.len() {
                ctx.add("no such place", 1);
                return Ok(());
            }
            change(&mut v, at, what, r);
            if place.starts_with("key") {
                return Ok(open(&v, "key file", ctx));
            }
            let mut p = params(r);
            p.gzip = place == "gzip";
            let mut pl = p.start.to_vec();
            pl.extend(codec::block(0, &sha(&v), &v));
            pl.extend(codec::block(1, &[0; 32], &[]));
            let f = with_payload(&p, &pl);
            open(&f, "database", ctx)
        }
        "raw" => {
            let f = raw(what, at, r);
            open(&f, "database", ctx);
            open(&f, "key file", ctx)
        }
        _ => panic!("layer {}", layer),
    }
    Ok(())
}
