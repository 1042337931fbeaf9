//! Tamper.tla: what is done to a saved file, and what opening it gives.
use crate::m_container::big_text;
use crate::m_fields::save;
use crate::util::*;
use crate::{codec, proj, slots, values, Ctx, Out};
use kpdb::*;
use serde_json::Value;

const IDS: [u8; 11] = [255, 1, 2, 3, 4, 5, 6, 7, 8, 10, 9]; // as Fields; 255: the version

#[derive(Clone)]
struct Field {
    id: u8,
    data: Vec<u8>,
    size: Option<u16>,
}

/// A payload in parts.
#[derive(Clone)]
struct Inside {
    start: Vec<u8>,
    blocks: Vec<(u32, [u8; 32], Vec<u8>)>,
    last: Option<(u32, [u8; 32])>,
}

impl Inside {
    fn bytes(&self) -> Vec<u8> {
        let mut v = self.start.clone();
        for (n, h, d) in &self.blocks {
            v.extend(codec::block(*n, h, d));
        }
        if let Some((n, h)) = &self.last {
            v.extend(codec::block(*n, h, &[]));
        }
        v
    }
}

struct Saved {
    header: Vec<Field>,
    end: Vec<u8>,
    inside: Inside,
    gzip: bool,
    xml: Vec<u8>,
    groups: Vec<Vec<u8>>, // of cipher blocks
    want: Value,
}

fn db(r: &mut Rng, gzip: bool, big: bool, comment: &str) -> Database {
    let mut db = slots::base("plain", r);
    db.comment = Some(Comment(format!("{} {}", comment, values::word(r, 4)).into_bytes()));
    db.compression = if gzip { Compression::GZip } else { Compression::None };
    db.transform_rounds = TransformRounds(1 + r.below(4) as u64);
    for site in ["entry0", "entry", "entry2", "entry3", "hist"] {
        let e = slots::entry_at(&mut db, site);
        e.set_title(values::word(r, 9));
        e.set_password(values::word(r, 9));
        e.set_notes(values::word(r, 40));
    }
    if big {
        slots::entry_at(&mut db, "entry2").set_notes(big_text(r));
    }
    db
}

/// Three pieces; of XML the middle one is a whole element.
fn cut(data: &[u8], xml: bool) -> Vec<Vec<u8>> {
    let (mut a, mut b) = (data.len() / 3, 2 * data.len() / 3);
    if xml {
        let t = String::from_utf8_lossy(data).into_owned();
        let all: Vec<usize> = t.match_indices("<String>").map(|m| m.0).collect();
        if t.len() == data.len() && !all.is_empty() {
            let i = all[all.len() / 2];
            if let Some(e) = t[i..].find("</String>") {
                a = i;
                b = i + e + "</String>".len();
            }
        }
    }
    vec![data[..a].to_vec(), data[a..b].to_vec(), data[b..].to_vec()]
}

/// The cipher blocks as the ten of the specification.
fn groups(cipher: &[u8]) -> Vec<Vec<u8>> {
    let n = cipher.len() / 16;
    let mut g: Vec<Vec<u8>> = vec![];
    if n < 16 {
        return cipher.chunks(16).map(|c| c.to_vec()).collect();
    }
    let mid = n - 6;
    let edges = [0, 1, 2, 3, 4, 4 + mid / 4, 4 + mid / 2, 4 + 3 * mid / 4, n - 2, n - 1, n];
    for w in edges.windows(2) {
        g.push(cipher[16 * w[0]..16 * w[1]].to_vec());
    }
    g
}

fn saved(r: &mut Rng, gzip: bool, three: bool, big: bool, comment: &str) -> std::result::Result<Saved, String> {
    let d = db(r, gzip, big, comment);
    let want = proj::normal(proj::database(&d));
    let file = save(&d).map_err(|e| e.to_string())?;
    let dec = codec::decode(&file, &slots::key_bytes())?;
    let mut header = vec![Field { id: 255, data: file[8..12].to_vec(), size: None }];
    for (id, data) in &dec.fields {
        if *id != 0 {
            header.push(Field { id: *id, data: data.clone(), size: None });
        }
    }
    let (data, _) = codec::read_blocks(&dec.payload[32..])?;
    let pieces = if three { cut(&data, !gzip) } else { vec![data] };
    let inside = Inside {
        start: dec.payload[..32].to_vec(),
        last: Some((pieces.len() as u32, [0; 32])),
        blocks: pieces.into_iter().enumerate().map(|(i, p)| (i as u32, sha(&p), p)).collect(),
    };
    let cipher = if three { codec::cbc_enc(&dec.params.key(), &dec.params.iv, &inside.bytes()) } else { dec.cipher.clone() };
    let end = dec.fields.iter().find(|f| f.0 == 0).map(|f| f.1.clone()).unwrap_or_default();
    Ok(Saved { header, end, inside, gzip, xml: dec.xml, groups: groups(&cipher), want })
}

fn assemble(end: &[u8], header: &[Field], cipher: &[u8]) -> Vec<u8> {
    let mut f = codec::SIG1.to_vec();
    f.extend(codec::SIG2);
    f.extend(&header[0].data);
    for h in &header[1..] {
        f.push(h.id);
        f.extend(h.size.unwrap_or(h.data.len() as u16).to_le_bytes());
        f.extend(&h.data);
    }
    f.extend(codec::tlv(0, end));
    f.extend(cipher);
    f
}

/// Whether deriving the key would take long.
fn heavy(file: &[u8]) -> bool {
    let mut p = 12;
    while p + 3 <= file.len() {
        let n = u16::from_le_bytes([file[p + 1], file[p + 2]]) as usize;
        if file[p] == 6 && n == 8 && p + 11 <= file.len() {
            let mut b = [0u8; 8];
            b.copy_from_slice(&file[p + 3..p + 11]);
            if u64::from_le_bytes(b) > 1 << 16 {
                return true;
            }
        }
        if file[p] == 0 {
            return false;
        }
        p += 3 + n;
    }
    false
}

fn judge(file: &[u8], want: &Value, ctx: &mut Ctx) -> std::result::Result<&'static str, String> {
    if heavy(file) {
        ctx.add("skipped, too many rounds", 1);
        return Ok("skipped");
    }
    match Database::open(&mut &file[..], &slots::key()) {
        Err(_) => Ok("error"),
        Ok(d) => match show_diff(want, &proj::normal(proj::database(&d))) {
            None => Ok("same"),
            Some(m) => Err(format!("the changed file opens as another database: {}", m)),
        },
    }
}

fn flip(v: &mut [u8], r: &mut Rng) {
    if !v.is_empty() {
        let i = r.below(v.len());
        v[i] ^= 1 << r.below(8);
    }
}

/// A change that leaves the data a text as it was.
fn change_data(v: &mut [u8], gzip: bool, r: &mut Rng) {
    let letters: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphanumeric()).collect();
    if gzip || letters.is_empty() {
        return flip(v, r);
    }
    let i = *r.pick(&letters);
    v[i] = if v[i] == b'a' { b'b' } else { b'a' };
}

struct State {
    header: Vec<Field>,
    groups: Vec<Vec<u8>>,
    tail: Vec<u8>,
    inside: Inside,
}

fn get<'a>(header: &'a [Field], id: u8) -> Option<&'a Vec<u8>> {
    header.iter().rev().find(|f| f.id == id).map(|f| &f.data)
}

fn encrypt(s: &mut State) -> bool {
    let a = |id: u8, n: usize| get(&s.header, id).filter(|v| v.len() == n).cloned();
    let (Some(ms), Some(ts), Some(rounds), Some(iv)) = (a(4, 32), a(5, 32), a(6, 8), a(7, 16)) else { return false };
    let rounds = u64::from_le_bytes(rounds.try_into().unwrap());
    if rounds > 1 << 16 {
        return false;
    }
    let key = codec::master_key(&slots::key_bytes(), &ms.try_into().unwrap(), &ts.try_into().unwrap(), rounds);
    s.groups = groups(&codec::cbc_enc(&key, &iv.try_into().unwrap(), &s.inside.bytes()));
    true
}

fn apply(s: &mut State, op: &str, i: usize, j: usize, a: &Saved, b: &Saved, r: &mut Rng) -> bool {
    let i0 = i;
    let h = i.saturating_sub(1).min(s.header.len() - 1);
    let at = |id: u8, hs: &[Field]| hs.iter().find(|f| f.id == id).cloned();
    let c = i.saturating_sub(1).min(s.groups.len().saturating_sub(1));
    match op {
        "flip field" => flip(&mut s.header[h].data, r),
        "drop field" => {
            s.header.remove(h.max(1));
        }
        "repeat field" => {
            let f = s.header[h.max(1)].clone();
            s.header.insert(h.max(1), f);
        }
        "changed before" | "changed after" => {
            let mut f = s.header[h.max(1)].clone();
            flip(&mut f.data, r);
            s.header.insert(h.max(1) + (op == "changed after") as usize, f);
        }
        "rename field" => s.header[h.max(1)].id ^= 1 << r.below(8),
        "resize field" => {
            let f = &mut s.header[h.max(1)];
            match r.below(3) {
                0 => f.size = Some((f.data.len() as u16) ^ (1 << r.below(16))),
                1 => f.data.push(r.u64() as u8),
                _ => {
                    f.data.pop();
                }
            }
        }
        "field of the other" => {
            let id = IDS[j - 1];
            if let (Some(k), Some(f)) = (s.header.iter().position(|f| f.id == id), at(id, &b.header)) {
                s.header[k] = f;
            }
        }
        "swap fields" => {
            let k = (j - 1).min(s.header.len() - 1);
            if h > 0 && k > 0 {
                s.header.swap(h, k);
            }
        }
        "new comment" => s.header.insert((i.max(2) - 1).min(s.header.len()), Field { id: 1, data: values::word(r, 5).into_bytes(), size: None }),
        "header of the other" => s.header = b.header.clone(),
        _ if s.groups.is_empty() && !matches!(op, "append blocks" | "append bytes") => {}
        "flip block" => flip(&mut s.groups[c], r),
        "drop block" => {
            let g = &mut s.groups[c];
            if g.len() > 16 && r.bool() {
                let k = r.below(g.len() / 16);
                g.drain(16 * k..16 * k + 16);
            } else {
                s.groups.remove(c);
            }
        }
        "repeat block" => {
            let g = s.groups[c].clone();
            s.groups.insert(c, g);
        }
        "block of the other" => s.groups[c] = b.groups[c.min(b.groups.len() - 1)].clone(),
        "cut before block" => s.groups.truncate(c),
        "cut inside block" => {
            s.groups.truncate(c + 1);
            let g = &mut s.groups[c];
            let n = r.range(1, 15);
            g.truncate(g.len() - n.min(g.len()));
        }
        "swap blocks" => {
            let k = (j - 1).min(s.groups.len() - 1);
            s.groups.swap(c, k);
        }
        "append blocks" => {
            let n = 16 * r.range(1, 3);
            s.tail.extend(r.bytes(n));
        }
        "append bytes" => {
            let n = r.range(1, 15);
            s.tail.extend(r.bytes(n));
        }
        "rest of the other" => {
            s.groups.truncate(c);
            s.groups.extend(b.groups[c.min(b.groups.len() - 1)..].iter().cloned());
        }
        _ => {
            // inside
            let k = i.saturating_sub(1).min(s.inside.blocks.len() - 1);
            let p = &mut s.inside;
            match op {
                "data" => change_data(&mut p.blocks[k].2, a.gzip, r),
                "hash" => flip(&mut p.blocks[k].1, r),
                "number" => p.blocks[k].0 = j as u32,
                "lose" => {
                    p.blocks.remove(k);
                }
                "twice" => {
                    let x = p.blocks[k].clone();
                    p.blocks.insert(k, x);
                }
                "data of the other" => p.blocks[k].2 = b.inside.blocks[k.min(b.inside.blocks.len() - 1)].2.clone(),
                "swap" => {
                    let m = (j - 1).min(p.blocks.len() - 1);
                    p.blocks.swap(k, m);
                }
                "final number" => p.last = Some((i as u32, [0; 32])),
                "final hash" => p.last = Some((p.blocks.len() as u32, sha(b""))),
                "no final" => p.last = None,
                "start" => flip(&mut p.start, r),
                "header hash" => {
                    let mut t = String::from_utf8_lossy(&a.xml).into_owned();
                    if let Some(i) = t.find("<HeaderHash>") {
                        let (from, to) = (i + 12, i + 12 + 44);
                        match i0 {
                            1 => t.replace_range(from + 4 + 4 * r.below(10)..to, ""),
                            2 => t.replace_range(from..to, ""),
                            3 => t.insert_str(from, "AAAA"),
                            _ => {
                                let at = from + r.below(40);
                                let c = if t.as_bytes()[at] == b'A' { "B" } else { "A" };
                                t.replace_range(at..at + 1, c);
                            }
                        }
                    }
                    let d = if a.gzip { codec::gz(t.as_bytes()) } else { t.into_bytes() };
                    p.blocks = cut(&d, !a.gzip).into_iter().enumerate().map(|(i, p)| (i as u32, sha(&p), p)).collect();
                    p.last = Some((p.blocks.len() as u32, [0; 32]));
                }
                "payload of the other" => {
                    let start = p.start.clone();
                    *p = b.inside.clone();
                    p.start = start;
                }
                "the same" => {
                    if let Some(v) = get(&s.header, 9) {
                        p.start = v.clone();
                    }
                }
                _ => panic!("change {}", op),
            }
            if !encrypt(s) {
                return false;
            }
        }
    }
    true
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    if case["at"]["level"] != "" {
        return bytes(case, ctx);
    }
    let ops = case["ops"].as_array().unwrap();
    let r = &mut ctx.rng;
    let big = case["at"]["size"] == "big";
    let (gzip, three) = (r.chance(1, 3), r.chance(2, 3));
    let a = saved(r, gzip, three, big, "saved")?;
    let gzip2 = if r.chance(1, 4) { !gzip } else { gzip };
    let b = saved(r, gzip2, three, big, "other")?;
    let mut s = State { header: a.header.clone(), groups: a.groups.clone(), tail: vec![], inside: a.inside.clone() };
    let mut shown = vec![];
    for o in ops {
        let op = o[0].as_str().unwrap();
        let n = |k: usize| o[k].as_u64().unwrap() as usize;
        shown.push(format!("{} {} {}", op, n(1), n(2)));
        if !apply(&mut s, op, n(1), n(2), &a, &b, &mut ctx.rng) {
            ctx.add("skipped, no key", 1);
            return Ok(());
        }
    }
    let mut cipher = s.groups.concat();
    cipher.extend(&s.tail);
    let file = assemble(&a.end, &s.header, &cipher);
    if ctx.rng.chance(1, 50) && judge(&assemble(&a.end, &a.header, &a.groups.concat()), &a.want, ctx)? != "same" {
        return Err("the file as it was does not open".into());
    }
    let want = case["want"].as_str().unwrap();
    let got = judge(&file, if want == "other" { &b.want } else { &a.want }, ctx).map_err(|e| format!("{} ({}, {}): {}", shown.join(", "), if gzip { "gzip" } else { "plain" }, if three { "three blocks" } else { "one block" }, e))?;
    ctx.add(&format!("{} where the specification says {}", got, want), 1);
    Ok(())
}

/// Every change of one byte, of the file or of the payload.
fn bytes(case: &Value, ctx: &mut Ctx) -> Out {
    let level = case["at"]["level"].as_str().unwrap();
    let off = case["at"]["at"].as_u64().unwrap() as usize;
    for variant in 0..3 {
        // the same files in every case
        let mut fr = Rng::from_str(ctx.seed, &format!("tamper {}", variant));
        let d = db(&mut fr, variant == 1, false, "saved");
        let want = proj::normal(proj::database(&d));
        let mut file = save(&d).map_err(|e| e.to_string())?;
        let dec = codec::decode(&file, &slots::key_bytes())?;
        let mut payload = dec.payload.clone();
        if variant == 2 {
            let (data, _) = codec::read_blocks(&payload[32..])?;
            payload.truncate(32);
            let n = data.chunks(200).count();
            for (i, c) in data.chunks(200).enumerate() {
                payload.extend(codec::block(i as u32, &sha(c), c));
            }
            payload.extend(codec::block(n as u32, &[0; 32], &[]));
            file.truncate(dec.header.len());
            file.extend(codec::cbc_enc(&dec.params.key(), &dec.params.iv, &payload));
        }
        let base = if level == "file" { &file } else { &payload };
        let n = base.len();
        if off >= n {
            continue;
        }
        let at = if case["at"]["from"] == "start" { off } else { n - 1 - off };
        let r = &mut ctx.rng;
        let bit = 1u8 << r.below(8);
        let mut all: Vec<(&str, Vec<u8>)> = vec![];
        let mut with = |name: &'static str, f: &mut dyn FnMut(&mut Vec<u8>)| {
            let mut v = base.clone();
            f(&mut v);
            if v != *base {
                all.push((name, v));
            }
        };
        with("flip a bit of", &mut |v| v[at] ^= bit);
        with("flip the first bit of", &mut |v| v[at] ^= 1);
        with("flip the last bit of", &mut |v| v[at] ^= 128);
        with("invert", &mut |v| v[at] ^= 255);
        with("zero", &mut |v| v[at] = 0);
        with("remove", &mut |v| {
            v.remove(at);
        });
        with("repeat", &mut |v| v.insert(at, v[at]));
        with("insert before", &mut |v| v.insert(at, bit));
        with("cut before", &mut |v| v.truncate(at));
        with("swap with the next", &mut |v| {
            if at + 1 < v.len() {
                v.swap(at, at + 1)
            }
        });
        with("zero from", &mut |v| v[at..].iter_mut().for_each(|b| *b = 0));
        let k = r.range(1, 40);
        with("remove several from", &mut |v| {
            v.drain(at..(at + k).min(n));
        });
        with("remove 16 from", &mut |v| {
            v.drain(at..(at + 16).min(n));
        });
        for (name, v) in all {
            let f = if level == "file" {
                v
            } else {
                let mut f = file[..dec.header.len()].to_vec();
                f.extend(codec::cbc_enc(&dec.params.key(), &dec.params.iv, &v));
                f
            };
            let got = judge(&f, &want, ctx).map_err(|e| format!("{} byte {} of {} of the {}: {}", name, at, n, level, e))?;
            ctx.add(got, 1);
        }
    }
    Ok(())
}
