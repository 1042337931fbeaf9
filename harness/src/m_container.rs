//! KdbxContainer.tla: a file written token by token, with deviations.
use crate::codec::{self, Params};
use crate::enc::{Enc, Style};
use crate::m_fields::open;
use crate::util::*;
use crate::{proj, slots, xmlm, Ctx, Out};
use kpdb::*;
use serde_json::{json, Value};

pub fn name(e: &Error) -> String {
    match e {
        Error::CryptoError(_) => "CryptoError".into(),
        Error::InvalidBlockHash => "InvalidBlockHash".into(),
        Error::InvalidBlockId(_) => "InvalidBlockId".into(),
        Error::InvalidDbSignature(_) => "InvalidDbSignature".into(),
        Error::InvalidFinalBlockHash(_) => "InvalidFinalBlockHash".into(),
        Error::InvalidHeaderHash => "InvalidHeaderHash".into(),
        Error::InvalidHeaderSize { id, .. } => format!("InvalidHeaderSize:{}", id),
        Error::InvalidKey => "InvalidKey".into(),
        Error::InvalidKeyFile => "InvalidKeyFile".into(),
        Error::Io(_) => "Io".into(),
        Error::MissingHeader(id) => format!("MissingHeader:{}", id),
        Error::UnhandledCompression(_) => "UnhandledCompression".into(),
        Error::UnhandledDbType(_) => "UnhandledDbType".into(),
        Error::UnhandledHeader(id) => format!("UnhandledHeader:{}", id),
        Error::UnhandledMasterCipher(_) => "UnhandledMasterCipher".into(),
        Error::UnhandledStreamCipher(_) => "UnhandledStreamCipher".into(),
        Error::Unimplemented(_) => "Unimplemented".into(),
        Error::XmlError(_) => "XmlError".into(),
    }
}

/// Letters that do not compress well: in three blocks, each has more than a mebibyte.
pub fn big_text(r: &mut Rng) -> String {
    b64(&r.bytes(3_300_000))
}

struct Built {
    file: Vec<u8>,
    db: Database,
}

fn build(case: &Value, ctx: &mut Ctx) -> Built {
    let conf = &case["conf"];
    let r = &mut ctx.rng;
    let mut db = slots::base("plain", r);
    slots::set(&mut db, "entry", "password.prot", "phrase", r);
    slots::set(&mut db, "hist", "notes.prot", "latin", r);
    slots::set(&mut db, "entry2", "bin.prot", "b65", r);
    slots::set(&mut db, "meta", "name", "phrase", r);
    if conf["size"] == "big" || conf["bulk"].as_u64().unwrap() > 1000 {
        slots::entry_at(&mut db, "entry").set_notes(big_text(r));
    }
    let mut p = Params::new(r, slots::key_bytes());
    p.rounds = conf["rounds"].as_u64().unwrap();
    p.gzip = conf["gz"].as_bool().unwrap();
    p.version = (3, conf["minor"].as_u64().unwrap() as u16);
    p.comment = match conf["comment"].as_str().unwrap() {
        "none" => None,
        "empty" => Some(vec![]),
        "c5" => Some(r.bytes(5)),
        _ => Some(r.bytes(65535)),
    };
    db.comment = p.comment.clone().map(Comment);
    db.transform_rounds = TransformRounds(p.rounds);
    db.compression = if p.gzip { Compression::GZip } else { Compression::None };
    db.version = Version {
        major: p.version.0,
        minor: p.version.1,
    };
    let mut toks: Vec<(String, u64, String)> = case["toks"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            (
                t[0].as_str().unwrap().to_string(),
                t[1].as_u64().unwrap(),
                t[2].as_str().unwrap().to_string(),
            )
        })
        .collect();
    let mut decoy = p.clone();
    decoy.comment = Some(b"decoy".to_vec());
    decoy.gzip = !p.gzip;
    decoy.rounds = p.rounds + 3;
    decoy.master_seed = r.arr32();
    decoy.transform_seed = r.arr32();
    decoy.iv = r.arr16();
    decoy.psk = r.arr32();
    decoy.start = r.arr32();
    // the header
    let mut h: Vec<u8> = vec![];
    let mut cut = false;
    let mut comment_last = false;
    let part = |r: &mut Rng, b: &[u8]| -> Vec<u8> { b[..r.range(1, b.len() - 1)].to_vec() };
    while !toks.is_empty() && !cut {
        let (t, id, kind) = toks[0].clone();
        if t == "cipher" {
            break;
        }
        toks.remove(0);
        let id = id as u8;
        match (t.as_str(), kind.as_str()) {
            ("sig1", k) | ("sig2", k) => {
                let good = if t == "sig1" { codec::SIG1 } else { codec::SIG2 };
                match k {
                    "ok" => h.extend(good),
                    "bad" => {
                        let mut b = r.bytes(4);
                        b[0] = good[0] ^ 0x55;
                        h.extend(b)
                    }
                    "bit" => {
                        let mut b = good;
                        b[r.below(4)] ^= 1 << r.below(8);
                        h.extend(b)
                    }
                    "swapped" => h.extend(codec::SIG2),
                    "kdb1" => h.extend(codec::SIG2_KDB1),
                    "beta" => h.extend([0x66, 0xfb, 0x4b, 0xb5]),
                    "nothing" => cut = true,
                    "cut" => {
                        h.extend(part(r, &good));
                        cut = true
                    }
                    _ => panic!("{}", k),
                }
            }
            ("version", k) => {
                let pr = p.prologue();
                match k {
                    "ok" => h.extend(&pr[8..12]),
                    "nothing" => cut = true,
                    _ => {
                        h.extend(part(r, &pr[8..12]));
                        cut = true
                    }
                }
            }
            ("field", k) => {
                let good = p.field(id);
                let tlv = codec::tlv(id, &good);
                match k {
                    "ok" => h.extend(&tlv),
                    "dup" => {
                        h.extend(codec::tlv(id, &decoy.field(id)));
                        h.extend(&tlv);
                    }
                    "duplast" => {
                        h.extend(&tlv);
                        h.extend(codec::tlv(id, &decoy.field(id)));
                        comment_last |= id == 1;
                        if id == 3 {
                            db.compression = if decoy.gzip { Compression::GZip } else { Compression::None };
                        }
                    }
                    "omit" => {}
                    "short" => h.extend(codec::tlv(id, &good[..good.len() - 1])),
                    "long" => h.extend(codec::tlv(id, &[&good[..], &[7]].concat())),
                    "zero" => h.extend(codec::tlv(id, &[])),
                    "double" => h.extend(codec::tlv(id, &[&good[..], &good[..]].concat())),
                    "bad" => {
                        let mut b = r.bytes(good.len());
                        b[0] = b[0] | 0x80;
                        h.extend(codec::tlv(id, &b))
                    }
                    "bit" => {
                        let mut b = good.clone();
                        let i = r.below(b.len());
                        b[i] ^= 1 << r.below(8);
                        h.extend(codec::tlv(id, &b))
                    }
                    "twofish" => h.extend(codec::tlv(
                        id,
                        &[0xad, 0x68, 0xf2, 0x9f, 0x57, 0x6f, 0x4b, 0xb9, 0xa3, 0x6a, 0xd4, 0x7a, 0xf9, 0x65, 0x34, 0x6c],
                    )),
                    "two" => h.extend(codec::tlv(id, &[2, 0, 0, 0])),
                    "high" => {
                        let mut b = good.clone();
                        b[1 + r.below(3)] = 1 + r.below(255) as u8;
                        h.extend(codec::tlv(id, &b))
                    }
                    "zeroid" => h.extend(codec::tlv(id, &[0, 0, 0, 0])),
                    "arc4" => h.extend(codec::tlv(id, &[1, 0, 0, 0])),
                    "cutbefore" => cut = true,
                    "cutid" => {
                        h.push(id);
                        cut = true
                    }
                    "cutlen" => {
                        h.extend(&tlv[..2]);
                        cut = true
                    }
                    "cutdata" => {
                        // with an empty comment there is nothing to cut but its length
                        let n = if good.is_empty() { 2 } else { 3 + r.below(good.len()) };
                        h.extend(&tlv[..n]);
                        cut = true
                    }
                    u => {
                        let u: u8 = u.strip_prefix("unknown").unwrap().parse().unwrap();
                        let n = r.below(40);
                        let b = r.bytes(n);
                        h.extend(codec::tlv(u, &b));
                        h.extend(&tlv);
                    }
                }
            }
            ("end", k) => {
                let tlv = codec::tlv(0, b"\r\n\r\n");
                match k {
                    "ok" => h.extend(&tlv),
                    "end0" => h.extend(codec::tlv(0, &[])),
                    "end1" | "end100" | "end256" | "end300" | "end65535" => {
                        let b = r.bytes(k[3..].parse().unwrap());
                        h.extend(codec::tlv(0, &b))
                    }
                    "cutbefore" => cut = true,
                    "cutid" => {
                        h.push(0);
                        cut = true
                    }
                    "cutlen" => {
                        h.extend(&tlv[..2]);
                        cut = true
                    }
                    _ => {
                        h.extend(&tlv[..3 + r.below(4)]);
                        cut = true
                    }
                }
            }
            _ => panic!("{} {}", t, kind),
        }
    }
    if comment_last {
        db.comment = decoy.comment.clone().map(Comment);
    }
    if cut || toks.is_empty() {
        return Built { file: h, db };
    }
    // the payload
    let kind = |t: &str| -> String {
        toks.iter()
            .find(|x| x.0 == t)
            .map(|x| x.2.clone())
            .unwrap_or("ok".into())
    };
    let good_hash = sha(&h);
    let hk = kind("hash");
    let hh: Option<Vec<u8>> = match hk.as_str() {
        "ok" => Some(good_hash.to_vec()),
        "absent" => None,
        "flip" => {
            let mut b = good_hash.to_vec();
            b[r.below(31)] ^= 1 << r.below(8);
            Some(b)
        }
        "last" => {
            let mut b = good_hash.to_vec();
            b[31] ^= 1 << r.below(8);
            Some(b)
        }
        "short" => Some(good_hash[..31].to_vec()),
        "half" => Some(good_hash[..16].to_vec()),
        "empty" => Some(vec![]),
        "long" => Some([&good_hash[..], &[0]].concat()),
        "other" => Some(sha(b"another header").to_vec()),
        _ => Some(vec![]),
    };
    let mut tree = Enc {
        st: Style::keepass(),
        r,
    }
    .tree(&db, None);
    if let Some(b) = hh {
        let t = if hk == "notb64" { "?? not base64 ??".to_string() } else { b64(&b) };
        let n = xmlm::Node::leaf("HeaderHash", &t);
        match &mut tree.kids[0] {
            xmlm::Item::E(meta) => meta.kids.insert(0, xmlm::Item::E(n)),
            _ => unreachable!(),
        }
    }
    xmlm::seal(&mut tree, &mut codec::Salsa::new(&p.psk));
    let xml = xmlm::document(&tree, None);
    let z = codec::gz(&xml);
    let data = match (kind("content").as_str(), p.gzip) {
        ("ok", true) | ("other", false) => z,
        ("ok", false) | ("other", true) => xml,
        (k @ ("members" | "stored" | "named"), _) => codec::gz_as(k, &xml),
        ("crc", _) => {
            let mut b = z;
            let n = b.len();
            b[n - 8 + r.below(4)] ^= 1 << r.below(8);
            b
        }
        ("isize", _) => {
            let mut b = z;
            let n = b.len();
            b[n - 4] ^= 1;
            b
        }
        ("notrailer", _) => z[..z.len() - 8].to_vec(),
        ("half", _) => z[..z.len() / 2].to_vec(),
        ("magic", _) => {
            let mut b = z;
            b[r.below(2)] ^= 1 << r.below(8);
            b
        }
        (k, _) => panic!("{}", k),
    };
    let nb = conf["blocks"].as_u64().unwrap() as usize;
    let mut pl = match kind("start").as_str() {
        "flip0" => flip(&p.start, 0),
        "flip16" => flip(&p.start, 16),
        "flip31" => flip(&p.start, 31),
        _ => p.start.to_vec(),
    };
    let mut at = 0;
    let bulk = conf["bulk"].as_u64().unwrap() as usize;
    for k in 0..bulk {
        let n = (1 + r.below(4)).min((data.len() - at - 10 * nb) / (bulk - k)).max(1);
        pl.extend(codec::block(k as u32, &sha(&data[at..at + n]), &data[at..at + n]));
        at += n;
    }
    for k in 0..nb {
        let n = if k == nb - 1 {
            data.len() - at
        } else {
            // blocks of different sizes
            let rest = data.len() - at;
            let left = nb - k;
            (rest / left + k % 3).max(1).min(rest - (left - 1))
        };
        let ch = &data[at..at + n];
        at += n;
        let bk = toks
            .iter()
            .find(|x| x.0 == "block" && x.1 == (bulk + k) as u64)
            .map(|x| x.2.clone())
            .unwrap_or("ok".into());
        let id = (bulk + k) as u32;
        let hash = sha(ch);
        let good = codec::block(id, &hash, ch);
        let cutat = |n: usize| good[..n].to_vec();
        let (bytes, stop) = match bk.as_str() {
            "ok" => (good.clone(), false),
            "idplus" => (codec::block(id + 1, &hash, ch), false),
            "idminus" => (codec::block(id.wrapping_sub(1), &hash, ch), false),
            "idhigh" => (codec::block(id | 0x0100_0000, &hash, ch), false),
            "hashflip" => {
                let mut x = hash;
                x[r.below(31)] ^= 1 << r.below(8);
                (codec::block(id, &x, ch), false)
            }
            "hashlast" => {
                let mut x = hash;
                x[31] ^= 0x80;
                (codec::block(id, &x, ch), false)
            }
            "hashzero" => (codec::block(id, &[0; 32], ch), false),
            "dataflip" => {
                let mut b = good.clone();
                let i = 40 + r.below(n);
                b[i] ^= 1 << r.below(8);
                (b, false)
            }
            "lenhuge" => {
                let mut b = good.clone();
                b[36..40].copy_from_slice(&[0xff, 0xff, 0xff, *r.pick(&[0x00, 0x7f, 0xff])]);
                (b, false)
            }
            "early" => ([codec::block(id, &[0; 32], &[]), good.clone()].concat(), false),
            "cutbefore" => (vec![], true),
            "cutid" => (cutat(r.range(1, 3)), true),
            "cuthash" => (cutat(r.range(4, 35)), true),
            "cutlen" => (cutat(r.range(36, 39)), true),
            "cutdata" => (cutat(r.range(40, 40 + n - 1)), true),
            x => panic!("{}", x),
        };
        pl.extend(bytes);
        if stop {
            cut = true;
            break;
        }
    }
    if !cut {
        let id = (bulk + nb) as u32;
        let good = codec::block(id, &[0; 32], &[]);
        let fin = match kind("final").as_str() {
            "ok" => good,
            "idplus" => codec::block(id + 1, &[0; 32], &[]),
            "idminus" => codec::block(id - 1, &[0; 32], &[]),
            "hashbit" => {
                let mut x = [0; 32];
                x[r.below(31)] = 1 << r.below(8);
                codec::block(id, &x, &[])
            }
            "hashlast" => {
                let mut x = [0; 32];
                x[31] = 1;
                codec::block(id, &x, &[])
            }
            "hashempty" => codec::block(id, &sha(&[]), &[]),
            "cutbefore" => vec![],
            "cutid" => good[..r.range(1, 3)].to_vec(),
            "cuthash" => good[..r.range(4, 35)].to_vec(),
            "cutlen" => good[..r.range(36, 39)].to_vec(),
            x => panic!("{}", x),
        };
        pl.extend(fin);
    }
    let mut q = p.clone();
    let raw = |q: &Params, b: &[u8]| codec::cbc_enc_raw(&q.key(), &q.iv, b);
    let c = match kind("cipher").as_str() {
        "ok" => q.encrypt_payload(&pl),
        "wrongkey" => {
            q.composite = codec::composite(Some("P"), None);
            q.encrypt_payload(&pl)
        }
        "empty" => vec![],
        "odd1" => {
            let mut c = q.encrypt_payload(&pl);
            c.pop();
            c
        }
        "odd15" => {
            let mut c = q.encrypt_payload(&pl);
            let n = c.len();
            c.truncate(n - 15);
            c
        }
        "pad0" => {
            let mut b = codec::pad(&pl);
            *b.last_mut().unwrap() = 0;
            raw(&q, &b)
        }
        "pad17" => {
            let mut b = codec::pad(&pl);
            *b.last_mut().unwrap() = 17;
            raw(&q, &b)
        }
        "padall" => {
            // a last block whose every byte says more padding than a block has
            let mut b = codec::pad(&pl);
            let v = *ctx.rng.pick(&[17u8, 18, 32, 128, 255]);
            b.extend(vec![v; 16]);
            raw(&q, &b)
        }
        "padmix" => {
            let n = pl.len();
            pl.truncate(n - n % 16);
            let mut b = pl.clone();
            b.extend([9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 8, 9]);
            raw(&q, &b)
        }
        "firstflip" => {
            let mut c = q.encrypt_payload(&pl);
            let i = r.below(16);
            c[i] ^= 1 << r.below(8);
            c
        }
        "short0" => q.encrypt_payload(&[]),
        "short1" => q.encrypt_payload(&pl[..1]),
        "short31" => q.encrypt_payload(&pl[..31]),
        "only32" => q.encrypt_payload(&pl[..32]),
        x => panic!("{}", x),
    };
    h.extend(c);
    Built { file: h, db }
}

fn flip(b: &[u8], i: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    v[i] ^= 1;
    v
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let b = build(case, ctx);
    let errs: Vec<&str> = case["errs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    ctx.sig = case["toks"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|t| t[2] != "ok")
        .map(|t| t.to_string())
        .collect();
    match open(&b.file, &slots::key()) {
        Err(e) => {
            let n = name(&e);
            if errs.is_empty() {
                return Err(format!("a valid file is rejected: {}", e));
            }
            if !errs.contains(&n.as_str()) {
                return Err(format!("rejected as {} ({}) instead of {:?}", n, e, errs));
            }
            detail(&e, case)?;
            ctx.add("rejected", 1);
        }
        Ok(db) => {
            if !errs.is_empty() && !errs.contains(&"Opens") {
                return Err(format!("the file opens, but it has {:?}", errs));
            }
            let want = proj::normal(proj::database(&b.db));
            if let Some(d) = show_diff(&want, &proj::normal(proj::database(&db))) {
                return Err(format!("in the opened file, {}", d));
            }
            ctx.add("opened", 1);
        }
    }
    Ok(())
}

/// What the error says besides its name, when there is one deviation.
fn detail(e: &Error, case: &Value) -> Out {
    if case["dev"] != json!(1) {
        return Ok(());
    }
    let t = case["toks"].as_array().unwrap().iter().find(|t| t[2] != "ok").unwrap();
    let (id, kind) = (t[1].as_u64().unwrap(), t[2].as_str().unwrap());
    let size = |id: u64| match id {
        2 | 7 => 16,
        3 | 10 => 4,
        6 => 8,
        _ => 32,
    };
    let bad = match e {
        Error::InvalidHeaderSize { expected, actual, .. } => {
            let want = match kind {
                "short" => size(id) - 1,
                "long" => size(id) + 1,
                "zero" => 0,
                _ => 2 * size(id),
            };
            (*expected, *actual) != (size(id) as u16, want as u16)
        }
        Error::InvalidBlockId(v) => match kind {
            "idplus" => *v != id as u32 + 1,
            "idminus" => *v != (id as u32).wrapping_sub(1),
            _ => false,
        },
        Error::InvalidFinalBlockHash(h) => kind == "hashempty" && *h != sha(&[]),
        Error::UnhandledDbType(s) => kind == "kdb1" && *s != codec::SIG2_KDB1,
        Error::UnhandledCompression(v) => kind == "two" && *v != 2,
        Error::UnhandledStreamCipher(v) => (kind == "zeroid" && *v != 0) || (kind == "arc4" && *v != 1),
        _ => false,
    };
    if bad {
        return Err(format!("the error has the wrong details: {:?}", e));
    }
    Ok(())
}
