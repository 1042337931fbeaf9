//! An independent reader and writer of the KDBX 3.1 container. It shares only
//! the AES block function and SHA-256 with the library under test.
use crate::util::*;
use crypto::symmetriccipher::{BlockDecryptor, BlockEncryptor};
use std::io::{Read, Write};

pub const AES_ID: [u8; 16] = [
    0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff,
];
pub const SIG1: [u8; 4] = [0x03, 0xd9, 0xa2, 0x9a];
pub const SIG2: [u8; 4] = [0x67, 0xfb, 0x4b, 0xb5];
pub const SIG2_KDB1: [u8; 4] = [0x65, 0xfb, 0x4b, 0xb5];

fn ecb_enc(key: &[u8], block: &mut [u8; 16]) {
    thread_local!(static C: std::cell::RefCell<Option<(Vec<u8>, Box<dyn BlockEncryptor>)>> = std::cell::RefCell::new(None));
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().map(|x| x.0 != key).unwrap_or(true) {
            *c = Some((
                key.to_vec(),
                if crypto::util::supports_aesni() {
                    Box::new(crypto::aesni::AesNiEncryptor::new(crypto::aes::KeySize::KeySize256, key)) as Box<dyn BlockEncryptor>
                } else {
                    Box::new(crypto::aessafe::AesSafe256Encryptor::new(key))
                },
            ));
        }
        let inp = *block;
        c.as_ref().unwrap().1.encrypt_block(&inp, block);
    })
}

fn ecb_dec(key: &[u8], block: &mut [u8; 16]) {
    thread_local!(static C: std::cell::RefCell<Option<(Vec<u8>, Box<dyn BlockDecryptor>)>> = std::cell::RefCell::new(None));
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().map(|x| x.0 != key).unwrap_or(true) {
            *c = Some((
                key.to_vec(),
                if crypto::util::supports_aesni() {
                    Box::new(crypto::aesni::AesNiDecryptor::new(crypto::aes::KeySize::KeySize256, key)) as Box<dyn BlockDecryptor>
                } else {
                    Box::new(crypto::aessafe::AesSafe256Decryptor::new(key))
                },
            ));
        }
        let inp = *block;
        c.as_ref().unwrap().1.decrypt_block(&inp, block);
    })
}

pub fn cbc_enc_raw(key: &[u8], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    assert!(data.len() % 16 == 0);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for ch in data.chunks(16) {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = ch[i] ^ prev[i];
        }
        ecb_enc(key, &mut b);
        out.extend_from_slice(&b);
        prev = b;
    }
    out
}

pub fn pad(data: &[u8]) -> Vec<u8> {
    let n = 16 - data.len() % 16;
    let mut v = data.to_vec();
    v.extend(std::iter::repeat(n as u8).take(n));
    v
}

pub fn cbc_enc(key: &[u8], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    cbc_enc_raw(key, iv, &pad(data))
}

pub fn cbc_dec(key: &[u8], iv: &[u8; 16], data: &[u8]) -> Result<Vec<u8>, String> {
    if data.is_empty() || data.len() % 16 != 0 {
        return Err(format!("ciphertext length {}", data.len()));
    }
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for ch in data.chunks(16) {
        let mut c = [0u8; 16];
        c.copy_from_slice(ch);
        let mut b = c;
        ecb_dec(key, &mut b);
        for i in 0..16 {
            out.push(b[i] ^ prev[i]);
        }
        prev = c;
    }
    let n = *out.last().unwrap() as usize;
    if n == 0 || n > 16 || out[out.len() - n..].iter().any(|&x| x as usize != n) {
        return Err("padding".into());
    }
    out.truncate(out.len() - n);
    Ok(out)
}

/// Salsa20/20, written from the specification.
pub struct Salsa {
    state: [u32; 16],
    block: [u8; 64],
    pos: usize,
    pub count: u64,
}

impl Salsa {
    pub fn new(protected_stream_key: &[u8]) -> Salsa {
        let key = sha(protected_stream_key);
        Salsa::raw(&key, &[0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a])
    }
    pub fn raw(key: &[u8; 32], nonce: &[u8; 8]) -> Salsa {
        let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let c = b"expand 32-byte k";
        let mut s = [0u32; 16];
        s[0] = le(&c[0..]);
        s[5] = le(&c[4..]);
        s[10] = le(&c[8..]);
        s[15] = le(&c[12..]);
        for i in 0..4 {
            s[1 + i] = le(&key[4 * i..]);
            s[11 + i] = le(&key[16 + 4 * i..]);
        }
        s[6] = le(&nonce[0..]);
        s[7] = le(&nonce[4..]);
        Salsa {
            state: s,
            block: [0; 64],
            pos: 64,
            count: 0,
        }
    }
    fn refill(&mut self) {
        let mut x = self.state;
        fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
            x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
            x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
            x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
            x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
        }
        for _ in 0..10 {
            qr(&mut x, 0, 4, 8, 12);
            qr(&mut x, 5, 9, 13, 1);
            qr(&mut x, 10, 14, 2, 6);
            qr(&mut x, 15, 3, 7, 11);
            qr(&mut x, 0, 1, 2, 3);
            qr(&mut x, 5, 6, 7, 4);
            qr(&mut x, 10, 11, 8, 9);
            qr(&mut x, 15, 12, 13, 14);
        }
        for i in 0..16 {
            let w = x[i].wrapping_add(self.state[i]);
            self.block[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
        }
        let (lo, c) = self.state[8].overflowing_add(1);
        self.state[8] = lo;
        if c {
            self.state[9] = self.state[9].wrapping_add(1);
        }
        self.pos = 0;
    }
    pub fn apply(&mut self, data: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(data.len());
        for &b in data {
            if self.pos == 64 {
                self.refill();
            }
            out.push(b ^ self.block[self.pos]);
            self.pos += 1;
            self.count += 1;
        }
        out
    }
}

pub fn composite(password: Option<&str>, keyfile: Option<&[u8]>) -> [u8; 32] {
    let mut v = Vec::new();
    if let Some(p) = password {
        v.extend_from_slice(&sha(p.as_bytes()));
    }
    if let Some(k) = keyfile {
        v.extend_from_slice(k);
    }
    sha(&v)
}

pub fn transform(composite: &[u8; 32], seed: &[u8; 32], rounds: u64) -> [u8; 32] {
    let mut a = [0u8; 16];
    let mut b = [0u8; 16];
    a.copy_from_slice(&composite[..16]);
    b.copy_from_slice(&composite[16..]);
    for _ in 0..rounds {
        ecb_enc(seed, &mut a);
        ecb_enc(seed, &mut b);
    }
    sha2(&a, &b)
}

pub fn master_key(composite: &[u8; 32], master_seed: &[u8; 32], tseed: &[u8; 32], rounds: u64) -> [u8; 32] {
    sha2(master_seed, &transform(composite, tseed, rounds))
}

pub fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// Compressed in another way: every one is a valid gzip file (RFC 1952).
pub fn gz_as(kind: &str, data: &[u8]) -> Vec<u8> {
    let at = |level: u32, d: &[u8]| {
        let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level));
        e.write_all(d).unwrap();
        e.finish().unwrap()
    };
    match kind {
        "stored" => at(0, data),
        "fast" => at(1, data),
        "best" => at(9, data),
        "named" => {
            let mut e = flate2::GzBuilder::new()
                .filename("Database.xml")
                .comment("made by a program")
                .extra(vec![1, 2, 3, 4])
                .mtime(1_500_000_000)
                .operating_system(11)
                .write(Vec::new(), flate2::Compression::default());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        "members" => {
            let n = data.len() / 3;
            [at(6, &data[..n]), at(0, &data[n..2 * n]), at(9, &data[2 * n..])].concat()
        }
        "flushed" => {
            let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
            for c in data.chunks(data.len() / 5 + 1) {
                e.write_all(c).unwrap();
                e.flush().unwrap();
            }
            e.finish().unwrap()
        }
        _ => gz(data),
    }
}

pub fn ungz(data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut d = flate2::read::MultiGzDecoder::new(data);
    d.read_to_end(&mut out).map_err(|e| e.to_string())?;
    Ok(out)
}

/// The parameters of a file to be written.
#[derive(Clone, Debug)]
pub struct Params {
    pub composite: [u8; 32],
    pub comment: Option<Vec<u8>>,
    pub gzip: bool,
    pub deflate: &'static str,
    pub rounds: u64,
    pub version: (u16, u16), // major, minor
    pub master_seed: [u8; 32],
    pub transform_seed: [u8; 32],
    pub iv: [u8; 16],
    pub psk: [u8; 32],
    pub start: [u8; 32],
}

impl Params {
    pub fn new(rng: &mut Rng, composite: [u8; 32]) -> Params {
        Params {
            composite,
            comment: None,
            gzip: true,
            deflate: "usual",
            rounds: 1,
            version: (3, 1),
            master_seed: rng.arr32(),
            transform_seed: rng.arr32(),
            iv: rng.arr16(),
            psk: rng.arr32(),
            start: rng.arr32(),
        }
    }
    pub fn key(&self) -> [u8; 32] {
        master_key(&self.composite, &self.master_seed, &self.transform_seed, self.rounds)
    }
    /// Data of the standard header field.
    pub fn field(&self, id: u8) -> Vec<u8> {
        match id {
            0 => b"\r\n\r\n".to_vec(),
            1 => self.comment.clone().unwrap_or_default(),
            2 => AES_ID.to_vec(),
            3 => (self.gzip as u32).to_le_bytes().to_vec(),
            4 => self.master_seed.to_vec(),
            5 => self.transform_seed.to_vec(),
            6 => self.rounds.to_le_bytes().to_vec(),
            7 => self.iv.to_vec(),
            8 => self.psk.to_vec(),
            9 => self.start.to_vec(),
            10 => 2u32.to_le_bytes().to_vec(),
            _ => panic!("field {}", id),
        }
    }
    pub fn standard_header(&self) -> Vec<u8> {
        let mut ids = vec![];
        if self.comment.is_some() {
            ids.push(1);
        }
        ids.extend_from_slice(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 0]);
        self.header_in_order(&ids)
    }
    pub fn header_in_order(&self, ids: &[u8]) -> Vec<u8> {
        let mut h = self.prologue();
        for &id in ids {
            h.extend(tlv(id, &self.field(id)));
        }
        h
    }
    pub fn prologue(&self) -> Vec<u8> {
        let mut h = Vec::new();
        h.extend_from_slice(&SIG1);
        h.extend_from_slice(&SIG2);
        h.extend_from_slice(&self.version.1.to_le_bytes());
        h.extend_from_slice(&self.version.0.to_le_bytes());
        h
    }
    pub fn encrypt_payload(&self, payload: &[u8]) -> Vec<u8> {
        cbc_enc(&self.key(), &self.iv, payload)
    }
    /// A complete file: `cuts` are the sizes of the blocks before the last.
    pub fn file(&self, header: &[u8], xml: &[u8], block_size: usize) -> Vec<u8> {
        let data = if self.gzip { gz_as(self.deflate, xml) } else { xml.to_vec() };
        let mut payload = self.start.to_vec();
        let mut id = 0u32;
        for ch in data.chunks(block_size.max(1)) {
            payload.extend(block(id, &sha(ch), ch));
            id += 1;
        }
        payload.extend(block(id, &[0; 32], &[]));
        let mut f = header.to_vec();
        f.extend(self.encrypt_payload(&payload));
        f
    }
}

pub fn tlv(id: u8, data: &[u8]) -> Vec<u8> {
    let mut v = vec![id];
    v.extend_from_slice(&(data.len() as u16).to_le_bytes());
    v.extend_from_slice(data);
    v
}

pub fn block(id: u32, hash: &[u8; 32], data: &[u8]) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    v.extend_from_slice(hash);
    v.extend_from_slice(&(data.len() as u32).to_le_bytes());
    v.extend_from_slice(data);
    v
}

/// What the strict reader finds in a file.
#[derive(Clone, Debug)]
pub struct Decoded {
    pub version: (u16, u16),
    pub fields: Vec<(u8, Vec<u8>)>,
    pub header: Vec<u8>,
    pub cipher: Vec<u8>,
    pub payload: Vec<u8>,
    pub block_sizes: Vec<usize>,
    pub xml: Vec<u8>,
    pub params: Params,
}

/// Splits a file into header fields and ciphertext.
pub fn split(file: &[u8]) -> Result<((u16, u16), Vec<(u8, Vec<u8>)>, usize), String> {
    let get = |a: usize, n: usize| file.get(a..a + n).ok_or(format!("file ends at {}", a));
    if get(0, 4)? != SIG1 {
        return Err("signature 1".into());
    }
    if get(4, 4)? != SIG2 {
        return Err("signature 2".into());
    }
    let le16 = |b: &[u8]| u16::from_le_bytes([b[0], b[1]]);
    let minor = le16(get(8, 2)?);
    let major = le16(get(10, 2)?);
    let mut p = 12;
    let mut fields = Vec::new();
    loop {
        let id = get(p, 1)?[0];
        let n = le16(get(p + 1, 2)?) as usize;
        let d = get(p + 3, n)?.to_vec();
        p += 3 + n;
        fields.push((id, d));
        if id == 0 {
            break;
        }
    }
    Ok(((major, minor), fields, p))
}

/// The strict reader: every required field exactly once with its exact size,
/// correct padding, hashes and numbering, nothing after the final block.
pub fn decode(file: &[u8], composite: &[u8; 32]) -> Result<Decoded, String> {
    let (version, fields, hlen) = split(file)?;
    let mut seen = std::collections::BTreeMap::new();
    for (id, d) in &fields {
        if seen.insert(*id, d.clone()).is_some() {
            return Err(format!("header field {} twice", id));
        }
    }
    let need = |id: u8, n: usize| -> Result<Vec<u8>, String> {
        let d = seen.get(&id).ok_or(format!("header field {} missing", id))?;
        if d.len() != n {
            return Err(format!("header field {} has size {}", id, d.len()));
        }
        Ok(d.clone())
    };
    for (id, _) in &fields {
        if *id > 10 {
            return Err(format!("header field {} unknown", id));
        }
    }
    if need(2, 16)? != AES_ID {
        return Err("cipher id".into());
    }
    let comp = need(3, 4)?;
    let gzip = match comp.as_slice() {
        [0, 0, 0, 0] => false,
        [1, 0, 0, 0] => true,
        _ => return Err("compression".into()),
    };
    if need(10, 4)? != [2, 0, 0, 0] {
        return Err("stream cipher".into());
    }
    let a32 = |v: Vec<u8>| {
        let mut a = [0u8; 32];
        a.copy_from_slice(&v);
        a
    };
    let mut iv = [0u8; 16];
    iv.copy_from_slice(&need(7, 16)?);
    let mut r = [0u8; 8];
    r.copy_from_slice(&need(6, 8)?);
    let params = Params {
        composite: *composite,
        comment: seen.get(&1).cloned(),
        gzip,
        deflate: "usual",
        rounds: u64::from_le_bytes(r),
        version,
        master_seed: a32(need(4, 32)?),
        transform_seed: a32(need(5, 32)?),
        iv,
        psk: a32(need(8, 32)?),
        start: a32(need(9, 32)?),
    };
    let cipher = file[hlen..].to_vec();
    let payload = cbc_dec(&params.key(), &iv, &cipher)?;
    if payload.len() < 32 || payload[..32] != params.start {
        return Err("start bytes".into());
    }
    let (data, block_sizes) = read_blocks(&payload[32..])?;
    let xml = if gzip { ungz(&data)? } else { data };
    Ok(Decoded {
        version,
        fields,
        header: file[..hlen].to_vec(),
        cipher,
        payload,
        block_sizes,
        xml,
        params,
    })
}

pub fn read_blocks(p: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
    let mut pos = 0;
    let mut want = 0u32;
    let mut out = Vec::new();
    let mut sizes = Vec::new();
    let get = |a: usize, n: usize| p.get(a..a + n).ok_or(format!("payload ends at {}", a));
    loop {
        let w = get(pos, 40)?;
        let id = u32::from_le_bytes([w[0], w[1], w[2], w[3]]);
        let n = u32::from_le_bytes([w[36], w[37], w[38], w[39]]) as usize;
        let hash = &w[4..36];
        if id != want {
            return Err(format!("block id {} instead of {}", id, want));
        }
        let d = get(pos + 40, n)?;
        pos += 40 + n;
        sizes.push(n);
        if n == 0 {
            if hash != [0u8; 32] {
                return Err("final block hash".into());
            }
            break;
        }
        if sha(d) != hash {
            return Err(format!("block hash {}", id));
        }
        out.extend_from_slice(d);
        want += 1;
    }
    if pos != p.len() {
        return Err("data after the final block".into());
    }
    Ok((out, sizes))
}
