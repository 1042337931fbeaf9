//! Random numbers, text forms of bytes, JSON comparison.
use base64::{engine::general_purpose::STANDARD, Engine as _};
use serde_json::{json, Value};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e3779b97f4a7c15)
    }
    pub fn from_str(seed: u64, s: &str) -> Rng {
        let h = sha(s.as_bytes());
        let mut b = [0u8; 8];
        b.copy_from_slice(&h[..8]);
        Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ u64::from_le_bytes(b))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T {
        &list[self.below(list.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr16(&mut self) -> [u8; 16] {
        let mut a = [0; 16];
        a.copy_from_slice(&self.bytes(16));
        a
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let mut a = [0; 32];
        a.copy_from_slice(&self.bytes(32));
        a
    }
}

pub fn sha(data: &[u8]) -> [u8; 32] {
    use crypto::digest::Digest;
    let mut h = crypto::sha2::Sha256::new();
    h.input(data);
    let mut r = [0; 32];
    h.result(&mut r);
    r
}

pub fn sha2(a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    sha(&v)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn b64(b: &[u8]) -> String {
    STANDARD.encode(b)
}

pub fn unb64(s: &str) -> Option<Vec<u8>> {
    STANDARD.decode(s).ok()
}

/// Text form of bytes in projections.
pub fn jb(b: &[u8]) -> Value {
    if b.len() <= 48 {
        json!(format!("x:{}", hex(b)))
    } else {
        json!(format!("sha:{}:{}", hex(&sha(b)), b.len()))
    }
}

/// Text form of strings in projections.
pub fn js(s: &str) -> Value {
    json!(jstr(s))
}

pub fn jstr(s: &str) -> String {
    if s.len() <= 3000 {
        format!("t:{}", s)
    } else {
        format!("sha:{}:{}", hex(&sha(s.as_bytes())), s.len())
    }
}

/// First difference between two projections, as (path, a, b).
pub fn diff(a: &Value, b: &Value) -> Option<(String, Value, Value)> {
    fn go(path: &str, a: &Value, b: &Value) -> Option<(String, Value, Value)> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    match y.get(k) {
                        Some(w) => {
                            if let Some(d) = go(&format!("{}/{}", path, k), v, w) {
                                return Some(d);
                            }
                        }
                        None => return Some((format!("{}/{}", path, k), v.clone(), json!("<absent>"))),
                    }
                }
                for (k, w) in y {
                    if !x.contains_key(k) {
                        return Some((format!("{}/{}", path, k), json!("<absent>"), w.clone()));
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                for i in 0..x.len().max(y.len()) {
                    let p = format!("{}[{}]", path, i);
                    match (x.get(i), y.get(i)) {
                        (Some(v), Some(w)) => {
                            if let Some(d) = go(&p, v, w) {
                                return Some(d);
                            }
                        }
                        (Some(v), None) => return Some((p, v.clone(), json!("<absent>"))),
                        (None, Some(w)) => return Some((p, json!("<absent>"), w.clone())),
                        (None, None) => {}
                    }
                }
                None
            }
            _ => {
                if a == b {
                    None
                } else {
                    Some((path.to_string(), a.clone(), b.clone()))
                }
            }
        }
    }
    go("", a, b)
}

pub fn show_diff(a: &Value, b: &Value) -> Option<String> {
    diff(a, b).map(|(p, x, y)| {
        let cut = |v: &Value| {
            let s = v.to_string();
            if s.chars().count() > 200 {
                s.chars().take(200).collect::<String>() + "..."
            } else {
                s
            }
        };
        format!("at {}: expected {} but got {}", p, cut(&x), cut(&y))
    })
}
