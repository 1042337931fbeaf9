//! A small strict XML parser and writer, independent of the one the library uses.

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    E(Node),
    T(String),
    /// Raw markup, only for writing.
    Raw(String),
    /// Plain bytes of a protected value, before `seal`.
    P(Vec<u8>),
}

pub fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

impl Node {
    pub fn new(name: &str) -> Node {
        Node {
            name: name.into(),
            ..Default::default()
        }
    }
    pub fn leaf(name: &str, text: &str) -> Node {
        let mut n = Node::new(name);
        if !text.is_empty() {
            n.kids.push(Item::T(text.into()));
        }
        n
    }
    pub fn attr(mut self, k: &str, v: &str) -> Node {
        self.attrs.push((k.into(), v.into()));
        self
    }
    pub fn add(&mut self, n: Node) -> &mut Node {
        self.kids.push(Item::E(n));
        self
    }
    pub fn get_attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn elems(&self) -> impl Iterator<Item = &Node> {
        self.kids.iter().filter_map(|k| match k {
            Item::E(n) => Some(n),
            _ => None,
        })
    }
    pub fn text(&self) -> Result<String, String> {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Item::T(t) => s.push_str(t),
                Item::E(n) => return Err(format!("element {} inside the value element {}", n.name, self.name)),
                Item::Raw(_) | Item::P(_) => {}
            }
        }
        Ok(s)
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\r' => o.push_str("&#xD;"),
            _ => o.push(c),
        }
    }
    o
}

pub fn esc_attr(s: &str) -> String {
    esc(s).replace('\n', "&#xA;").replace('\t', "&#x9;")
}

/// How tags are written.
#[derive(Clone, Copy, Debug, Default)]
pub struct Look {
    /// `<a >`, `</a >`, white space around the equals sign
    pub spaced: bool,
    /// `a='b'`
    pub single: bool,
    /// `<a/>`
    pub short: bool,
}

/// Writes a node; with `indent` white space is put between elements.
pub fn write(n: &Node, indent: Option<&str>, depth: usize, out: &mut String) {
    write_as(n, indent, Look::default(), depth, out)
}

pub fn write_as(n: &Node, indent: Option<&str>, look: Look, depth: usize, out: &mut String) {
    let q = if look.single { '\'' } else { '"' };
    out.push('<');
    out.push_str(&n.name);
    for (k, v) in &n.attrs {
        out.push_str(if look.spaced { "\n  " } else { " " });
        out.push_str(k);
        out.push_str(if look.spaced { " =\t" } else { "=" });
        out.push(q);
        out.push_str(&esc_attr(v).replace('\'', "&apos;"));
        out.push(q);
    }
    if n.kids.is_empty() {
        out.push_str(if look.short { "/>" } else { " />" });
        return;
    }
    let end = if look.spaced { " >" } else { ">" };
    out.push_str(end);
    let mixed = n.kids.iter().any(|k| matches!(k, Item::T(_) | Item::Raw(_)));
    let ind = if mixed { None } else { indent };
    for k in &n.kids {
        if let Some(i) = ind {
            out.push('\n');
            for _ in 0..depth + 1 {
                out.push_str(i);
            }
        }
        match k {
            Item::E(e) => write_as(e, ind, look, depth + 1, out),
            Item::T(t) => out.push_str(&esc(t)),
            Item::Raw(t) => out.push_str(t),
            Item::P(_) => panic!("unsealed protected value"),
        }
    }
    if let Some(i) = ind {
        out.push('\n');
        for _ in 0..depth {
            out.push_str(i);
        }
    }
    out.push_str("</");
    out.push_str(&n.name);
    out.push_str(end);
}

/// Encrypts the protected values in document order.
pub fn seal(n: &mut Node, cipher: &mut crate::codec::Salsa) {
    for k in n.kids.iter_mut() {
        let new = match k {
            Item::E(e) => {
                seal(e, cipher);
                None
            }
            Item::P(b) => Some(crate::util::b64(&cipher.apply(b))),
            _ => None,
        };
        if let Some(t) = new {
            *k = Item::T(t);
        }
    }
    n.kids.retain(|k| !matches!(k, Item::T(t) if t.is_empty()));
}

pub fn document(root: &Node, indent: Option<&str>) -> Vec<u8> {
    document_as(root, indent, Look::default(), "keepass")
}

pub fn document_as(root: &Node, indent: Option<&str>, look: Look, prolog: &str) -> Vec<u8> {
    let mut s = String::from(match prolog {
        "none" => "",
        "short" => "<?xml version=\"1.0\"?>",
        "single" => "<?xml version='1.0' encoding='UTF-8'?>\r\n",
        "comment" => "<?xml version=\"1.0\" encoding=\"utf-8\"?><!-- <KeePassFile> -->\n<!---->\n",
        "instruction" => "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<?style href='a'?>\n",
        _ => "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\n",
    });
    write_as(root, indent, look, 0, &mut s);
    s.push_str(match prolog {
        "comment" => "\n<!-- end -->\n",
        "instruction" => "<?end?>",
        "single" => "\r\n",
        _ => "",
    });
    s.into_bytes()
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

pub fn parse(bytes: &[u8]) -> Result<Node, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {}", e))?;
    if let Some(c) = s.chars().find(|c| !legal(*c)) {
        return Err(format!("illegal character {:?}", c));
    }
    let mut p = P { s, i: 0 };
    if p.s.starts_with('\u{feff}') {
        p.i = 3;
    }
    p.misc()?;
    let mut stack: Vec<Node> = Vec::new();
    // iterative, so that nesting depth is no limit
    loop {
        let r = p.rest();
        if r.is_empty() {
            return Err("document ends early".into());
        }
        if let Some(x) = r.strip_prefix("</") {
            let end = x.find('>').ok_or("unclosed end tag")?;
            let name = x[..end].trim_end();
            let n = stack.pop().ok_or("end tag without start tag")?;
            if n.name != name {
                return Err(format!("end tag {} for {}", name, n.name));
            }
            p.i += 2 + end + 1;
            match stack.last_mut() {
                Some(t) => t.kids.push(Item::E(n)),
                None => {
                    p.misc()?;
                    if !p.rest().is_empty() {
                        return Err("content after the root element".into());
                    }
                    return Ok(n);
                }
            }
        } else if r.starts_with("<!--") {
            p.comment()?;
        } else if r.starts_with("<![CDATA[") {
            let end = r.find("]]>").ok_or("unclosed CDATA")?;
            let t = r[9..end].to_string();
            p.i += end + 3;
            match stack.last_mut() {
                Some(n) => push_text(n, t),
                None => return Err("text outside the root".into()),
            }
        } else if r.starts_with('<') {
            let (n, empty) = p.start_tag()?;
            if empty {
                match stack.last_mut() {
                    Some(t) => t.kids.push(Item::E(n)),
                    None => {
                        p.misc()?;
                        return if p.rest().is_empty() { Ok(n) } else { Err("content after the root element".into()) };
                    }
                }
            } else {
                stack.push(n);
            }
        } else {
            let end = r.find('<').unwrap_or(r.len());
            let raw = &r[..end];
            if raw.contains("]]>") {
                return Err("]]> in text".into());
            }
            let t = unescape(&raw.replace("\r\n", "\n").replace('\r', "\n"))?;
            p.i += end;
            match stack.last_mut() {
                Some(n) => push_text(n, t),
                None => return Err("text outside the root".into()),
            }
        }
    }
}

fn push_text(n: &mut Node, t: String) {
    if let Some(Item::T(prev)) = n.kids.last_mut() {
        prev.push_str(&t);
    } else {
        n.kids.push(Item::T(t));
    }
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn ws(&mut self) {
        while self.rest().starts_with([' ', '\t', '\r', '\n']) {
            self.i += 1;
        }
    }
    fn comment(&mut self) -> Result<(), String> {
        let e = self.rest().find("-->").ok_or("unclosed comment")?;
        self.i += e + 3;
        Ok(())
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            let r = self.rest();
            if r.starts_with("<?") {
                let e = r.find("?>").ok_or("unclosed declaration")?;
                self.i += e + 2;
            } else if r.starts_with("<!--") {
                self.comment()?;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let e = r
            .find(|c: char| !(c.is_alphanumeric() || c == '_' || c == '-' || c == '.' || c == ':'))
            .unwrap_or(r.len());
        if e == 0 {
            return Err(format!("name expected at {:?}", r.chars().take(20).collect::<String>()));
        }
        self.i += e;
        Ok(r[..e].to_string())
    }
    fn start_tag(&mut self) -> Result<(Node, bool), String> {
        self.i += 1;
        let mut n = Node::new(&self.name()?);
        loop {
            let before = self.i;
            self.ws();
            let r = self.rest();
            if r.starts_with("/>") {
                self.i += 2;
                return Ok((n, true));
            }
            if r.starts_with('>') {
                self.i += 1;
                return Ok((n, false));
            }
            if before == self.i {
                return Err("white space expected in tag".into());
            }
            let k = self.name()?;
            self.ws();
            if !self.rest().starts_with('=') {
                return Err("= expected".into());
            }
            self.i += 1;
            self.ws();
            let q = self.rest().chars().next().ok_or("quote expected")?;
            if q != '"' && q != '\'' {
                return Err("quote expected".into());
            }
            self.i += 1;
            let r = self.rest();
            let e = r.find(q).ok_or("unclosed attribute")?;
            let raw = &r[..e];
            if raw.contains('<') {
                return Err("< in attribute".into());
            }
            let v = unescape(&raw.replace(['\n', '\t', '\r'], " "))?;
            self.i += e + 1;
            if n.attrs.iter().any(|a| a.0 == k) {
                return Err(format!("attribute {} twice", k));
            }
            n.attrs.push((k, v));
        }
    }
}

fn unescape(s: &str) -> Result<String, String> {
    if !s.contains('&') {
        return Ok(s.to_string());
    }
    let mut o = String::with_capacity(s.len());
    let mut r = s;
    while let Some(k) = r.find('&') {
        o.push_str(&r[..k]);
        let e = r[k..].find(';').ok_or("unclosed entity")? + k;
        let name = &r[k + 1..e];
        match name {
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "amp" => o.push('&'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            _ => {
                let code = if let Some(h) = name.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = name.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                let c = code
                    .and_then(char::from_u32)
                    .filter(|c| legal(*c))
                    .ok_or(format!("entity {}", name))?;
                o.push(c);
            }
        }
        r = &r[e + 1..];
    }
    o.push_str(r);
    Ok(o)
}
