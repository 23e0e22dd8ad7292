//! A strict XML 1.0 + namespaces reader, and a writer with a choice of forms. Independent of
//! the reader and writer under test.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Node {
    pub name: String,
    pub attr: Vec<(String, String)>,
    pub kids: Vec<Kid>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Kid {
    Node(Node),
    Text(String),
}
impl Node {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attr.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    pub fn nodes(&self) -> impl Iterator<Item = &Node> {
        self.kids.iter().filter_map(|k| match k {
            Kid::Node(n) => Some(n),
            Kid::Text(_) => None,
        })
    }
    /// the first child of this name
    pub fn child(&self, n: &str) -> Option<&Node> {
        self.nodes().find(|k| k.name == n)
    }
    pub fn at(&self, path: &[&str]) -> Option<&Node> {
        path.iter().try_fold(self, |n, p| n.child(p))
    }
    pub fn find(&self, n: &str) -> Option<&Node> {
        if self.name == n {
            return Some(self);
        }
        self.nodes().find_map(|k| k.find(n))
    }
    pub fn count(&self, n: &str) -> usize {
        (self.name == n) as usize + self.nodes().map(|k| k.count(n)).sum::<usize>()
    }
    /// without the text made of line breaks and blanks only
    pub fn trim(&mut self) {
        self.kids.retain(|k| match k {
            Kid::Text(t) => !t.bytes().all(|b| b == b'\n' || b == b' ' || b == b'\t'),
            _ => true,
        });
        for k in &mut self.kids {
            if let Kid::Node(n) = k {
                n.trim()
            }
        }
    }
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    ns: Vec<String>,
}
type R<T> = Result<T, &'static str>;
fn name_start(b: u8) -> bool {
    b.is_ascii_alphabetic() || b == b'_' || b >= 0x80
}
fn name_char(b: u8) -> bool {
    name_start(b) || b.is_ascii_digit() || b == b'-' || b == b'.'
}
/// No control characters, no U+FFFE and U+FFFF. Without branches on the bytes.
pub fn legal(t: &str) -> bool {
    let b = t.as_bytes();
    let mut bad = false;
    for i in 0..b.len() {
        bad |= (b[i] < 32) & (b[i] != 9) & (b[i] != 10) & (b[i] != 13);
        if i + 2 < b.len() {
            bad |= (b[i] == 0xef) & (b[i + 1] == 0xbf) & (b[i + 2] >= 0xbe);
        }
    }
    !bad
}
impl<'a> P<'a> {
    fn is(&self, t: &str) -> bool {
        self.b.len() - self.i >= t.len() && &self.b[self.i..self.i + t.len()] == t.as_bytes()
    }
    fn eat(&mut self, t: &str) -> bool {
        let r = self.is(t);
        if r {
            self.i += t.len();
        }
        r
    }
    fn want(&mut self, t: &str, e: &'static str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(e)
        }
    }
    fn space(&mut self) -> bool {
        let i = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\r' | b'\n') {
            self.i += 1;
        }
        self.i > i
    }
    /// text up to the mark, which is eaten
    fn upto(&mut self, mark: &str, e: &'static str) -> R<&'a str> {
        let i = self.i;
        while self.i < self.b.len() {
            if self.is(mark) {
                let t = &self.s[i..self.i];
                self.i += mark.len();
                return if legal(t) { Ok(t) } else { Err("illegal character") };
            }
            self.i += 1;
        }
        Err(e)
    }
    fn name(&mut self) -> R<String> {
        let i = self.i;
        let mut colon = 0;
        let mut first = true;
        while self.i < self.b.len() {
            let b = self.b[self.i];
            if b == b':' {
                colon += 1;
                if first {
                    return Err("name starts with a colon");
                }
                first = true;
            } else if first {
                if !name_start(b) {
                    break;
                }
                first = false;
            } else if !name_char(b) {
                break;
            }
            self.i += 1;
        }
        if first || colon > 1 {
            return Err("not a name");
        }
        Ok(self.s[i..self.i].to_string())
    }
    fn entity(&mut self) -> R<char> {
        // after the &
        for (n, c) in [("lt;", '<'), ("gt;", '>'), ("amp;", '&'), ("quot;", '"'), ("apos;", '\'')] {
            if self.eat(n) {
                return Ok(c);
            }
        }
        let hex = self.eat("#x");
        if !hex && !self.eat("#") {
            return Err("entity is not declared");
        }
        let mut v = 0u32;
        let mut n = 0;
        while self.i < self.b.len() && self.b[self.i] != b';' {
            let d = (self.b[self.i] as char).to_digit(if hex { 16 } else { 10 });
            v = v * if hex { 16 } else { 10 } + d.ok_or("not a character reference")?;
            n += 1;
            if n > 7 {
                return Err("not a character reference");
            }
            self.i += 1;
        }
        self.want(";", "not a character reference")?;
        match char::from_u32(v) {
            Some(c) if n > 0 && (c >= ' ' || c == '\t' || c == '\n' || c == '\r') && c != '\u{fffe}' && c != '\u{ffff}' => Ok(c),
            _ => Err("not a character"),
        }
    }
    /// text up to one of the marks
    fn text(&mut self, quote: Option<u8>) -> R<String> {
        let mut o = String::new();
        loop {
            let i = self.i;
            while self.i < self.b.len() {
                let b = self.b[self.i];
                if b == b'<' || b == b'&' || Some(b) == quote {
                    break;
                }
                if b == b'>' && quote.is_none() && self.i >= i + 2 && self.b[self.i - 1] == b']' && self.b[self.i - 2] == b']' {
                    return Err("]]> in the text");
                }
                self.i += 1;
            }
            let t = &self.s[i..self.i];
            if !legal(t) {
                return Err("illegal character");
            }
            if quote.is_some() {
                // white space in attributes is read as a blank
                let b = t.bytes().map(|b| if b < 32 { b' ' } else { b }).collect();
                o.push_str(&String::from_utf8(b).unwrap_or_default());
            } else {
                if t.bytes().any(|b| b == b'\r') {
                    o.push_str(&t.replace("\r\n", "\n").replace('\r', "\n"));
                } else {
                    o.push_str(t);
                }
            }
            if self.i < self.b.len() && self.b[self.i] == b'&' {
                self.i += 1;
                o.push(self.entity()?);
            } else {
                return Ok(o);
            }
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            if self.space() {
            } else if self.eat("<!--") {
                let t = self.upto("--", "comment has no end")?;
                let _ = t;
                self.want(">", "-- in a comment")?;
            } else if self.is("<?") {
                self.i += 2;
                self.upto("?>", "processing instruction has no end")?;
            } else {
                return Ok(());
            }
        }
    }
    fn declared(&self, name: &str) -> bool {
        match name.split_once(':') {
            Some((p, _)) => p == "xml" || self.ns.iter().any(|n| n == p),
            None => true,
        }
    }
    fn element(&mut self) -> R<Node> {
        self.want("<", "element expected")?;
        let mut n = Node { name: self.name()?, ..Default::default() };
        let ns = self.ns.len();
        loop {
            let s = self.space();
            if self.is(">") || self.is("/>") {
                break;
            }
            if !s {
                return Err("no blank between attributes");
            }
            let k = self.name()?;
            self.space();
            self.want("=", "attribute has no value")?;
            self.space();
            let q = match self.b.get(self.i) {
                Some(b'"') => b'"',
                Some(b'\'') => b'\'',
                _ => return Err("attribute has no quotes"),
            };
            self.i += 1;
            let v = self.text(Some(q))?;
            if self.b.get(self.i) != Some(&q) {
                return Err("< in an attribute");
            }
            self.i += 1;
            if let Some(p) = k.strip_prefix("xmlns:") {
                self.ns.push(p.to_string());
            }
            if n.attr(&k).is_some() {
                return Err("attribute occurs twice");
            }
            n.attr.push((k, v));
        }
        if !self.declared(&n.name) || !n.attr.iter().all(|a| a.0.starts_with("xmlns:") || self.declared(&a.0)) {
            return Err("prefix is not declared");
        }
        if !self.eat("/>") {
            self.want(">", "tag has no end")?;
            loop {
                if self.eat("</") {
                    let e = self.name()?;
                    self.space();
                    self.want(">", "tag has no end")?;
                    if e != n.name {
                        return Err("end tag without start tag");
                    }
                    break;
                } else if self.is("<!--") || self.is("<?") {
                    self.misc()?;
                } else if self.eat("<![CDATA[") {
                    let t = self.upto("]]>", "CDATA has no end")?;
                    n.push(t);
                } else if self.is("<") {
                    let k = self.element()?;
                    n.kids.push(Kid::Node(k));
                } else if self.i == self.b.len() {
                    return Err("element has no end");
                } else {
                    let t = self.text(None)?;
                    n.push(&t);
                }
            }
        }
        self.ns.truncate(ns);
        Ok(n)
    }
}
impl Node {
    fn push(&mut self, t: &str) {
        if let Some(Kid::Text(l)) = self.kids.last_mut() {
            l.push_str(t);
        } else if !t.is_empty() {
            self.kids.push(Kid::Text(t.to_string()));
        }
    }
}
/// The document, if it is well-formed.
pub fn parse(doc: &[u8]) -> R<Node> {
    let s = std::str::from_utf8(doc).map_err(|_| "not UTF-8")?;
    let mut p = P { s, b: s.as_bytes(), i: 0, ns: vec![] };
    if p.eat("<?xml ") {
        let t = p.upto("?>", "declaration has no end")?;
        if !t.starts_with("version=\"1.0\"") {
            return Err("declaration");
        }
    }
    p.misc()?;
    let n = p.element()?;
    p.misc()?;
    if p.i != p.b.len() {
        return Err("content after the document");
    }
    Ok(n)
}

/// How a document is written.
#[derive(Clone, Copy, Default, Debug)]
pub struct Form {
    /// no declaration
    pub bare: bool,
    /// 1: <a></a> for elements without content, 2: also line breaks before the end of a tag
    pub empty: u8,
    /// attributes in the other order
    pub turn: bool,
    /// attributes in '
    pub quote: bool,
    /// 1: line breaks and blanks around the elements, 2: comments, 3: processing instructions
    pub between: u8,
    /// 1: CDATA, 2: decimal references, 3: hexadecimal references, 4: comments within
    pub text: u8,
}
/// attributes that are free text; references are used in these
fn free(k: &str) -> bool {
    matches!(
        k,
        "table:name" | "table:formula" | "table:title" | "table:condition" | "style:name" | "style:display-name" | "style:condition"
            | "table:style-name" | "xlink:href" | "xlink:title" | "svg:font-family" | "meta:name" | "config:name" | "draw:style-name"
            | "script:event-name" | "script:language" | "text:style-name" | "table:content-validation-name" | "office:currency"
    )
}
/// elements with text content, where blanks count
fn mixed(n: &str) -> bool {
    matches!(n, "text:p" | "text:h" | "text:span" | "text:a" | "office:script")
}
fn refs(t: &str, form: u8, o: &mut String) {
    for c in t.chars() {
        if form == 2 {
            o.push_str(&format!("&#{};", c as u32));
        } else {
            o.push_str(&format!("&#x{:x};", c as u32));
        }
    }
}
fn esc(t: &str, o: &mut String) {
    for c in t.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            '\n' => o.push_str("&#10;"),
            '\r' => o.push_str("&#13;"),
            '\t' => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
}
fn put(n: &Node, f: &Form, within: bool, o: &mut String) {
    let within = within || mixed(&n.name) || n.kids.iter().any(|k| matches!(k, Kid::Text(_)));
    o.push('<');
    o.push_str(&n.name);
    let mut a: Vec<&(String, String)> = n.attr.iter().collect();
    if f.turn {
        a.reverse();
    }
    for (k, v) in a {
        let q = if f.quote { '\'' } else { '"' };
        o.push_str(if f.empty == 2 { "\n  " } else { " " });
        o.push_str(k);
        o.push('=');
        o.push(q);
        if (f.text == 2 || f.text == 3) && free(k) {
            refs(v, f.text, o);
        } else {
            esc(v, o);
        }
        o.push(q);
    }
    if f.empty == 2 {
        o.push('\n');
    }
    if n.kids.is_empty() && f.empty == 0 {
        o.push_str("/>");
        return;
    }
    o.push('>');
    let gap = |o: &mut String| {
        if !within && (!n.kids.is_empty() || n.name.starts_with("table:")) {
            o.push_str(match f.between {
                1 => "\n   ",
                2 => "<!-- <a> & -->",
                3 => "<?p <a> ?>",
                _ => "",
            })
        }
    };
    gap(o);
    for k in &n.kids {
        match k {
            Kid::Node(n) => put(n, f, within, o),
            Kid::Text(t) => match f.text {
                1 => {
                    o.push_str("<![CDATA[");
                    o.push_str(t);
                    o.push_str("]]>");
                }
                2 | 3 => refs(t, f.text, o),
                4 => {
                    // the halves of the text
                    let m = (0..=t.len() / 2).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
                    esc(&t[..m], o);
                    o.push_str("<!-- x -->");
                    esc(&t[m..], o);
                }
                _ => esc(t, o),
            },
        }
        gap(o);
    }
    o.push_str("</");
    o.push_str(&n.name);
    if f.empty == 2 {
        o.push(' ');
    }
    o.push('>');
}
pub fn print(n: &Node, f: &Form) -> String {
    let mut o = String::new();
    if !f.bare {
        o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    put(n, f, false, &mut o);
    o
}

/// The parts of an uncompressed zip archive, by its local headers.
pub fn unzip(z: &[u8]) -> Vec<(String, Vec<u8>)> {
    let (mut i, mut v) = (0, vec![]);
    let n = |i: usize, k: usize| (0..k).fold(0usize, |a, j| a | (z[i + j] as usize) << (8 * j));
    while i + 30 <= z.len() && n(i, 4) == 0x04034b50 {
        let (size, name, extra) = (n(i + 18, 4), n(i + 26, 2), n(i + 28, 2));
        let d = i + 30 + name + extra;
        if d + size > z.len() {
            break;
        }
        v.push((String::from_utf8_lossy(&z[i + 30..i + 30 + name]).to_string(), z[d..d + size].to_vec()));
        i = d + size;
    }
    v
}
/// An uncompressed zip archive.
pub fn zip(parts: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut z: Vec<u8> = vec![];
    let mut dir: Vec<u8> = vec![];
    for (name, data) in parts {
        let mut crc = !0u32;
        for b in data {
            crc ^= *b as u32;
            for _ in 0..8 {
                crc = (crc >> 1) ^ (0xedb88320 & (crc & 1).wrapping_neg());
            }
        }
        let at = z.len() as u32;
        let mut h: Vec<u8> = vec![20, 0, 0, 8, 0, 0, 0, 0, 0x21, 0];
        h.extend_from_slice(&(!crc).to_le_bytes());
        h.extend_from_slice(&(data.len() as u32).to_le_bytes());
        h.extend_from_slice(&(data.len() as u32).to_le_bytes());
        h.extend_from_slice(&(name.len() as u16).to_le_bytes());
        h.extend_from_slice(&[0, 0]);
        z.extend_from_slice(b"PK\x03\x04");
        z.extend_from_slice(&h);
        z.extend_from_slice(name.as_bytes());
        z.extend_from_slice(data);
        dir.extend_from_slice(b"PK\x01\x02\x14\x00");
        dir.extend_from_slice(&h);
        dir.extend_from_slice(&[0; 10]);
        dir.extend_from_slice(&at.to_le_bytes());
        dir.extend_from_slice(name.as_bytes());
    }
    let at = z.len() as u32;
    z.extend_from_slice(&dir);
    z.extend_from_slice(b"PK\x05\x06\x00\x00\x00\x00");
    z.extend_from_slice(&(parts.len() as u16).to_le_bytes());
    z.extend_from_slice(&(parts.len() as u16).to_le_bytes());
    z.extend_from_slice(&(dir.len() as u32).to_le_bytes());
    z.extend_from_slice(&at.to_le_bytes());
    z.extend_from_slice(&[0, 0]);
    z
}
