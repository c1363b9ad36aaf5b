//! A small strict XML 1.0 reader used as the oracle for response documents.

#[derive(Debug, Clone, PartialEq)]
pub struct Node {
    pub name: String,
    pub text: String,
    pub children: Vec<Node>,
}

impl Node {
    pub fn child(&self, name: &str) -> Option<&Node> {
        self.children.iter().find(|c| c.name == name)
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Node> + 'a {
        self.children.iter().filter(move |c| c.name == name)
    }
    pub fn text_of(&self, name: &str) -> Option<&str> {
        self.child(name).map(|c| c.text.as_str())
    }
    pub fn show(&self) -> String {
        if self.children.is_empty() {
            format!("<{}>{:?}", self.name, self.text)
        } else {
            format!("<{}>[{}]", self.name, self.children.iter().map(Node::show).collect::<Vec<_>>().join(" "))
        }
    }
}

pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

pub fn parse(b: &[u8]) -> Result<Node, String> {
    let s = std::str::from_utf8(b).map_err(|e| format!("not utf-8: {e}"))?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    if let Some(c) = s.chars().find(|c| !xml_char(*c)) {
        return Err(format!("character {c:?} is not allowed in XML 1.0"));
    }
    let mut p = P { s, i: 0 };
    if p.rest().starts_with("<?xml") {
        let end = p.rest().find("?>").ok_or("unterminated declaration")?;
        let decl = &p.rest()[..end];
        if !decl.contains("version=\"1.0\"") {
            return Err(format!("bad declaration {decl}"));
        }
        p.i += end + 2;
    }
    p.misc()?;
    let n = p.element(0)?;
    p.misc()?;
    if !p.rest().is_empty() {
        return Err(format!("content after the root element: {:?}", &p.rest().chars().take(40).collect::<String>()));
    }
    Ok(n)
}

fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-' || c == '.'
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn ws(&mut self) {
        let r = self.rest();
        self.i += r.len() - r.trim_start_matches([' ', '\t', '\r', '\n']).len();
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.rest().starts_with("<!--") {
                let e = self.rest().find("-->").ok_or("unterminated comment")?;
                self.i += e + 3;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let mut it = r.char_indices();
        match it.next() {
            Some((_, c)) if name_start(c) => {}
            x => return Err(format!("bad name start {x:?}")),
        }
        let end = it.find(|(_, c)| !name_char(*c)).map_or(r.len(), |(i, _)| i);
        self.i += end;
        Ok(r[..end].to_owned())
    }
    fn eat(&mut self, t: &str) -> Result<(), String> {
        if self.rest().starts_with(t) {
            self.i += t.len();
            Ok(())
        } else {
            Err(format!("expected {t:?} at {:?}", self.rest().chars().take(30).collect::<String>()))
        }
    }
    fn reference(&mut self, out: &mut String) -> Result<(), String> {
        let r = self.rest();
        let e = r.find(';').ok_or("unterminated reference")?;
        let n = &r[1..e];
        let c = match n {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16)
                } else if let Some(d) = n.strip_prefix('#') {
                    d.parse()
                } else {
                    return Err(format!("unknown entity {n}"));
                };
                let c = v.ok().and_then(char::from_u32).ok_or("bad character reference")?;
                if !xml_char(c) {
                    return Err("character reference to a forbidden character".into());
                }
                c
            }
        };
        out.push(c);
        self.i += e + 1;
        Ok(())
    }
    fn element(&mut self, depth: usize) -> Result<Node, String> {
        if depth > 50 {
            return Err("too deep".into());
        }
        self.eat("<")?;
        let name = self.name()?;
        let mut attrs: Vec<String> = vec![];
        loop {
            let had = self.i;
            self.ws();
            let r = self.rest();
            if r.starts_with("/>") {
                self.i += 2;
                return Ok(Node { name, text: String::new(), children: vec![] });
            }
            if r.starts_with('>') {
                self.i += 1;
                break;
            }
            if had == self.i {
                return Err("attribute without space".into());
            }
            let a = self.name()?;
            if attrs.contains(&a) {
                return Err("duplicate attribute".into());
            }
            attrs.push(a);
            self.ws();
            self.eat("=")?;
            self.ws();
            let q = self.rest().chars().next().ok_or("eof")?;
            if q != '"' && q != '\'' {
                return Err("unquoted attribute".into());
            }
            self.i += 1;
            let e = self.rest().find(q).ok_or("unterminated attribute")?;
            if self.rest()[..e].contains('<') {
                return Err("< in attribute".into());
            }
            self.i += e + 1;
        }
        let mut n = Node { name, text: String::new(), children: vec![] };
        loop {
            let r = self.rest();
            if r.is_empty() {
                return Err(format!("unterminated element {}", n.name));
            }
            if r.starts_with("</") {
                self.i += 2;
                let e = self.name()?;
                if e != n.name {
                    return Err(format!("mismatched end tag {e} for {}", n.name));
                }
                self.ws();
                self.eat(">")?;
                return Ok(n);
            } else if r.starts_with("<!--") {
                let e = r.find("-->").ok_or("unterminated comment")?;
                self.i += e + 3;
            } else if r.starts_with("<![CDATA[") {
                let e = r.find("]]>").ok_or("unterminated cdata")?;
                n.text.push_str(&r[9..e]);
                self.i += e + 3;
            } else if r.starts_with('<') {
                let c = self.element(depth + 1)?;
                n.children.push(c);
            } else if r.starts_with('&') {
                let mut t = String::new();
                self.reference(&mut t)?;
                n.text.push_str(&t);
            } else {
                let e = r.find(['<', '&']).unwrap_or(r.len());
                let raw = &r[..e];
                if raw.contains("]]>") {
                    return Err("]]> in text".into());
                }
                // XML end-of-line normalisation
                n.text.push_str(&raw.replace("\r\n", "\n").replace('\r', "\n"));
                self.i += e;
            }
        }
    }
}

pub fn escape_text(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}
