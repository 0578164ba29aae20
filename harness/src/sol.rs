//! A small Solidity reader, independent of the code under test: tokens with
//! comments, top-level items, contract members.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    /// Text including the markers, trailing blanks removed.
    Comment(String),
    Str(String),
    Word(String),
    Num(String),
    P(char),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub start: usize,
    pub end: usize,
    pub line: usize,
    /// Column of the first character, 1-based, in characters.
    pub col: usize,
}

fn word_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == '$' || unicode_xid::UnicodeXID::is_xid_start(c)
}

fn word_char(c: char) -> bool {
    word_start(c) || c.is_numeric() || unicode_xid::UnicodeXID::is_xid_continue(c)
}

pub fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let cs: Vec<(usize, char)> = src.char_indices().collect();
    let end_of = |i: usize| if i < cs.len() { cs[i].0 } else { src.len() };
    let mut v = vec![];
    let (mut i, mut line, mut line_start) = (0usize, 1usize, 0usize);
    while i < cs.len() {
        let c = cs[i].1;
        let (l0, c0) = (line, i - line_start + 1);
        let from = i;
        let n = cs.get(i + 1).map(|x| x.1);
        if c == '\n' {
            line += 1;
            line_start = i + 1;
            i += 1;
            continue;
        }
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        let t = if c == '/' && n == Some('/') {
            while i < cs.len() && cs[i].1 != '\n' && cs[i].1 != '\r' {
                i += 1;
            }
            T::Comment(src[cs[from].0..end_of(i)].trim_end().to_owned())
        } else if c == '/' && n == Some('*') {
            i += 2;
            loop {
                if i >= cs.len() {
                    return Err(format!("line {l0}: comment without end"));
                }
                if cs[i].1 == '*' && cs.get(i + 1).map(|x| x.1) == Some('/') {
                    i += 2;
                    break;
                }
                if cs[i].1 == '\n' {
                    line += 1;
                    line_start = i + 1;
                }
                i += 1;
            }
            T::Comment(src[cs[from].0..end_of(i)].to_owned())
        } else if c == '"' || c == '\'' {
            i += 1;
            loop {
                match cs.get(i).map(|x| x.1) {
                    None | Some('\n') => return Err(format!("line {l0}: string without end")),
                    Some('\\') => i += 2,
                    Some(d) if d == c => {
                        i += 1;
                        break;
                    }
                    _ => i += 1,
                }
            }
            T::Str(src[cs[from].0..end_of(i)].to_owned())
        } else if word_start(c) {
            while i < cs.len() && word_char(cs[i].1) {
                i += 1;
            }
            T::Word(src[cs[from].0..end_of(i)].to_owned())
        } else if c.is_ascii_digit() {
            while i < cs.len() && (word_char(cs[i].1) || cs[i].1 == '.') {
                i += 1;
            }
            T::Num(src[cs[from].0..end_of(i)].to_owned())
        } else {
            i += 1;
            T::P(c)
        };
        v.push(Tok { t, start: cs[from].0, end: end_of(i), line: l0, col: c0 });
    }
    Ok(v)
}

/// Blanks inside a comment carry no meaning.
pub fn norm_comment(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Token kinds, comments normalised, as used to compare pieces of code.
pub fn code_of(toks: &[Tok]) -> Vec<T> {
    toks.iter()
        .map(|t| match &t.t {
            T::Comment(c) => T::Comment(norm_comment(c)),
            o => o.clone(),
        })
        .collect()
}

pub fn without_comments(toks: &[Tok]) -> Vec<T> {
    toks.iter().filter(|t| !matches!(t.t, T::Comment(_))).map(|t| t.t.clone()).collect()
}

pub fn tokens_of(src: &str) -> Vec<T> {
    code_of(&lex(src).expect("harness text lexes"))
}

pub fn show(ts: &[T]) -> String {
    let mut s = String::new();
    for t in ts {
        match t {
            T::Comment(c) => {
                s.push_str(c);
                s.push('\n');
            }
            T::Str(w) | T::Word(w) | T::Num(w) => {
                s.push_str(w);
                s.push(' ');
            }
            T::P(c) => {
                s.push(*c);
                if matches!(c, ';' | '{' | '}') {
                    s.push('\n');
                } else {
                    s.push(' ');
                }
            }
        }
    }
    s
}

/// A top-level item or a contract member: comments before it and its own tokens.
#[derive(Clone, Debug)]
pub struct Item {
    pub lead: Vec<String>,
    pub toks: Vec<Tok>,
}

impl Item {
    pub fn word(&self, i: usize) -> Option<&str> {
        self.toks.iter().filter(|t| !matches!(t.t, T::Comment(_))).nth(i).and_then(|t| match &t.t {
            T::Word(w) => Some(w.as_str()),
            _ => None,
        })
    }
    pub fn line(&self) -> usize {
        self.toks[0].line
    }
    pub fn code(&self) -> Vec<T> {
        code_of(&self.toks)
    }
    /// `function x` / `modifier x`
    pub fn fn_name(&self) -> Option<(&str, &str)> {
        match self.word(0) {
            Some(k @ ("function" | "modifier")) => self.word(1).map(|n| (k, n)),
            _ => None,
        }
    }
    pub fn is_contract(&self) -> bool {
        matches!(self.word(0), Some("contract" | "library" | "interface"))
            || (self.word(0) == Some("abstract") && self.word(1) == Some("contract"))
    }
    pub fn contract_name(&self) -> Option<&str> {
        if self.word(0) == Some("abstract") {
            self.word(2)
        } else {
            self.word(1)
        }
    }
    /// Tokens up to the brace that opens the body, the body, and the index of
    /// the closing brace.
    pub fn contract_parts(&self) -> Result<(Vec<Tok>, Vec<Item>, Vec<String>), String> {
        let mut depth = 0i32;
        let open = self
            .toks
            .iter()
            .position(|t| {
                match t.t {
                    T::P('(') => depth += 1,
                    T::P(')') => depth -= 1,
                    _ => {}
                }
                depth == 0 && t.t == T::P('{')
            })
            .ok_or("contract without a body")?;
        let close = self.toks.len() - 1;
        let (items, tail) = items(&self.toks[open + 1..close])?;
        Ok((self.toks[..open].to_vec(), items, tail))
    }
    /// Tokens between the braces of a function or modifier.
    pub fn body(&self) -> Option<&[Tok]> {
        let open = self.toks.iter().position(|t| t.t == T::P('{'))?;
        Some(&self.toks[open + 1..self.toks.len() - 1])
    }
    /// Tokens between `)` of the parameter list and the body.
    pub fn attrs(&self) -> Vec<T> {
        let mut depth = 0;
        let mut v = vec![];
        let mut after = false;
        for t in &self.toks {
            if !after {
                match t.t {
                    T::P('(') => depth += 1,
                    T::P(')') => {
                        depth -= 1;
                        after = depth == 0;
                    }
                    T::P('{') => break,
                    _ => {}
                }
                continue;
            }
            match &t.t {
                T::P('{') | T::P(';') => break,
                T::Comment(_) => {}
                o => v.push(o.clone()),
            }
        }
        v
    }
    pub fn params(&self) -> Vec<T> {
        let mut depth = 0;
        let mut v = vec![];
        for t in &self.toks {
            match &t.t {
                T::P('(') => {
                    depth += 1;
                    if depth == 1 {
                        continue;
                    }
                }
                T::P(')') => {
                    depth -= 1;
                    if depth == 0 {
                        return v;
                    }
                }
                T::P('{') if depth == 0 => return v,
                _ => {}
            }
            if depth > 0 {
                v.push(t.t.clone());
            }
        }
        v
    }
}

/// Splits a token sequence into items; returns trailing comments too.
pub fn items(toks: &[Tok]) -> Result<(Vec<Item>, Vec<String>), String> {
    let mut v = vec![];
    let mut lead = vec![];
    let mut i = 0;
    while i < toks.len() {
        if let T::Comment(c) = &toks[i].t {
            lead.push(norm_comment(c));
            i += 1;
            continue;
        }
        let from = i;
        let using = toks[i].t == T::Word("using".into()) || toks[i].t == T::Word("import".into());
        let (mut paren, mut brace) = (0i32, 0i32);
        loop {
            if i >= toks.len() {
                return Err(format!("line {}: item without end", toks[from].line));
            }
            match toks[i].t {
                T::P('(') | T::P('[') => paren += 1,
                T::P(')') | T::P(']') => paren -= 1,
                T::P('{') => brace += 1,
                T::P('}') => {
                    brace -= 1;
                    if brace < 0 || paren < 0 {
                        return Err(format!("line {}: unbalanced brackets", toks[i].line));
                    }
                    if brace == 0 && paren == 0 && !using {
                        i += 1;
                        break;
                    }
                }
                T::P(';') if paren == 0 && brace == 0 => {
                    i += 1;
                    break;
                }
                _ => {}
            }
            i += 1;
        }
        v.push(Item { lead: std::mem::take(&mut lead), toks: toks[from..i].to_vec() });
    }
    Ok((v, lead))
}

/// A file that was read.
#[derive(Clone, Debug)]
pub struct Unit {
    pub items: Vec<Item>,
    pub tail: Vec<String>,
}

pub fn unit(src: &str) -> Result<Unit, String> {
    let toks = lex(src)?;
    let (items, tail) = items(&toks)?;
    Ok(Unit { items, tail })
}

impl Unit {
    pub fn contract(&self) -> Option<&Item> {
        self.items.iter().find(|i| i.is_contract())
    }
}

/// One scaffolded contract, as read back from text.
#[derive(Clone, Debug)]
pub struct Scaffolded {
    pub name: String,
    pub bases: Vec<T>,
    pub head: Vec<Item>,
    pub members: Vec<Item>,
}

pub fn scaffolded(src: &str) -> Result<Scaffolded, String> {
    let u = unit(src)?;
    if !u.tail.is_empty() {
        return Err("comments after the contract".into());
    }
    let n = u.items.iter().filter(|i| i.is_contract()).count();
    if n != 1 {
        return Err(format!("{n} contracts"));
    }
    let mut head = u.items;
    let c = head.pop().unwrap();
    if !c.is_contract() {
        return Err("something after the contract".into());
    }
    let (h, members, tail) = c.contract_parts()?;
    if !tail.is_empty() {
        return Err(format!("loose comments at the end of the contract: {tail:?}"));
    }
    let name = c.contract_name().ok_or("contract without a name")?.to_owned();
    Ok(Scaffolded { name, bases: code_of(&h[2.min(h.len())..]), head, members })
}

const KEYWORDS: &[&str] = &[
    "abstract", "address", "anonymous", "as", "assembly", "bool", "break", "bytes", "calldata", "catch", "constant",
    "constructor", "continue", "contract", "delete", "do", "else", "emit", "enum", "event", "external", "fallback",
    "false", "for", "function", "if", "immutable", "import", "indexed", "interface", "internal", "is", "library",
    "mapping", "memory", "modifier", "new", "override", "payable", "pragma", "private", "public", "pure", "receive",
    "return", "returns", "storage", "string", "struct", "this", "true", "try", "type", "unchecked", "using",
    "var", "view", "virtual", "while", "int", "uint", "case", "default", "final", "in", "inline", "let", "match",
    "null", "of", "relocatable", "static", "switch", "typeof", "after", "alias", "apply", "auto", "copyof", "define",
    "implements", "macro", "mutable", "partial", "promise", "reference", "sealed", "sizeof", "supports", "typedef",
];

pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.contains(&s)
}

/// Whether a name can be declared.
pub fn legal_identifier(s: &str) -> bool {
    let mut it = s.chars();
    let Some(f) = it.next() else { return false };
    word_start(f)
        && !f.is_numeric()
        && s.chars().all(|c| unicode_xid::UnicodeXID::is_xid_continue(c) || c == '_' || c == '$')
        && !is_keyword(s)
}
