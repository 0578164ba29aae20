//! Prints what the library `bulloak-syntax` makes of a text: one line per node
//! of its trees, or what its errors say about themselves.
use std::io::{Read, Write};

use bulloak_syntax::{parser, semantics, tokenizer, Ast, FrontendError, Position, Span};

fn pos(p: &Position) -> String {
    format!("{}:{}:{}", p.offset, p.line, p.column)
}

fn span(s: &Span) -> String {
    format!("{} {}", pos(&s.start), pos(&s.end))
}

fn dump(a: &Ast, depth: usize, o: &mut String) {
    let (kind, text, kids): (_, &str, &[Ast]) = match a {
        Ast::Root(x) => ("root", &x.contract_name, &x.children),
        Ast::Condition(x) => ("condition", &x.title, &x.children),
        Ast::Action(x) => ("action", &x.title, &x.children),
        Ast::ActionDescription(x) => ("description", &x.text, &[]),
    };
    o.push_str(&format!("{depth} {kind} {} {text:?}\n", span(a.span())));
    for k in kids {
        dump(k, depth + 1, o);
    }
}

fn error<K: std::fmt::Display>(e: &dyn FrontendError<K>, text: &str, o: &mut String) {
    let whole = if text.starts_with(e.text()) { "start" } else { "other" };
    o.push_str(&format!("error {} {whole} {} {:?}\n", span(e.span()), e.text().len(), e.kind().to_string()));
}

fn errors(e: &anyhow::Error, text: &str, o: &mut String) {
    if let Some(e) = e.downcast_ref::<tokenizer::Error>() {
        error(e, text, o);
    } else if let Some(e) = e.downcast_ref::<parser::Error>() {
        error(e, text, o);
    } else if let Some(e) = e.downcast_ref::<semantics::Errors>() {
        for e in &e.0 {
            error(e, text, o);
        }
    } else {
        o.push_str(&format!("unknown error {e:?}\n"));
    }
}

fn main() {
    let file = std::env::args().nth(1).expect("a file");
    let mut text = String::new();
    std::fs::File::open(&file).expect("open").read_to_string(&mut text).expect("read");
    let mut o = String::new();
    match bulloak_syntax::parse(&text) {
        Ok(trees) => trees.iter().for_each(|t| dump(t, 0, &mut o)),
        Err(e) => errors(&e, &text, &mut o),
    }
    o.push_str("---\n");
    match bulloak_syntax::parse_one(&text) {
        Ok(t) => dump(&t, 0, &mut o),
        Err(e) => errors(&e, &text, &mut o),
    }
    std::io::stdout().write_all(o.as_bytes()).expect("write");
}
