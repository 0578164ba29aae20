//! C24: the syntax tree that the library makes of a text.

use serde::{Deserialize, Serialize};

use crate::{
    cli::{clip, Env, How},
    common::*,
    engine::{Fail, Outcome, Prop, Report, G},
    p_err::{breakage, gen_err, ErrCase, Rule},
    p_misc::{mutate, soup, TREE_SOUP},
    spec::*,
};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C24 {
    Valid { spec: Spec, layout: Layout },
    Any { text: String },
    Broken { case: ErrCase },
}

type Place = (usize, usize, usize);

#[derive(Clone, Debug, PartialEq)]
struct Item {
    depth: usize,
    kind: String,
    start: Place,
    end: Place,
    text: String,
}

/// What is expected of a valid text.
struct Expect<'a> {
    r: &'a Rendered,
    lines: Vec<usize>,
    id: usize,
    items: Vec<Item>,
}

impl Expect<'_> {
    fn place(&self, offset: usize) -> Place {
        let line = self.lines.partition_point(|&s| s <= offset);
        (offset, line, self.r.text[self.lines[line - 1]..offset].chars().count() + 1)
    }
    /// Adds a node; its end is the end of whatever follows it until `close`.
    fn open(&mut self, depth: usize, kind: &str, text: String) -> usize {
        let (s, e) = self.r.offsets[self.id];
        self.id += 1;
        let item = Item { depth, kind: kind.into(), start: self.place(s), end: self.place(e), text };
        self.items.push(item);
        self.items.len() - 1
    }
    fn close(&mut self, at: usize) {
        self.items[at].end = self.place(self.r.offsets[self.id - 1].1);
    }
    fn descs(&mut self, ds: &[Desc], depth: usize, col: usize) {
        for d in ds {
            let delta = self.r.pos[self.id].1 - col;
            self.open(depth, "description", format!("{}{}", " ".repeat(delta), d.words.join(" ")));
            self.descs(&d.kids, depth, col);
        }
    }
    fn nodes(&mut self, kids: &[Node], depth: usize) {
        for k in kids {
            match k {
                Node::Cond(c) => {
                    let at = self.open(depth, "condition", sanitize(&c.title()));
                    self.nodes(&c.kids, depth + 1);
                    self.close(at);
                }
                Node::Act(a) => {
                    let col = self.r.pos[self.id].1;
                    let at = self.open(depth, "action", a.title());
                    self.descs(&a.descs, depth + 1, col);
                    self.close(at);
                }
            }
        }
    }
}

fn line_starts(text: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(text.match_indices('\n').map(|m| m.0 + 1));
    v
}

fn expected(spec: &Spec, r: &Rendered) -> Vec<Item> {
    let mut e = Expect { r, lines: line_starts(&r.text), id: 0, items: vec![] };
    for t in &spec.trees {
        let at = e.open(0, "root", t.root());
        e.nodes(&t.kids, 1);
        e.close(at);
    }
    e.items
}

fn place(s: &str) -> Option<Place> {
    let v: Vec<usize> = s.split(':').map(|n| n.parse().ok()).collect::<Option<_>>()?;
    (v.len() == 3).then(|| (v[0], v[1], v[2]))
}

/// Undoes `{:?}` of a string.
fn unescape(s: &str) -> Option<String> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            't' => o.push('\t'),
            'r' => o.push('\r'),
            '0' => o.push('\0'),
            'u' => {
                let hex: String = it.by_ref().skip(1).take_while(|&c| c != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
            }
            c => o.push(c),
        }
    }
    Some(o)
}

#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Trees(Vec<Item>),
    Errors(Vec<Slip>),
}

#[derive(Clone, Debug, PartialEq)]
struct Slip {
    start: Place,
    end: Place,
    /// Whether the error's text is what the given text starts with.
    whole: bool,
    len: usize,
    kind: String,
}

fn answer(s: &str) -> Option<Answer> {
    let mut items = vec![];
    let mut slips = vec![];
    for l in s.lines() {
        if let Some(l) = l.strip_prefix("error ") {
            let mut w = l.splitn(5, ' ');
            slips.push(Slip {
                start: place(w.next()?)?,
                end: place(w.next()?)?,
                whole: w.next()? == "start",
                len: w.next()?.parse().ok()?,
                kind: unescape(w.next()?)?,
            });
        } else {
            let mut w = l.splitn(5, ' ');
            items.push(Item {
                depth: w.next()?.parse().ok()?,
                kind: w.next()?.to_owned(),
                start: place(w.next()?)?,
                end: place(w.next()?)?,
                text: unescape(w.next()?)?,
            });
        }
    }
    match (items.is_empty(), slips.is_empty()) {
        (false, true) => Some(Answer::Trees(items)),
        (true, false) => Some(Answer::Errors(slips)),
        _ => None,
    }
}

/// A place is the place of a character, or of the end of the text.
fn check_place(text: &str, p: Place, what: &str) -> Res<()> {
    let (o, l, c) = p;
    ensure!(o <= text.len() && text.is_char_boundary(o), "{what}: offset {o} isn't that of a character (of {} bytes)", text.len());
    let before = &text[..o];
    let line = before.matches('\n').count() + 1;
    let column = before.rsplit('\n').next().unwrap_or("").chars().count() + 1;
    ensure!((l, c) == (line, column), "{what}: offset {o} is at line {line}, column {column}, but the position says line {l}, column {c}");
    Ok(())
}

/// What holds of any answer.
fn check_shape(text: &str, a: &Answer) -> Res<()> {
    match a {
        Answer::Errors(v) => {
            for s in v {
                let what = format!("the error {:?}", s.kind);
                ensure!(s.whole, "{what} refers to another text than the given one");
                ensure!(s.end.0 <= s.len, "{what} lies outside of its text");
                check_place(text, s.start, &what)?;
                check_place(text, s.end, &what)?;
                ensure!(s.start.0 <= s.end.0, "{what} ends before it starts");
            }
        }
        Answer::Trees(v) => {
            // Ends of the open nodes, outermost first, and of the last one closed.
            let mut open: Vec<(usize, usize)> = vec![];
            let mut last: Option<usize> = None;
            for i in v {
                let what = format!("the {} {:?}", i.kind, i.text);
                check_place(text, i.start, &what)?;
                check_place(text, i.end, &what)?;
                ensure!(i.start.0 <= i.end.0, "{what} ends before it starts");
                while open.last().is_some_and(|o| o.0 >= i.depth) {
                    last = Some(open.pop().unwrap().1);
                }
                ensure!(open.last().map_or(i.depth == 0, |o| o.0 + 1 == i.depth), "{what} is at depth {}", i.depth);
                if let Some(&(_, end)) = open.last() {
                    ensure!(i.end.0 <= end, "{what} ends after what it belongs to");
                }
                ensure!(last.map_or(true, |l| i.start.0 > l), "{what} starts before the previous one ends");
                let rest = &text[i.start.0..];
                match i.kind.as_str() {
                    "root" => ensure!(rest.starts_with(i.text.as_str()), "{what} isn't where it says it is"),
                    _ => ensure!(rest.starts_with(['├', '└']), "{what} doesn't start at a branch"),
                }
                let end = text[i.end.0..].chars().next();
                ensure!(end.is_some_and(|c| !c.is_whitespace()), "{what} ends at {end:?}");
                open.push((i.depth, i.end.0));
            }
        }
    }
    Ok(())
}

fn gen_c24(g: &mut G) -> Option<C24> {
    match g.weighted(&[6, 3, 2, 2]) {
        0 => {
            let spec = gen_spec(g, GenCfg { max_trees: 4, ..Default::default() })?;
            Some(C24::Valid { spec, layout: gen_layout(g) })
        }
        1 => {
            let case = gen_err(g)?;
            breakage(&case)?;
            Some(C24::Broken { case })
        }
        2 => {
            let spec = gen_spec(g, GenCfg::default())?;
            let layout = gen_layout(g);
            let text = render(&spec, &layout).text;
            Some(C24::Any { text: mutate(g, &text, TREE_SOUP) })
        }
        _ => Some(C24::Any { text: soup(g, TREE_SOUP, 30) }),
    }
}

fn fixed_c24() -> Vec<C24> {
    let mut v: Vec<C24> = far_layouts().into_iter().map(|layout| C24::Valid { spec: giant(3), layout }).collect();
    for spec in [giant(400), verbose(300), verbose(70_000)] {
        v.push(C24::Valid { spec, layout: Layout::plain() });
    }
    v
}

fn run_c24(c: &C24, env: &mut Env) -> Outcome {
    let (text, want) = match c {
        C24::Valid { spec, layout } => {
            let r = render(spec, layout);
            let e = expected(spec, &r);
            (r.text, Some((e, spec.trees.len())))
        }
        C24::Any { text } => (text.clone(), None),
        C24::Broken { case } => match breakage(case) {
            Some(w) => (w.text, None),
            None => return Ok(Report { nontrivial: false, labels: vec![] }),
        },
    };
    env.clean();
    env.write("a.tree", &text);
    let probe = std::env::var("BVH_PROBE").unwrap_or_default();
    let bin = std::mem::replace(&mut env.bin, probe.into());
    let r = env.run_how(&["a.tree"], &How::default());
    env.bin = bin;
    let r = r?;
    let shown = || format!("\n--- text:\n{}", clip(&text));
    if let Some(m) = r.crashed() {
        fail!("parsing {m}{}", shown());
    }
    if r.code != Some(0) {
        return Err(Fail::Broken(format!("the probe fails: {}", clip(&r.err))));
    }
    // The output isn't coloured, and may contain escape characters as text.
    let out = String::from_utf8_lossy(&r.raw_out).into_owned();
    let Some((all, one)) = out.split_once("---\n") else { return Err(Fail::Broken("unreadable answer of the probe".into())) };
    ensure!(!all.starts_with("unknown") && !one.starts_with("unknown"), "an error of an unknown type{}", shown());
    let (Some(all), Some(one)) = (answer(all), answer(one)) else {
        if all.is_empty() {
            fail!("no tree and no error{}", shown());
        }
        return Err(Fail::Broken(format!("unreadable answer of the probe: {}", clip(&out))));
    };
    let with = |e: Fail| match e {
        Fail::Violation(m) => Fail::Violation(format!("{m}{}", shown())),
        e => e,
    };
    check_shape(&text, &all).map_err(with)?;
    check_shape(&text, &one).map_err(with)?;
    let mut labels = vec![];
    let nontrivial;
    if let C24::Broken { case } = c {
        let w = breakage(case).unwrap();
        let Answer::Errors(got) = &all else { fail!("a broken tree is accepted{}", shown()) };
        // Nothing is a place of its own in an empty tree, and any in the root
        // will do for one without branches.
        let loose = matches!(case.rule, Rule::Empty | Rule::NoRules);
        let mut want: Vec<(String, Option<(usize, usize)>)> = w.errors.iter().map(|(m, p)| (m.clone(), p.filter(|_| !loose))).collect();
        let mut got: Vec<(String, Option<(usize, usize)>)> = got
            .iter()
            .map(|s| (s.kind.clone(), (!loose && w.errors.iter().any(|e| e.0 == s.kind && e.1.is_some())).then_some((s.start.1, s.start.2))))
            .collect();
        want.sort();
        got.sort();
        if let Some(d) = diff(&want, &got) {
            fail!("errors: {d}{}", shown());
        }
        labels.push("broken tree");
    }
    match (&want, &all) {
        (Some((want, n)), Answer::Trees(got)) => {
            if let Some(d) = diff(want, got) {
                fail!("`parse`: {d}{}", shown());
            }
            if *n == 1 {
                ensure!(one == all, "`parse_one` and `parse` differ:\n{one:?}\n{all:?}{}", shown());
                labels.push("one tree");
            } else {
                labels.push("several trees");
            }
            nontrivial = want.len() >= 4;
        }
        (Some(_), Answer::Errors(e)) => fail!("a valid tree is refused: {e:?}{}", shown()),
        (None, Answer::Trees(v)) => {
            labels.push("accepted");
            nontrivial = v.len() >= 4;
        }
        (None, Answer::Errors(_)) => {
            labels.push("refused");
            nontrivial = true;
        }
    }
    Ok(Report { nontrivial, labels })
}

pub fn c24() -> Prop<C24> {
    Prop {
        id: "C24",
        rule: "the text has a tree of at least four nodes, or is refused",
        gen: gen_c24,
        run: run_c24,
        fixed: fixed_c24,
        quick: 16_000,
        thorough: 320_000,
    }
}
