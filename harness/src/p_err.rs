//! C08–C11: files of several trees, and trees that are rejected.

use serde::{Deserialize, Serialize};

use crate::{
    cli::{parse_diags, Diag, Env, Kind, Run},
    common::*,
    engine::{Outcome, Prop, Report, G},
    sol::{self, scaffolded, Item, T},
    spec::*,
};

// ------------------------------------------------------------------------ C08

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RootFault {
    /// `Foo` instead of `Foo::bar`
    NoSeparator,
    /// `::bar`
    NoContract,
    /// `Other::bar`
    Other(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C08 {
    pub spec: Spec,
    pub layout: Layout,
    pub faults: Vec<(usize, RootFault)>,
    pub opts: Opts,
}

fn gen_c08(g: &mut G) -> Option<C08> {
    let cfg = GenCfg { min_trees: 2, max_trees: 5, max_depth: 3, max_kids: 3, odd: 15, ..Default::default() };
    let mut spec = SpecGen::new(g, cfg).spec();
    if g.chance(1, 6) {
        collide(g, &mut spec);
    } else if g.chance(1, 4) {
        let n = spec.trees.len();
        let i = g.below(n);
        let f = g.pick(&["", "a::b", "::x", "test_x", "a.b", "1st", "日本", "()", "Foo"]).to_string();
        spec.trees[i].func = Some(f);
    }
    let layout = gen_layout(g);
    let mut faults = vec![];
    if g.chance(1, 3) {
        for _ in 0..g.range(1, 2) {
            let i = g.below(spec.trees.len());
            faults.push((
                i,
                match g.below(3) {
                    0 => RootFault::NoSeparator,
                    1 => RootFault::NoContract,
                    _ if g.chance(1, 2) => {
                        // The right name, nearly.
                        let own = spec.trees[0].contract.clone();
                        RootFault::Other(match g.below(6) {
                            0 => format!("{own}!"),
                            1 => format!("'{own}'"),
                            2 if own.contains('-') => own.replace('-', "_"),
                            2 if own.contains('_') => own.replace('_', "-"),
                            2 | 3 => format!("{own}()"),
                            4 => own.to_uppercase(),
                            _ => format!("{own}."),
                        })
                    }
                    _ => RootFault::Other(g.pick(&["Other", "Foo2", "foo", "FooTest_", "X"]).to_string()),
                },
            ));
        }
    }
    if groups(&spec, &render(&spec, &layout)).is_some() {
        return None;
    }
    let opts = Opts { vm_skip: g.chance(1, 8), skip_mods: g.chance(1, 8), version: None };
    Some(C08 { spec, layout, faults, opts })
}

/// Gives a tree a test that ends up with the name of another tree's test: `f`
/// and `when a b` yield the same name as `fWhenA` and `it b`.
pub fn collide(g: &mut G, spec: &mut Spec) {
    let n = spec.trees.len();
    let from = g.below(n);
    let to = (from + g.range(1, n - 1)) % n;
    // Copied and pasted, as a whole or a part of it.
    if g.chance(1, 3) {
        spec.trees[to].func = spec.trees[from].func.clone();
        if g.chance(1, 3) {
            spec.trees[to].kids = spec.trees[from].kids.clone();
        } else {
            let node = g.pick(&spec.trees[from].kids).clone();
            let at = g.below(spec.trees[to].kids.len() + 1);
            spec.trees[to].kids.insert(at, node);
        }
        return;
    }
    let mut conds = vec![];
    fn walk(k: &[Node], v: &mut Vec<Vec<String>>) {
        for n in k {
            match n {
                Node::Cond(c) => {
                    if c.kids.iter().any(|k| matches!(k, Node::Act(_))) {
                        let mut w = vec![c.kw.clone()];
                        w.extend(c.words.clone());
                        v.push(w);
                    }
                    walk(&c.kids, v);
                }
                Node::Act(a) => v.push(a.words.clone()),
            }
        }
    }
    walk(&spec.trees[from].kids, &mut conds);
    if conds.is_empty() {
        return;
    }
    let w = g.pick(&conds).clone();
    if w.len() < 2 {
        return;
    }
    let k = g.range(1, w.len() - 1);
    let mut f = spec.trees[from].func.clone().unwrap_or_default();
    for x in &w[..k] {
        f.push_str(&upper_first(x));
    }
    spec.trees[to].func = Some(f);
    let at = g.below(spec.trees[to].kids.len() + 1);
    let act = Act { kw: "it".into(), words: w[k..].to_vec(), descs: vec![] };
    spec.trees[to].kids.insert(at, Node::Act(act));
}

fn roots_of(c: &C08) -> Vec<(String, Option<String>)> {
    let mut v: Vec<(String, Option<String>)> = c.spec.trees.iter().map(|t| (t.contract.clone(), t.func.clone())).collect();
    for (i, f) in &c.faults {
        match f {
            RootFault::NoSeparator => v[*i].1 = None,
            RootFault::NoContract => v[*i].0 = String::new(),
            RootFault::Other(n) => v[*i].0 = n.clone(),
        }
    }
    v
}

fn run_c08(c: &C08, env: &mut Env) -> Outcome {
    let roots = roots_of(c);
    let mut spec = c.spec.clone();
    for (t, (k, f)) in spec.trees.iter_mut().zip(&roots) {
        t.contract = k.clone();
        t.func = f.clone();
    }
    let text = render(&spec, &c.layout).text;
    // A root without anything is no root at all.
    let dead = roots.iter().any(|(k, f)| k.is_empty() && f.is_none());
    let mut want = None;
    for (i, (k, f)) in roots.iter().enumerate() {
        if f.is_none() {
            want = Some(format!("separator missing at tree root #{}", i + 1));
        } else if k.is_empty() {
            want = Some(format!("contract name missing at tree root #{}", i + 1));
        } else if *k != roots[0].0 {
            want = Some(format!("contract name mismatch: expected '{}', found '{k}'", roots[0].0));
        } else {
            continue;
        }
        break;
    }
    let opts = c.opts.args();
    let opts: Vec<&str> = opts.iter().map(String::as_str).collect();
    if let Some(want) = want {
        env.write("a.tree", &text);
        env.write("a.t.sol", "contract Foo {}\n");
        let mut a = vec!["scaffold", "a.tree"];
        a.extend(&opts);
        let r = run(env, &a)?;
        let ctx = || format!("--- tree:\n{text}\n--- stderr:\n{}", r.err);
        ensure!(r.code == Some(1), "accepted (exit {:?}) in spite of its roots\n{}", r.code, ctx());
        ensure!(r.out.trim().is_empty(), "prints Solidity for a rejected file\n{}\n{}", r.out, ctx());
        if !dead {
            let d = parse_diags(&r.err);
            ensure!(
                d.len() == 1 && d[0].kind.starts_with(&want),
                "the error isn't `{want}` but {:?}\n{}",
                d.iter().map(|d| &d.kind).collect::<Vec<_>>(),
                ctx()
            );
            let (_, rep) = check(env, &["a.tree"])?;
            ensure!(
                rep.viols.len() == 1 && matches!(&rep.viols[0].kind, Kind::TreeInvalid(k) if k.starts_with(&want)),
                "check doesn't report `{want}` but {:?}\n{}",
                rep.viols,
                ctx()
            );
        }
        return Ok(Report { nontrivial: true, labels: vec!["rejected"] });
    }
    let rendered = render(&spec, &c.layout);
    if model(&spec, &rendered).repeated().is_some() {
        env.write("a.tree", &text);
        env.write("a.t.sol", "contract Foo {}\n");
        let mut a = vec!["scaffold", "a.tree"];
        a.extend(&opts);
        let o = run(env, &a)?;
        let ctx = || format!("--- tree:\n{text}\n--- output:\n{}{}", o.out, o.err);
        repeated_test(&spec, &rendered, &o, env, &ctx)?;
        return Ok(Report { nontrivial: true, labels: vec!["tests with the same name"] });
    }
    let all = scaffold(env, &text, &opts)?;
    let Ok(all_s) = scaffolded(&all) else { fail!("the output isn't one contract:\n{all}\n--- tree:\n{text}") };
    let ctx = |x: &str| format!("{x}\n--- tree:\n{text}\n--- output:\n{all}");
    let mut want: Vec<(String, Vec<T>)> = vec![];
    let mut mods: Vec<String> = vec![];
    let mut shared = 0;
    for t in &spec.trees {
        let one = Spec { trees: vec![Tree { func: None, ..t.clone() }] };
        let out = scaffold(env, &render(&one, &c.layout).text, &opts)?;
        let Ok(s) = scaffolded(&out) else { fail!("the output isn't one contract:\n{out}") };
        ensure!(s.name == all_s.name, "{}", ctx("the contract has another name than for each tree alone"));
        ensure!(
            s.bases == all_s.bases && codes(&s.head) == codes(&all_s.head),
            "{}",
            ctx("the head of the file is another than for each tree alone")
        );
        for i in &s.members {
            let mut code = i.code();
            let Some((k, n)) = i.fn_name() else { fail!("{}", ctx("unexpected member")) };
            let mut n = n.to_owned();
            if k == "modifier" {
                if mods.contains(&n) {
                    shared += 1;
                    continue;
                }
                mods.push(n.clone());
            } else {
                let prefix = upper_first(&sanitize(t.func.as_deref().unwrap_or("")));
                let new = format!("test_{prefix}{}", n.strip_prefix("test_").unwrap_or(&n));
                let at = code.iter().position(|x| *x == T::Word(n.clone())).unwrap();
                code[at] = T::Word(new.clone());
                n = new;
            }
            want.push((n, code));
        }
    }
    let got: Vec<(String, Vec<T>)> =
        all_s.members.iter().map(|i| (i.fn_name().map_or("?", |f| f.1).to_owned(), i.code())).collect();
    let names = |v: &[(String, Vec<T>)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
    if let Some(d) = diff(&names(&want), &names(&got)) {
        fail!("{}", ctx(&format!("constructs of the combined contract: {d}")));
    }
    for ((n, w), (_, g)) in want.iter().zip(&got) {
        ensure!(w == g, "{}", ctx(&format!("{n} differs from the one its tree yields alone:\n{}", sol::show(w))));
    }
    let mut l = vec!["combined"];
    if shared > 0 {
        l.push("shared modifier");
    }
    Ok(Report { nontrivial: want.len() >= 3, labels: l })
}

fn codes(v: &[Item]) -> Vec<Vec<T>> {
    v.iter().map(|i| i.code()).collect()
}

/// Files with hundreds of trees, of which none, the last or one in the middle is faulty.
fn many_c08() -> Vec<C08> {
    let act = |w: String| Node::Act(Act { kw: "it".into(), words: vec![w], descs: vec![] });
    let tree = |i: usize| {
        let inner = Node::Cond(Cond { kw: "when".into(), words: vec![format!("inner{}", i % 3)], kids: vec![act("works".into())] });
        let outer = Cond { kw: "given".into(), words: vec![format!("outer{}", i % 150)], kids: vec![inner] };
        Tree { contract: "Many".into(), func: Some(format!("f{i}")), kids: vec![act("fails".into()), Node::Cond(outer)] }
    };
    let spec = Spec { trees: (0..300).map(tree).collect() };
    let case = |faults| C08 { spec: spec.clone(), layout: Layout::plain(), faults, opts: Opts::default() };
    let other = || RootFault::Other("Few".into());
    let mut v = vec![case(vec![])];
    for at in [299, 256] {
        v.extend([RootFault::NoSeparator, RootFault::NoContract, other()].map(|f| case(vec![(at, f)])));
    }
    // The first and the last test have the same name.
    let mut again = case(vec![]);
    again.spec.trees[299].func = again.spec.trees[0].func.clone();
    v.push(again);
    v
}

pub fn c08() -> Prop<C08> {
    Prop {
        id: "C08",
        rule: "the file is rejected for its roots, or yields at least 3 constructs",
        gen: gen_c08,
        run: run_c08,
        fixed: many_c08,
        quick: 3500,
        thorough: 90_000,
    }
}

// ------------------------------------------------------------- broken trees

/// Ways of breaking exactly one rule of the grammar.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Rule {
    Empty,
    NoRoot,
    NoRules,
    WordAfterRoot,
    KeywordAfterRoot,
    KeywordAsRoot,
    NoKeyword,
    NoTitle,
    NoChildren,
    UnderAction,
    BranchTwice,
    IllegalChar,
    TeeLast,
    CornerNotLast,
    Dangling,
    DanglingNested,
    LoneBranch,
}

const RULES: &[Rule] = &[
    Rule::NoKeyword,
    Rule::NoTitle,
    Rule::NoChildren,
    Rule::UnderAction,
    Rule::BranchTwice,
    Rule::IllegalChar,
    Rule::TeeLast,
    Rule::CornerNotLast,
    Rule::Dangling,
    Rule::DanglingNested,
    Rule::LoneBranch,
    Rule::NoRoot,
    Rule::NoRules,
    Rule::WordAfterRoot,
    Rule::KeywordAfterRoot,
    Rule::KeywordAsRoot,
    Rule::Empty,
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ErrCase {
    pub spec: Spec,
    pub layout: Layout,
    pub rule: Rule,
    pub tree: usize,
    /// Which of the nodes it applies to, modulo their number.
    pub at: usize,
    pub more: usize,
    pub word: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Root,
    Cond,
    Act,
    Desc,
}

struct Info {
    kind: K,
    tree: usize,
    depth: usize,
    /// Last node of its subtree.
    end: usize,
    kw: String,
    words: Vec<String>,
    last: bool,
}

fn infos(s: &Spec) -> Vec<Info> {
    fn descs(v: &mut Vec<Info>, tree: usize, depth: usize, ds: &[Desc]) {
        for (i, d) in ds.iter().enumerate() {
            let me = v.len();
            v.push(Info {
                kind: K::Desc,
                tree,
                depth,
                end: me,
                kw: d.words[0].clone(),
                words: d.words[1..].to_vec(),
                last: i + 1 == ds.len(),
            });
            descs(v, tree, depth + 1, &d.kids);
            v[me].end = v.len() - 1;
        }
    }
    fn nodes(v: &mut Vec<Info>, tree: usize, depth: usize, ks: &[Node]) {
        for (i, k) in ks.iter().enumerate() {
            let me = v.len();
            let last = i + 1 == ks.len();
            match k {
                Node::Cond(c) => {
                    v.push(Info { kind: K::Cond, tree, depth, end: me, kw: c.kw.clone(), words: c.words.clone(), last });
                    nodes(v, tree, depth + 1, &c.kids);
                }
                Node::Act(a) => {
                    v.push(Info { kind: K::Act, tree, depth, end: me, kw: a.kw.clone(), words: a.words.clone(), last });
                    descs(v, tree, depth + 1, &a.descs);
                }
            }
            v[me].end = v.len() - 1;
        }
    }
    let mut v = vec![];
    for (t, tree) in s.trees.iter().enumerate() {
        let me = v.len();
        v.push(Info { kind: K::Root, tree: t, depth: 0, end: me, kw: tree.root(), words: vec![], last: true });
        nodes(&mut v, t, 1, &tree.kids);
        v[me].end = v.len() - 1;
    }
    v
}

pub struct Want {
    pub text: String,
    /// Exact diagnosis and where it points.
    pub errors: Vec<(String, Option<(usize, usize)>)>,
    pub semantic: bool,
}

/// Byte offset of a column (1-based, in characters).
fn off(line: &str, col: usize) -> usize {
    line.char_indices().nth(col - 1).map_or(line.len(), |x| x.0)
}

fn chars(s: &str) -> usize {
    s.chars().count()
}

/// Columns of the words of a title that starts at `col`.
fn word_cols(line: &str, col: usize, words: &[String]) -> Option<Vec<usize>> {
    let cs: Vec<char> = line.chars().collect();
    let mut at = col - 1;
    let mut v = vec![];
    for w in words {
        while at < cs.len() && cs[at].is_whitespace() {
            at += 1;
        }
        let s: String = cs[at..].iter().take(chars(w)).collect();
        if s != *w {
            return None;
        }
        v.push(at + 1);
        at += chars(w);
    }
    Some(v)
}

/// Writes the broken file and what is to be said about it.
pub fn breakage(c: &ErrCase) -> Option<Want> {
    let mut spec = c.spec.clone();
    let nt = spec.trees.len();
    let t = c.tree % nt;
    // Changes of the tree itself.
    match c.rule {
        Rule::Empty => {
            let comments = ["", "// only a comment", "// a\n  // b", " ", "\n\n", "// a\n\n// b\n", "\t", "//"];
            let text = comments[c.at % comments.len()].to_owned();
            let text = if c.layout.crlf { text.replace('\n', "\r\n") } else { text };
            return Some(Want { text, errors: vec![("found an empty tree".into(), None)], semantic: false });
        }
        Rule::NoRules => spec.trees[t].kids.clear(),
        Rule::TeeLast | Rule::CornerNotLast | Rule::Dangling => {}
        _ => {}
    }
    let mut lay = c.layout.clone();
    if matches!(c.rule, Rule::NoRoot | Rule::KeywordAsRoot | Rule::Dangling | Rule::DanglingNested) {
        // Comments between a root and its tree, or at the end, don't help here.
        lay.comment_blocks = false;
    }
    let r = render(&spec, &lay);
    let inf = infos(&spec);
    let nl = if lay.crlf { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = r.text.split(nl).map(str::to_owned).collect();
    let of = |f: &dyn Fn(&Info) -> bool| -> Vec<usize> {
        (0..inf.len()).filter(|&i| inf[i].tree == t && f(&inf[i])).collect()
    };
    let pick = |v: Vec<usize>| -> Option<usize> {
        if v.is_empty() {
            None
        } else {
            Some(v[c.at % v.len()])
        }
    };
    let root = of(&|i| i.kind == K::Root)[0];
    let mut semantic = false;
    let errors: Vec<(String, Option<(usize, usize)>)> = match c.rule {
        Rule::Empty => unreachable!(),
        Rule::NoRules => {
            semantic = true;
            // Anywhere in the root will do; see `positions`.
            vec![("no rules where defined".into(), None)]
        }
        Rule::NoRoot => {
            let (l, _) = r.pos[root];
            lines.remove(l - 1);
            let first = r.pos[root + 1];
            vec![("missing a root".into(), Some((first.0 - 1, first.1)))]
        }
        Rule::KeywordAsRoot => {
            let (l, col) = r.pos[root];
            let line = &mut lines[l - 1];
            let a = off(line, col);
            let b = a + spec.trees[t].root().len();
            let kw = ["when", "it", "Given", "WHEN", "It"][c.more % 5];
            line.replace_range(a..b, kw);
            vec![("missing a root".into(), Some((l, col)))]
        }
        Rule::WordAfterRoot | Rule::KeywordAfterRoot => {
            let (l, col) = r.pos[root];
            let line = &mut lines[l - 1];
            let b = off(line, col) + spec.trees[t].root().len();
            let (w, e) = if c.rule == Rule::WordAfterRoot {
                if !ok_text_word(&c.word) || matches!(c.word.to_lowercase().as_str(), "when" | "given" | "it") {
                    return None;
                }
                (c.word.clone(), format!("unexpected `word` '{}'", c.word))
            } else {
                let k = ["when", "it", "given"][c.more % 3];
                let spelt = if c.more / 3 % 2 == 0 { k.to_owned() } else { upper_first(k) };
                (spelt, format!("unexpected `{k}` keyword"))
            };
            line.insert_str(b, &format!(" {w}"));
            vec![(e, Some((l, col + chars(&spec.trees[t].root()) + 1)))]
        }
        Rule::NoKeyword => {
            let n = pick(of(&|i| matches!(i.kind, K::Cond | K::Act)))?;
            if !ok_text_word(&c.word) || matches!(c.word.to_lowercase().as_str(), "when" | "given" | "it") {
                return None;
            }
            let (l, col) = r.word_pos[n];
            let line = &mut lines[l - 1];
            let a = off(line, col);
            line.replace_range(a..a + inf[n].kw.len(), &c.word);
            vec![(format!("unexpected token '{}'", c.word), Some((l, col)))]
        }
        Rule::NoTitle => {
            let n = pick(of(&|i| i.kind == K::Cond))?;
            let (l, col) = r.word_pos[n];
            let line = &mut lines[l - 1];
            let a = off(line, col) + inf[n].kw.len();
            line.truncate(a);
            if c.more % 3 == 1 {
                line.push_str("  // a comment");
            }
            vec![("found a condition/action without a title".into(), Some((l, col)))]
        }
        Rule::NoChildren => {
            semantic = true;
            // One to three conditions lose all that is below them.
            let conds = of(&|i| i.kind == K::Cond);
            if conds.is_empty() {
                return None;
            }
            let mut chosen: Vec<usize> = vec![];
            for k in 0..=(c.more % 3) {
                let n = conds[(c.at + k * 7) % conds.len()];
                if !chosen.iter().any(|&m| (m..=inf[m].end).contains(&n) || (n..=inf[n].end).contains(&m)) {
                    chosen.push(n);
                }
            }
            chosen.sort();
            let mut gone: Vec<(usize, usize)> = vec![];
            for &n in &chosen {
                gone.push((r.pos[n].0 + 1, r.pos[inf[n].end].0));
            }
            let mut errors = vec![];
            for &n in &chosen {
                let before: usize = gone.iter().filter(|g| g.1 < r.pos[n].0).map(|g| g.1 + 1 - g.0).sum();
                errors.push(("found a condition with no children".into(), Some((r.pos[n].0 - before, r.pos[n].1))));
            }
            for g in gone.iter().rev() {
                lines.drain(g.0 - 1..g.1);
            }
            errors
        }
        Rule::UnderAction => {
            let n = pick(of(&|i| i.kind == K::Desc))?;
            let (l, col) = r.word_pos[n];
            let k = ["it", "when", "given", "It", "WHEN", "Given"][c.more % 6];
            let line = &mut lines[l - 1];
            let a = off(line, col);
            line.replace_range(a..a + inf[n].kw.len(), k);
            // The title of a condition may be illegal, too; that comes first.
            if !k.eq_ignore_ascii_case("it") {
                let words: Vec<String> = inf[n].words.clone();
                if words.iter().any(|w| !w.chars().all(ok_title_char)) {
                    return None;
                }
            }
            vec![(format!("unexpected token in description '{k}'"), Some((l, col)))]
        }
        Rule::BranchTwice => {
            let n = pick(of(&|i| i.kind != K::Root))?;
            let (l, col) = r.word_pos[n];
            let b = if c.more % 2 == 0 { '├' } else { '└' };
            let line = &mut lines[l - 1];
            let a = off(line, col);
            line.insert_str(a, &format!("{b}── "));
            let kind = if inf[n].kind == K::Desc { "unexpected token in description" } else { "unexpected token" };
            vec![(format!("{kind} '{b}'"), Some((l, col)))]
        }
        Rule::IllegalChar => {
            const BAD: &[char] = &[
                '$', '%', '&', '(', ')', '.', ',', ':', ';', '!', '?', '@', '#', '[', ']', '{', '}', '=', '+', '<', '>',
                '|', '~', '^', '`', '*', '\\', '🦀', '—', '…', '“', '·',
            ];
            let n = pick(of(&|i| i.kind == K::Cond))?;
            let (l, col) = r.word_pos[n];
            let line = &mut lines[l - 1];
            let cols = word_cols(line, col + chars(&inf[n].kw), &inf[n].words)?;
            if cols.is_empty() {
                return None;
            }
            let w = c.more % cols.len();
            let at = cols[w] + (c.more / 7) % (chars(&inf[n].words[w]) + 1);
            let bad = BAD[c.at % BAD.len()];
            if ok_title_char(bad) {
                return None;
            }
            let a = off(line, at);
            line.insert(a, bad);
            vec![(format!("invalid identifier: {bad}"), Some((l, at)))]
        }
        Rule::TeeLast => {
            let n = pick(of(&|i| i.depth == 1 && i.last))?;
            let (l, col) = r.pos[n];
            let line = &mut lines[l - 1];
            let a = off(line, col);
            line.replace_range(a..a + '└'.len_utf8(), "├");
            vec![("a `Tee` must not be the last child".into(), Some((l, col)))]
        }
        Rule::CornerNotLast => {
            let n = pick(of(&|i| i.depth == 1 && !i.last))?;
            let (l, col) = r.pos[n];
            let line = &mut lines[l - 1];
            let a = off(line, col);
            line.replace_range(a..a + '├'.len_utf8(), "└");
            vec![("a `Corner` must be the last child".into(), Some((l, col)))]
        }
        Rule::Dangling => {
            // After the last line of the tree, at the top level.
            let n = pick(of(&|i| i.depth == 1 && i.last))?;
            let (l, col) = r.pos[n];
            let line = &mut lines[l - 1];
            let a = off(line, col);
            line.replace_range(a..a + '└'.len_utf8(), "├");
            let end = r.pos[inf[n].end].0;
            let first = r.pos[root + 1].1;
            let dash = "─".repeat(c.more % 3);
            let b = if c.more % 2 == 0 { '└' } else { '├' };
            let col = first.min(col);
            lines.insert(end, format!("{}{b}{dash}", " ".repeat(col - 1)));
            vec![("unexpected end of file".into(), Some((end + 1, col)))]
        }
        Rule::DanglingNested => {
            // After the last line of the tree, below its last branch.
            let n = pick(of(&|i| i.depth == 1 && i.last))?;
            let end = r.pos[inf[n].end].0;
            let dash = "─".repeat(c.more % 3);
            let b = if c.more % 2 == 0 { '└' } else { '├' };
            let deepest = r.pos[inf[n].end].1;
            let col = r.pos[n].1 + 1 + c.at % (deepest - r.pos[n].1 + 4);
            lines.insert(end, format!("{}{b}{dash}", " ".repeat(col - 1)));
            vec![("unexpected end of file".into(), Some((end + 1, col)))]
        }
        Rule::LoneBranch => {
            // A branch without any text, before another one at the same column.
            let n = pick(of(&|i| i.kind != K::Root))?;
            let (l, col) = r.pos[n];
            let a = off(&lines[l - 1], col);
            let found = lines[l - 1][a..].chars().next()?;
            let b = if c.more % 2 == 0 { '├' } else { '└' };
            let dash = "─".repeat(c.more % 3);
            lines.insert(l - 1, format!("{}{b}{dash}", " ".repeat(col - 1)));
            let kind = if inf[n].kind == K::Desc { "unexpected token in description" } else { "unexpected token" };
            vec![(format!("{kind} '{found}'"), Some((l + 1, col)))]
        }
    };
    Some(Want { text: lines.join(nl), errors, semantic })
}

fn ok_title_char(c: char) -> bool {
    c.is_alphanumeric() || matches!(c, '-' | '\'' | '"' | '_') || c.is_whitespace()
}

pub fn gen_err(g: &mut G) -> Option<ErrCase> {
    let mut spec = gen_spec(g, GenCfg { max_depth: 3, ..Default::default() })?;
    let layout = gen_layout(g);
    let rule = *g.pick(RULES);
    if rule == Rule::UnderAction {
        // Make sure that there is a description somewhere.
        for t in &mut spec.trees {
            for k in &mut t.kids {
                if let Node::Act(a) = k {
                    if a.descs.is_empty() {
                        a.descs.push(Desc { words: vec!["because".into(), "reasons".into()], kids: vec![] });
                    }
                }
            }
        }
    }
    let word = g
        .pick(&["foo", "test", "whenever", "items", "given,", "when.", "-", "é", "日本", "it's", "function", "x$y", "(a)", "/", "🦀"])
        .to_string();
    let c = ErrCase { spec, layout, rule, tree: g.below(5), at: g.below(60), more: g.below(60), word };
    breakage(&c).is_some().then_some(c)
}

fn rule_label(r: Rule) -> &'static str {
    match r {
        Rule::Empty => "empty",
        Rule::NoRoot => "no root",
        Rule::NoRules => "no rules",
        Rule::WordAfterRoot => "word after the root",
        Rule::KeywordAfterRoot => "keyword after the root",
        Rule::KeywordAsRoot => "keyword as root",
        Rule::NoKeyword => "branch without keyword",
        Rule::NoTitle => "no title",
        Rule::NoChildren => "condition without children",
        Rule::UnderAction => "keyword under an action",
        Rule::BranchTwice => "branch after a branch",
        Rule::IllegalChar => "illegal character",
        Rule::TeeLast => "tee at the end",
        Rule::CornerNotLast => "corner before the end",
        Rule::Dangling => "dangling branch",
        Rule::DanglingNested => "dangling nested branch",
        Rule::LoneBranch => "branch without text",
    }
}

fn err_labels(c: &ErrCase) -> Vec<&'static str> {
    let mut l = vec![rule_label(c.rule)];
    if c.spec.trees.len() > 1 {
        l.push("several trees");
    }
    if c.layout.crlf {
        l.push("crlf");
    }
    l
}

// ------------------------------------------------------------------------ C09

fn run_c09(c: &ErrCase, env: &mut Env) -> Outcome {
    let Some(w) = breakage(c) else { return Ok(Report { nontrivial: false, labels: vec![] }) };
    env.remove("a.t.sol");
    env.write("a.tree", &w.text);
    let write = c.more % 4 == 0;
    let a: &[&str] = match (write, c.more % 8) {
        (true, 0) => &["scaffold", "-w", "a.tree"],
        (true, _) => &["scaffold", "-w", "-f", "a.tree"],
        _ => &["scaffold", "a.tree"],
    };
    let r = run(env, a)?;
    let ctx = || format!("--- tree:\n{}\n--- output of {a:?}:\n{}{}", w.text, r.out, r.err);
    ensure!(r.code == Some(1), "a tree with `{}` isn't rejected (exit {:?})\n{}", rule_label(c.rule), r.code, ctx());
    ensure!(r.out.trim().is_empty(), "something is printed for a rejected tree\n{}", ctx());
    ensure!(env.read("a.t.sol").is_none(), "a file is written for a rejected tree\n{}", ctx());
    let mut want: Vec<String> = w.errors.iter().map(|e| e.0.clone()).collect();
    let mut got: Vec<String> = parse_diags(&r.err).into_iter().map(|d| d.kind).collect();
    want.sort();
    got.sort();
    if let Some(d) = diff(&want, &got) {
        fail!("diagnoses: {d}\n{}", ctx());
    }
    ensure!(r.err.contains("a.tree"), "the error doesn't name the file\n{}", ctx());
    // check and check --fix say the same, and leave the Solidity file alone.
    env.write("a.t.sol", "contract Foo {}\n");
    let fix = c.more % 3 == 0;
    let (cr, rep) = check(env, if fix { &["--fix", "a.tree"] } else { &["a.tree"] })?;
    let kind = if w.semantic { Kind::TreeSemantic } else { Kind::TreeInvalid(w.errors[0].0.clone()) };
    ensure!(
        cr.code == Some(1) && rep.viols.len() == 1 && rep.viols[0].kind == kind,
        "check doesn't report {kind:?} but {:?} (exit {:?})\n{}",
        rep.viols,
        cr.code,
        ctx()
    );
    ensure!(
        env.read("a.t.sol").as_deref() == Some("contract Foo {}\n"),
        "the Solidity file of a rejected tree is changed\n{}",
        ctx()
    );
    Ok(Report { nontrivial: c.spec.nodes() >= 3, labels: err_labels(c) })
}

pub fn c09() -> Prop<ErrCase> {
    Prop {
        id: "C09",
        rule: "the tree that was broken had at least 3 nodes",
        gen: gen_err,
        run: run_c09,
        fixed: Vec::new,
        quick: 8000,
        thorough: 200_000,
    }
}

// ------------------------------------------------------------------------ C11

fn place(d: &Diag, text: &str, ctx: &dyn Fn() -> String) -> Res<()> {
    let Some((l, col)) = d.pos else { return Ok(()) };
    let want = text.split('\n').nth(l.wrapping_sub(1)).map(str::trim_end);
    ensure!(want.is_some(), "line {l} is reported, but the file has fewer lines\n{}", ctx());
    // Blanks at the end of the line may or may not be quoted.
    ensure!(
        d.quoted.as_deref().map(str::trim_end) == want,
        "line {l} is quoted as {:?}, but it is {:?}\n{}",
        d.quoted,
        want,
        ctx()
    );
    ensure!(
        d.carets.map(|c| c.0) == Some(col),
        "the carets start at column {:?}, but column {col} is reported\n{}",
        d.carets.map(|c| c.0),
        ctx()
    );
    Ok(())
}

fn run_c11(c: &ErrCase, env: &mut Env) -> Outcome {
    let Some(w) = breakage(c) else { return Ok(Report { nontrivial: false, labels: vec![] }) };
    env.write("a.tree", &w.text);
    let r = run(env, &["scaffold", "a.tree"])?;
    let ctx = || format!("--- tree:\n{}\n--- stderr:\n{}", w.text, r.err);
    let diags = parse_diags(&r.err);
    for d in &diags {
        place(d, &w.text, &ctx)?;
    }
    let mut positioned = 0;
    if c.rule == Rule::NoRules {
        // The root is what the error is about.
        let mut spec = c.spec.clone();
        let t = c.tree % spec.trees.len();
        spec.trees[t].kids.clear();
        let rr = render(&spec, &c.layout);
        let at = infos(&spec).iter().position(|i| i.kind == K::Root && i.tree == t).unwrap();
        let (l, col) = rr.pos[at];
        let n = chars(&spec.trees[t].root());
        for d in &diags {
            if let Some((gl, gc)) = d.pos {
                positioned += 1;
                ensure!(gl == l && gc >= col && gc < col + n, "not a position in the root, {l}:{col}\n{}", ctx());
            }
        }
        ensure!(diags.len() == 1, "{} errors\n{}", diags.len(), ctx());
    } else if c.rule != Rule::Empty {
        // Positions at the very start of the file aren't printed.
        let mut want: Vec<Option<(usize, usize)>> = w.errors.iter().map(|e| e.1).filter(|p| *p != Some((1, 1))).collect();
        let mut got: Vec<Option<(usize, usize)>> = diags.iter().map(|d| d.pos).filter(|p| p.is_some() && *p != Some((1, 1))).collect();
        want.sort();
        got.sort();
        positioned = got.len();
        if let Some(d) = diff(&want, &got) {
            fail!("positions: {d}\n{}", ctx());
        }
    }
    let mut l = err_labels(c);
    if w.errors.len() > 1 {
        l.push("several errors");
    }
    if w.errors.iter().any(|e| e.1.is_some_and(|p| p.0 > 3)) {
        l.push("beyond line 3");
    }
    Ok(Report { nontrivial: positioned > 0, labels: l })
}

/// Faults beyond what small numbers count.
fn far_err() -> Vec<ErrCase> {
    let mut v = vec![];
    for (i, layout) in far_layouts().into_iter().enumerate() {
        for (j, &rule) in RULES.iter().enumerate() {
            // The lines of the widest layouts take their time.
            if layout.top < 10_000 || j % 4 == 0 {
                v.push(ErrCase { spec: giant(4), layout: layout.clone(), rule, tree: 0, at: 7 * i + j, more: i + j, word: "foo".into() });
            }
        }
    }
    v.retain(|c| breakage(c).is_some());
    v
}

pub fn c11() -> Prop<ErrCase> {
    Prop {
        id: "C11",
        rule: "a position is reported",
        gen: gen_err,
        run: run_c11,
        fixed: far_err,
        quick: 12_000,
        thorough: 300_000,
    }
}

// ------------------------------------------------------------------------ C10

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C10 {
    pub spec: Spec,
    pub layout: Layout,
    pub empty: usize,
}

/// Words that easily yield the same names.
const CLASH: &[&[&str]] = &[
    &["a", "A", "'a", "a'", "\"a\"", "a"],
    &["b", "B", "b", "'b'"],
    &["ab", "aB", "AB", "Ab"],
    &["a-b", "a_b", "'a'-b", "A-b"],
    &["x1", "X1", "x-1", "x_1"],
    &["é", "É", "e"],
];

fn clash_words(g: &mut G, act: bool) -> Vec<String> {
    let n = g.range(1, 2);
    (0..n)
        .map(|_| {
            let f = *g.pick(CLASH);
            let mut w = g.pick(f).to_string();
            if act && g.chance(1, 3) {
                w = match g.below(4) {
                    0 => format!("{w}."),
                    1 => format!("`{w}`"),
                    2 => format!("({w})"),
                    _ => format!("{w}!"),
                };
            }
            w
        })
        .collect()
}

pub fn clash_kids(g: &mut G, depth: usize, budget: &mut usize) -> Vec<Node> {
    let n = g.range(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        if *budget == 0 && !v.is_empty() {
            break;
        }
        *budget = budget.saturating_sub(1);
        if depth > 0 && g.chance(1, 2) {
            let base = *g.pick(&["when", "given"]);
            let kw = gen_kw(g, base);
            let words = clash_words(g, false);
            let kids = clash_kids(g, depth - 1, budget);
            v.push(Node::Cond(Cond { kw, words, kids }));
        } else {
            let kw = gen_kw(g, "it");
            let mut words = clash_words(g, true);
            // The name of some condition's test, perhaps.
            if g.chance(1, 5) {
                words.insert(0, g.pick(&["when", "When", "given", "it"]).to_string());
            }
            let descs = if g.chance(1, 6) { vec![Desc { words: vec!["a".into()], kids: vec![] }, Desc { words: vec!["a".into()], kids: vec![] }] } else { vec![] };
            v.push(Node::Act(Act { kw, words, descs }));
        }
    }
    v
}

fn gen_c10(g: &mut G) -> Option<C10> {
    let n = *g.pick(&[1, 1, 1, 2, 3]);
    let mut trees: Vec<Tree> = (0..n)
        .map(|i| {
            let mut budget = *g.pick(&[3, 5, 12]);
            Tree {
                contract: "Foo".into(),
                func: (n > 1).then(|| format!("f{i}")),
                kids: clash_kids(g, 3, &mut budget),
            }
        })
        .collect();
    let mut conds = vec![];
    fn walk(k: &[Node], v: &mut Vec<Cond>) {
        for n in k {
            if let Node::Cond(c) = n {
                v.push(c.clone());
                walk(&c.kids, v);
            }
        }
    }
    let t = g.below(n);
    walk(&trees[t].kids, &mut conds);
    if !conds.is_empty() && g.chance(1, 3) {
        let mut c = g.pick(&conds).clone();
        if g.chance(1, 3) {
            // A test with the name of the condition's.
            let mut words = vec![gen_kw(g, &c.kw.to_lowercase())];
            words.append(&mut c.words);
            let at = g.below(trees[t].kids.len() + 1);
            trees[t].kids.insert(at, Node::Act(Act { kw: gen_kw(g, "it"), words, descs: vec![] }));
        } else {
            // The condition again, spelled otherwise, in this or another tree.
            c.kw = gen_kw(g, &c.kw.to_lowercase());
            for w in &mut c.words {
                if g.chance(1, 3) {
                    *w = match g.below(4) {
                        0 => upper_first(w),
                        1 => format!("'{w}"),
                        2 => format!("{w}\""),
                        _ => w.replace('-', "_"),
                    };
                }
            }
            c.kids = vec![Node::Act(Act { kw: "it".into(), words: vec!["z".into()], descs: vec![] })];
            let t = g.below(n);
            let mut kids = &mut trees[t].kids;
            while g.chance(1, 2) {
                let i = kids.iter().position(|k| matches!(k, Node::Cond(_)));
                let Some(i) = i else { break };
                let Node::Cond(d) = &mut kids[i] else { unreachable!() };
                kids = &mut d.kids;
            }
            let at = g.below(kids.len() + 1);
            kids.insert(at, Node::Cond(c));
        }
    }
    // Many of the same name.
    if g.chance(1, 25) {
        let many = g.range(9, 70);
        let act = g.chance(1, 2);
        for i in 0..many {
            let words = vec![g.pick(&["many", "Many", "'many"]).to_string()];
            let node = match act {
                true => Node::Act(Act { kw: gen_kw(g, "it"), words, descs: vec![] }),
                false => Node::Cond(Cond {
                    kw: gen_kw(g, "when"),
                    words,
                    kids: vec![Node::Act(Act { kw: "it".into(), words: vec![format!("z{i}")], descs: vec![] })],
                }),
            };
            let at = g.below(trees[t].kids.len() + 1);
            trees[t].kids.insert(at, node);
        }
    }
    // Many other names before, between and after.
    if g.chance(1, 25) {
        let many = g.range(20, 300);
        let front = g.chance(1, 2);
        for i in 0..many {
            let node = if i % 3 > 0 {
                Node::Act(Act { kw: "it".into(), words: vec![format!("filler{i}")], descs: vec![] })
            } else {
                let act = |w: String| Node::Act(Act { kw: "it".into(), words: vec![w], descs: vec![] });
                let inner = Cond { kw: "given".into(), words: vec![format!("inner{i}")], kids: vec![act("should revert".into())] };
                let mut kids = vec![act(format!("z{i}"))];
                if i % 2 == 0 {
                    kids.push(Node::Cond(inner));
                }
                Node::Cond(Cond { kw: "when".into(), words: vec![format!("filler{i}")], kids })
            };
            let at = if front { i } else { g.below(trees[t].kids.len() + 1) };
            trees[t].kids.insert(at, node);
        }
    }
    // Names that differ only far from their beginning, or far from their end.
    if g.chance(1, 12) {
        let n = *g.pick(&[1, 3, 8, 20, 40]);
        let long: Vec<String> = (0..n).map(|i| format!("{}{i}", g.pick(&["word", "x", "contradiction"]))).collect();
        let front = g.chance(2, 3);
        fn lengthen(k: &mut [Node], long: &[String], front: bool) {
            for n in k {
                let (words, kids): (_, &mut [Node]) = match n {
                    Node::Cond(c) => (&mut c.words, &mut c.kids),
                    Node::Act(a) => (&mut a.words, &mut []),
                };
                let at = if front { 0 } else { words.len() };
                words.splice(at..at, long.iter().cloned());
                lengthen(kids, long, front);
            }
        }
        for t in &mut trees {
            lengthen(&mut t.kids, &long, front);
        }
    }
    Some(C10 { spec: Spec { trees }, layout: gen_layout(g), empty: 0 })
}

/// Lines of the clashing items of every group of the first tree that has any.
pub fn groups(s: &Spec, r: &Rendered) -> Option<Vec<Vec<usize>>> {
    fn walk(k: &[Node], top: bool, id: &mut usize, r: &Rendered, v: &mut Vec<(String, usize)>) {
        for n in k {
            let line = r.pos[*id].0;
            *id += 1;
            match n {
                Node::Cond(c) => {
                    v.push((format!("c {}", modifier_name(c)), line));
                    walk(&c.kids, false, id, r, v);
                }
                Node::Act(a) => {
                    if top {
                        v.push((format!("a {}", action_test_suffix(a)), line));
                    }
                    fn count(d: &[Desc]) -> usize {
                        d.iter().map(|d| 1 + count(&d.kids)).sum()
                    }
                    *id += count(&a.descs);
                }
            }
        }
    }
    let mut id = 0;
    for t in &s.trees {
        id += 1;
        let mut v = vec![];
        walk(&t.kids, true, &mut id, r, &mut v);
        let mut groups: Vec<Vec<usize>> = vec![];
        let mut seen: Vec<&str> = vec![];
        for (k, _) in &v {
            if !seen.contains(&k.as_str()) {
                seen.push(k);
                let lines: Vec<usize> = v.iter().filter(|x| x.0 == *k).map(|x| x.1).collect();
                if lines.len() > 1 {
                    groups.push(lines);
                }
            }
        }
        if !groups.is_empty() {
            return Some(groups);
        }
    }
    None
}

/// Two tests of the file have the same name, which is reported at the second.
fn repeated_test(spec: &Spec, r: &Rendered, o: &Run, env: &mut Env, ctx: &dyn Fn() -> String) -> Res<()> {
    let m = model(spec, r);
    let t = m.repeated().unwrap();
    ensure!(o.code == Some(1), "accepted (exit {:?}) although two tests are named {}\n{}", o.code, t.name, ctx());
    ensure!(o.out.trim().is_empty(), "something is printed for a rejected tree\n{}", ctx());
    let diags = parse_diags(&o.err);
    let want = format!("found a test more than once: '{}'", t.name);
    ensure!(diags.len() == 1 && diags[0].kind == want, "the error isn't `{want}`: {diags:?}\n{}", ctx());
    place(&diags[0], &r.text, ctx)?;
    ensure!(
        diags[0].pos.map(|p| p.0) == Some(t.line),
        "the error isn't placed in line {} but at {:?}\n{}",
        t.line,
        diags[0].pos,
        ctx()
    );
    let (_, rep) = check(env, &["a.tree"])?;
    ensure!(
        rep.viols.len() == 1 && matches!(&rep.viols[0].kind, Kind::TreeInvalid(k) if *k == want),
        "check doesn't reject the tree: {:?}\n{}",
        rep.viols,
        ctx()
    );
    Ok(())
}

fn run_c10(c: &C10, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    env.write("a.tree", &r.text);
    env.write("a.t.sol", "contract Foo {}\n");
    let o = run(env, &["scaffold", "a.tree"])?;
    let ctx = || format!("--- tree:\n{}\n--- output:\n{}{}", r.text, o.out, o.err);
    let g = groups(&c.spec, &r);
    let mut l = vec![];
    match &g {
        None if model(&c.spec, &r).repeated().is_some() => {
            repeated_test(&c.spec, &r, &o, env, &ctx)?;
            l.push("an action and a condition with the same test name");
        }
        None => {
            ensure!(o.code == Some(0), "rejected (exit {:?}) although nothing is duplicated\n{}", o.code, ctx());
            let (_, rep) = check(env, &["a.tree"])?;
            ensure!(
                !rep.viols.iter().any(|v| matches!(v.kind, Kind::TreeSemantic | Kind::TreeInvalid(_))),
                "check rejects the tree although nothing is duplicated\n{}",
                ctx()
            );
            l.push("no duplicates");
        }
        Some(g) => {
            ensure!(o.code == Some(1), "accepted (exit {:?}) in spite of duplicates in lines {g:?}\n{}", o.code, ctx());
            ensure!(o.out.trim().is_empty(), "something is printed for a rejected tree\n{}", ctx());
            let mut want: Vec<String> = g
                .iter()
                .map(|g| {
                    format!(
                        "found an identifier more than once in lines: {}",
                        g.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(", ")
                    )
                })
                .collect();
            want.sort();
            let diags = parse_diags(&o.err);
            let mut got: Vec<String> = diags.iter().map(|d| d.kind.clone()).collect();
            got.sort();
            if let Some(d) = diff(&want, &got) {
                fail!("duplicates: {d}\n{}", ctx());
            }
            for d in &diags {
                place(d, &r.text, &ctx)?;
                let first = d.kind.rsplit(": ").next().and_then(|s| s.split(", ").next()).and_then(|s| s.parse().ok());
                ensure!(d.pos.map(|p| p.0) == first, "the error isn't placed at its first member\n{}", ctx());
            }
            let (_, rep) = check(env, &["a.tree"])?;
            ensure!(
                rep.viols.len() == 1 && rep.viols[0].kind == Kind::TreeSemantic,
                "check doesn't reject the tree: {:?}\n{}",
                rep.viols,
                ctx()
            );
            l.push("duplicates");
            if g.len() > 1 {
                l.push("several groups");
            }
            if g.iter().any(|g| g.len() > 2) {
                l.push("group of 3 or more");
            }
        }
    }
    if c.spec.trees.len() > 1 {
        l.push("several trees");
    }
    Ok(Report { nontrivial: g.is_some() || !l.contains(&"no duplicates") || c.spec.nodes() >= 4, labels: l })
}

/// Duplicates that are far from each other, that contain a lot or that are in a large tree.
fn far_c10() -> Vec<C10> {
    let act = |w: String| Node::Act(Act { kw: "it".into(), words: vec![w], descs: vec![] });
    let cond = |w: &str, kids| Node::Cond(Cond { kw: "when".into(), words: vec![w.into()], kids });
    let acts = |n: usize| (0..n).map(|i| act(format!("x{i}"))).collect::<Vec<_>>();
    let mut v = vec![];
    for (first, between, second, deep) in
        [(300, 0, 1, false), (1, 0, 300, false), (1, 400, 1, false), (300, 0, 1, true), (1, 400, 1, true), (2000, 1, 1, false)]
    {
        let mut kids = vec![cond("twice", acts(first))];
        kids.extend((0..between).map(|i| act(format!("between{i}"))));
        let again = cond("'twice'", acts(second));
        kids.push(if deep { cond("deeper", vec![act("a".into()), again]) } else { again });
        let twice = Tree { contract: "Foo".into(), func: None, kids };
        let mut once = twice.clone();
        once.kids.remove(0);
        v.extend([twice, once].map(|t| C10 { spec: Spec { trees: vec![t] }, layout: Layout::plain(), empty: 0 }));
    }
    v
}

pub fn c10() -> Prop<C10> {
    Prop {
        id: "C10",
        rule: "something is duplicated, or the tree has at least 4 nodes",
        gen: gen_c10,
        run: run_c10,
        fixed: far_c10,
        quick: 8000,
        thorough: 200_000,
    }
}
