//! C02–C07: what `scaffold` makes of valid trees.

use serde::{Deserialize, Serialize};

use crate::{
    cli::{fixed_count, parse_diags, Env},
    common::*,
    engine::{Outcome, Prop, Report, G},
    p_err::{collide, groups},
    sol::{self, norm_comment, scaffolded, T},
    spec::*,
};

// ---------------------------------------------------------------- plain cases

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SpecCase {
    pub spec: Spec,
    pub layout: Layout,
    #[serde(default)]
    pub opts: Opts,
}

pub fn gen_case(g: &mut G, cfg: GenCfg) -> Option<SpecCase> {
    let spec = gen_spec(g, cfg)?;
    let layout = gen_layout(g);
    Some(SpecCase { spec, layout, opts: Opts::default() })
}

fn labels(c: &Spec, l: &Layout) -> Vec<&'static str> {
    let mut v = vec![];
    if c.trees.len() > 1 {
        v.push("several trees");
    }
    if c.depth() >= 3 {
        v.push("depth 3 or more");
    }
    if c.has_descs() {
        v.push("descriptions");
    }
    if c.trees.iter().any(|t| t.kids.len() > 64) {
        v.push("more than 64 children of a root");
    }
    if l.crlf {
        v.push("crlf");
    }
    if l.noise > 0 {
        v.push("comments and odd blanks");
    }
    let mut rev = false;
    let mut late = false;
    c.each_cond(&mut |k| {
        let mut seen_cond = false;
        for n in &k.kids {
            match n {
                Node::Act(a) => {
                    rev |= reverts(a);
                    late |= seen_cond;
                }
                Node::Cond(_) => seen_cond = true,
            }
        }
    });
    if rev {
        v.push("reverting condition");
    }
    if late {
        v.push("actions after nested conditions");
    }
    v
}

fn read_back(out: &str) -> Res<sol::Scaffolded> {
    match scaffolded(out) {
        Ok(s) => Ok(s),
        Err(m) => fail!("the output is not one well-formed contract: {m}\n{out}"),
    }
}

fn kind_and_name(i: &sol::Item) -> String {
    match i.fn_name() {
        Some((k, n)) => format!("{k} {n}"),
        None => format!("unexpected member: {}", sol::show(&i.code())),
    }
}

fn part_id(p: &Part) -> String {
    format!("{} {}", if p.is_mod() { "modifier" } else { "function" }, p.name())
}

// ------------------------------------------------------------------------ C02

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C02 {
    pub spec: Spec,
    pub a: Layout,
    pub b: Layout,
}

fn gen_c02(g: &mut G) -> Option<C02> {
    let mut s = SpecGen::new(g, GenCfg { max_depth: 5, ..Default::default() });
    let mut spec = s.spec();
    // Some trees are rejected, which layout must not change either.
    if g.chance(1, 5) {
        break_spec(g, &mut spec);
    } else if !model(&spec, &render(&spec, &Layout::plain())).unique() {
        return None;
    }
    Some(C02 { spec, a: gen_layout(g), b: gen_layout(g) })
}

/// Makes a spec invalid (or not) by means that survive any layout.
fn break_spec(g: &mut G, s: &mut Spec) {
    let t = g.below(s.trees.len());
    match g.below(5) {
        0 => s.trees[t].kids.clear(),
        1 => {
            let k = s.trees[t].kids[0].clone();
            s.trees[t].kids.push(k);
        }
        2 => {
            if let Some(c) = s.trees[t].kids.iter_mut().find_map(|k| match k {
                Node::Cond(c) => Some(c),
                _ => None,
            }) {
                c.words.push("a$b".into());
            }
        }
        3 => {
            if let Some(c) = s.trees[t].kids.iter_mut().find_map(|k| match k {
                Node::Cond(c) => Some(c),
                _ => None,
            }) {
                c.kids.clear();
            }
        }
        _ => s.trees[t].contract.push('X'),
    }
}

/// Kinds of the diagnostics, without the line numbers some of them contain.
fn kinds(err: &str) -> Vec<String> {
    let mut v: Vec<String> = parse_diags(err)
        .into_iter()
        .map(|d| d.kind.split(" in lines:").next().unwrap().to_owned())
        .collect();
    v.sort();
    v
}

fn run_c02(c: &C02, env: &mut Env) -> Outcome {
    let (ra, rb) = (render(&c.spec, &c.a), render(&c.spec, &c.b));
    env.write("a.tree", &ra.text);
    env.write("b.tree", &rb.text);
    let a = run(env, &["scaffold", "a.tree"])?;
    let b = run(env, &["scaffold", "b.tree"])?;
    let both = || format!("--- first layout:\n{}\n--- second layout:\n{}", ra.text, rb.text);
    ensure!(
        a.code == b.code,
        "one layout is accepted and the other rejected (exit {:?} and {:?})\n{}\n{}\n{}",
        a.code,
        b.code,
        a.err,
        b.err,
        both()
    );
    ensure!(
        kinds(&a.err) == kinds(&b.err),
        "the layouts are rejected for different reasons:\n{}\n{}\n{}",
        a.err,
        b.err,
        both()
    );
    if c.spec.has_descs() {
        // Only the indentation of description comments may differ.
        let squeeze = |s: &str| -> String {
            s.lines()
                .map(|l| {
                    if l.trim_start().starts_with("//") {
                        norm_comment(l)
                    } else {
                        l.to_owned()
                    }
                })
                .collect::<Vec<_>>()
                .join("\n")
        };
        ensure!(
            squeeze(&a.out) == squeeze(&b.out),
            "different output:\n{}\n--- and\n{}\n{}",
            a.out,
            b.out,
            both()
        );
    } else {
        ensure!(a.out == b.out, "different output:\n{}\n--- and\n{}\n{}", a.out, b.out, both());
    }
    let mut l = labels(&c.spec, &c.b);
    if a.code != Some(0) {
        l.push("rejected");
    }
    if c.a.ragged || c.b.ragged {
        l.push("siblings at different columns");
    }
    Ok(Report { nontrivial: c.a != c.b && c.spec.nodes() >= 3, labels: l })
}

fn far_c02() -> Vec<C02> {
    far_layouts()
        .into_iter()
        .flat_map(|b| [giant(3), verbose(6000)].map(|spec| C02 { spec, a: Layout::plain(), b: b.clone() }))
        .collect()
}

pub fn c02() -> Prop<C02> {
    Prop {
        id: "C02",
        rule: "the two layouts differ and the tree has at least 3 nodes",
        gen: gen_c02,
        run: run_c02,
        fixed: far_c02,
        quick: 8000,
        thorough: 160_000,
    }
}

// ------------------------------------------------------------------------ C03

fn gen_c03(g: &mut G) -> Option<SpecCase> {
    gen_case(g, GenCfg::default())
}

fn run_c03(c: &SpecCase, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    let out = scaffold(env, &r.text, &[])?;
    let m = model(&c.spec, &r);
    let s = read_back(&out)?;
    ensure!(s.name == m.contract, "the contract is named {:?}, expected {:?}\n{}", s.name, m.contract, r.text);
    let want: Vec<String> = m.parts.iter().map(part_id).collect();
    let got: Vec<String> = s.members.iter().map(kind_and_name).collect();
    if let Some(d) = diff(&want, &got) {
        fail!("constructs of the contract: {d}\n--- tree:\n{}\n--- output:\n{out}", r.text);
    }
    let nontrivial = m.parts.len() >= 3 && m.mods().next().is_some();
    Ok(Report { nontrivial, labels: labels(&c.spec, &c.layout) })
}

fn giants() -> Vec<SpecCase> {
    [(giant(500), false), (giant(200), true), (verbose(300), false), (verbose(1500), true), (verbose(70_000), false)]
        .into_iter()
        .map(|(spec, vm_skip)| SpecCase { spec, layout: Layout::plain(), opts: Opts { vm_skip, ..Opts::default() } })
        .collect()
}

pub fn c03() -> Prop<SpecCase> {
    Prop {
        id: "C03",
        rule: "at least 3 constructs, one of them a modifier",
        gen: gen_c03,
        run: run_c03,
        fixed: giants,
        quick: 12_000,
        thorough: 240_000,
    }
}

// ------------------------------------------------------------------------ C04

fn gen_c04(g: &mut G) -> Option<SpecCase> {
    let deep = g.chance(1, 3);
    let mut c = gen_case(
        g,
        GenCfg { max_depth: if deep { 9 } else { 5 }, max_kids: if deep { 2 } else { 4 }, ..Default::default() },
    )?;
    c.opts.skip_mods = g.chance(1, 5);
    c.opts.vm_skip = g.chance(1, 8);
    Some(c)
}

fn run_c04(c: &SpecCase, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    let args = c.opts.args();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    let out = scaffold(env, &r.text, &args)?;
    let m = model(&c.spec, &r);
    let s = read_back(&out)?;
    let ctx = || format!("--- tree:\n{}\n--- output:\n{out}", r.text);
    let mut defined: Vec<&str> = vec![];
    let mut tests = vec![];
    for i in &s.members {
        match i.fn_name() {
            Some(("modifier", n)) => {
                ensure!(!defined.contains(&n), "modifier {n} is defined twice\n{}", ctx());
                ensure!(i.params().is_empty(), "modifier {n} has parameters\n{}", ctx());
                ensure!(i.attrs().is_empty(), "modifier {n} has attributes\n{}", ctx());
                let b = sol::code_of(i.body().unwrap_or(&[]));
                ensure!(
                    b == [T::Word("_".into()), T::P(';')],
                    "the body of modifier {n} isn't `_;` but `{}`\n{}",
                    sol::show(&b),
                    ctx()
                );
                defined.push(n);
            }
            Some(("function", n)) => {
                ensure!(i.params().is_empty(), "test {n} has parameters\n{}", ctx());
                let a = i.attrs();
                ensure!(
                    a.first() == Some(&T::Word("external".into())),
                    "test {n} isn't external: {}\n{}",
                    sol::show(&a),
                    ctx()
                );
                for x in &a[1..] {
                    let T::Word(w) = x else { fail!("test {n} has odd attributes: {}\n{}", sol::show(&a), ctx()) };
                    ensure!(
                        c.opts.skip_mods || defined.contains(&w.as_str()),
                        "test {n} applies {w}, which isn't defined before it\n{}",
                        ctx()
                    );
                }
                tests.push((n, a[1..].to_vec()));
            }
            _ => fail!("unexpected member: {}\n{}", sol::show(&i.code()), ctx()),
        }
    }
    let want: Vec<(&str, Vec<T>)> =
        m.tests().map(|t| (t.name.as_str(), t.mods.iter().map(|x| T::Word(x.clone())).collect())).collect();
    if let Some(d) = diff(&want, &tests) {
        fail!("modifiers applied to tests: {d}\n{}", ctx());
    }
    if c.opts.skip_mods {
        ensure!(defined.is_empty(), "modifiers are defined in spite of --skip-modifiers\n{}", ctx());
    }
    let chain = m.tests().map(|t| t.mods.len()).max().unwrap_or(0);
    let mut l = labels(&c.spec, &c.layout);
    if chain >= 4 {
        l.push("4 or more modifiers on a test");
    }
    if c.opts.skip_mods {
        l.push("skip-modifiers");
    }
    Ok(Report { nontrivial: chain >= 2, labels: l })
}

pub fn c04() -> Prop<SpecCase> {
    Prop {
        id: "C04",
        rule: "some test applies at least 2 modifiers",
        gen: gen_c04,
        run: run_c04,
        fixed: giants,
        quick: 12_000,
        thorough: 240_000,
    }
}

// ------------------------------------------------------------------------ C05

fn gen_c05(g: &mut G) -> Option<SpecCase> {
    let mut c = gen_case(g, GenCfg { max_depth: 3, odd: 75, ..Default::default() })?;
    c.opts.vm_skip = g.chance(1, 5);
    Some(c)
}

fn run_c05(c: &SpecCase, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    let args = c.opts.args();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    let out = scaffold(env, &r.text, &args)?;
    let m = model(&c.spec, &r);
    let s = read_back(&out)?;
    let ctx = || format!("--- tree:\n{}\n--- output:\n{out}", r.text);
    let mut want = vec![];
    for t in m.tests() {
        let mut b: Vec<T> = t.comments.iter().map(|c| T::Comment(format!("// {c}"))).collect();
        if c.opts.vm_skip {
            b.extend(sol::tokens_of("vm.skip(true);"));
        }
        want.push(b);
    }
    let mut got = vec![];
    for i in &s.members {
        ensure!(i.lead.is_empty(), "a comment outside of a test: {:?}\n{}", i.lead, ctx());
        match i.fn_name() {
            Some(("function", n)) => {
                let Some(b) = i.body() else { fail!("test {n} without a body\n{}", ctx()) };
                // Comments each on a line of their own, verbatim.
                for w in b.windows(2) {
                    if matches!(w[0].t, T::Comment(_)) {
                        ensure!(w[0].line < w[1].line, "two things on line {}\n{}", w[0].line, ctx());
                    }
                }
                got.push(b.iter().map(|t| t.t.clone()).collect::<Vec<_>>());
            }
            Some(_) => {
                let n = i.toks.iter().filter(|t| matches!(t.t, T::Comment(_))).count();
                ensure!(n == 0, "a comment in a modifier\n{}", ctx());
            }
            None => fail!("text became code: {}\n{}", sol::show(&i.code()), ctx()),
        }
    }
    if let Some(d) = diff(&want, &got) {
        fail!("bodies of the tests: {d}\n{}", ctx());
    }
    let odd = m.tests().any(|t| t.comments.iter().any(|c| c.contains(|c: char| !c.is_ascii_alphanumeric() && c != ' ')));
    let mut l = labels(&c.spec, &c.layout);
    let any = |p: &str| m.tests().any(|t| t.comments.iter().any(|c| c.contains(p)));
    for (p, n) in
        [("\"", "quotes"), ("\\", "backslashes"), ("*/", "*/"), ("//", "// inside words"), ("{", "braces"), (";", "semicolons"), ("$", "$")]
    {
        if any(p) {
            l.push(n);
        }
    }
    Ok(Report { nontrivial: odd, labels: l })
}

pub fn c05() -> Prop<SpecCase> {
    Prop {
        id: "C05",
        rule: "some action or description contains a character other than ASCII letters, digits and blanks",
        gen: gen_c05,
        run: run_c05,
        fixed: giants,
        quick: 12_000,
        thorough: 240_000,
    }
}

// ------------------------------------------------------------------------ C06

fn gen_c06(g: &mut G) -> Option<SpecCase> {
    let odd = *g.pick(&[25, 80]);
    let mut spec = SpecGen::new(g, GenCfg { odd, ..Default::default() }).spec();
    if spec.trees.len() > 1 && g.chance(1, 6) {
        collide(g, &mut spec);
    }
    let layout = gen_layout(g);
    let opts = gen_opts(g);
    Some(SpecCase { spec, layout, opts })
}

pub fn gen_opts(g: &mut G) -> Opts {
    Opts {
        vm_skip: g.chance(1, 3),
        skip_mods: g.chance(1, 3),
        version: g.chance(1, 3).then(|| {
            g.pick(&["0.8.26", "0.7.6", "^0.8.0", ">=0.8.0", ">=0.8.0 <0.9.0", "~0.8.1", "0.8", "0.6.0 - 0.8.0", "=0.8.1", "0.8.1 || 0.8.2", "<0.9.0", "^0.8.0 || ^0.7.0", "v0.8.0", "0.8.x"])
                .to_string()
        }),
    }
}

fn run_c06(c: &SpecCase, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    let args = c.opts.args();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    // Files whose names clash are rejected, so that there is nothing to collide.
    if !model(&c.spec, &r).unique() || groups(&c.spec, &r).is_some() {
        env.write("a.tree", &r.text);
        let mut a = vec!["scaffold", "a.tree"];
        a.extend(&args);
        let o = run(env, &a)?;
        ensure!(
            o.code == Some(1) && o.out.trim().is_empty(),
            "accepted (exit {:?}) although names clash\n--- tree:\n{}\n--- output:\n{}",
            o.code,
            r.text,
            o.out
        );
        return Ok(Report { nontrivial: false, labels: vec!["clashing names"] });
    }
    let out = scaffold(env, &r.text, &args)?;
    let s = read_back(&out)?;
    let ctx = || format!("--- tree:\n{}\n--- output:\n{out}", r.text);
    ensure!(sol::legal_identifier(&s.name), "{:?} is not a legal contract name\n{}", s.name, ctx());
    let heads: Vec<Option<&str>> = s.head.iter().map(|i| i.word(0)).collect();
    let want: &[Option<&str>] =
        if c.opts.vm_skip { &[Some("pragma"), Some("import")] } else { &[Some("pragma")] };
    ensure!(heads == want, "unexpected items before the contract: {heads:?}\n{}", ctx());
    let mut names = std::collections::HashSet::new();
    for i in &s.members {
        let Some((kind, n)) = i.fn_name() else { fail!("unexpected member: {}\n{}", sol::show(&i.code()), ctx()) };
        ensure!(sol::legal_identifier(n), "{n:?} is not a legal name\n{}", ctx());
        ensure!(names.insert(n), "two constructs are named {n}\n{}", ctx());
        let Some(b) = i.body() else { fail!("{n} has no body\n{}", ctx()) };
        let code = sol::without_comments(b);
        let want = if kind == "modifier" {
            sol::tokens_of("_;")
        } else if c.opts.vm_skip {
            sol::tokens_of("vm.skip(true);")
        } else {
            vec![]
        };
        ensure!(code == want, "statements in {n}: {}\n{}", sol::show(&code), ctx());
    }
    env.write("a.t.sol", &out);
    let mut a = vec!["check", "--fix", "a.tree"];
    if c.opts.skip_mods {
        a.push("-m");
    }
    let f = run(env, &a)?;
    ensure!(f.code == Some(0), "check --fix rejects the output: {}\n{}", f.err, ctx());
    let after = read(env, "a.t.sol")?;
    ensure!(after == out, "formatting the output again changes it to\n{after}\n{}", ctx());
    ensure!(fixed_count(&f.out) == Some(0), "check --fix fixes something: {}\n{}", f.out, ctx());
    let mut l = labels(&c.spec, &c.layout);
    if c.opts.vm_skip {
        l.push("vm-skip");
    }
    Ok(Report { nontrivial: s.members.len() >= 3, labels: l })
}

pub fn c06() -> Prop<SpecCase> {
    Prop {
        id: "C06",
        rule: "the contract has at least 3 members",
        gen: gen_c06,
        run: run_c06,
        fixed: giants,
        quick: 8_000,
        thorough: 160_000,
    }
}

// ------------------------------------------------------------------------ C07

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C07 {
    pub specs: Vec<(Spec, Layout)>,
    pub opts: Opts,
    /// Order and spelling of the options.
    pub order: Vec<usize>,
    pub long: bool,
    pub before: bool,
}

fn gen_c07(g: &mut G) -> Option<C07> {
    let n = g.range(1, 3);
    let mut specs = vec![];
    for _ in 0..n {
        let s = gen_spec(g, GenCfg { max_depth: 3, max_kids: 3, max_trees: 2, ..Default::default() })?;
        specs.push((s, gen_layout(g)));
    }
    Some(C07 { specs, opts: gen_opts(g), order: g.permutation(4), long: g.chance(1, 2), before: g.chance(1, 2) })
}

/// The documented effect of the options on the plain output.
fn transform(plain: &str, o: &Opts) -> Res<String> {
    let s = read_back(plain)?;
    let mut t = String::new();
    for i in &s.head {
        for c in &i.lead {
            t.push_str(c);
            t.push('\n');
        }
        if i.word(0) == Some("pragma") {
            match &o.version {
                Some(v) => t.push_str(&format!("pragma solidity {v};\n")),
                None => {
                    t.push_str(&sol::show(&i.code()));
                    t.push('\n');
                }
            }
            if o.vm_skip {
                t.push_str("import {Test} from \"forge-std/Test.sol\";\n");
            }
        } else {
            fail!("unexpected item before the contract: {}\n{plain}", sol::show(&i.code()));
        }
    }
    t.push_str(&format!("contract {} {} {{\n", s.name, if o.vm_skip { "is Test" } else { "" }));
    for i in &s.members {
        let is_mod = matches!(i.fn_name(), Some(("modifier", _)));
        if is_mod && o.skip_mods {
            continue;
        }
        let first = i.toks.first().unwrap().start;
        let last = i.toks.last().unwrap();
        let src = &plain[first..last.end];
        if !is_mod && o.vm_skip {
            t.push_str(src.strip_suffix('}').unwrap_or(src));
            t.push_str("\nvm.skip(true);\n}\n");
        } else {
            t.push_str(src);
            t.push('\n');
        }
    }
    t.push_str("}\n");
    Ok(t)
}

fn run_c07(c: &C07, env: &mut Env) -> Outcome {
    env.clean();
    let mut files = vec![];
    let mut plain = vec![];
    for (i, (s, l)) in c.specs.iter().enumerate() {
        let text = render(s, l).text;
        plain.push(scaffold(env, &text, &[])?);
        env.remove("a.tree");
        let n = format!("f{i}.tree");
        env.write(&n, &text);
        files.push((n, text));
    }
    let mut groups: Vec<Vec<String>> = vec![];
    let mut flags: Vec<Vec<String>> = vec![];
    if c.opts.vm_skip {
        flags.push(vec![if c.long { "--vm-skip" } else { "-S" }.into()]);
    }
    if c.opts.skip_mods {
        flags.push(vec![if c.long { "--skip-modifiers" } else { "-m" }.into()]);
    }
    if let Some(v) = &c.opts.version {
        flags.push(vec![if c.long { "--solidity-version" } else { "-s" }.into(), v.clone()]);
    }
    for &k in &c.order {
        if let Some(f) = flags.get(k) {
            groups.push(f.clone());
        }
    }
    let names: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
    let mut args: Vec<String> = vec!["scaffold".into()];
    if c.before {
        args.extend(groups.concat());
        args.extend(names.clone());
    } else {
        args.extend(names.clone());
        args.extend(groups.concat());
    }
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let r = run(env, &a)?;
    ensure!(r.code == Some(0), "`bulloak {}` fails: {}", args.join(" "), r.err);
    let ctx = |i: usize| format!("`bulloak {}`\n--- tree {i}:\n{}\n--- plain output:\n{}", args.join(" "), files[i].1, plain[i]);
    // The effect of -w: the same text, in files.
    let mut w = a.clone();
    w.insert(1, if c.long { "--write-files" } else { "-w" });
    let rw = run(env, &w)?;
    ensure!(rw.code == Some(0), "`bulloak {}` fails: {}", w.join(" "), rw.err);
    ensure!(rw.out.is_empty(), "-w prints to standard output: {}", rw.out);
    let mut all = String::new();
    for (i, (n, _)) in files.iter().enumerate() {
        let got = read(env, &n.replace(".tree", ".t.sol"))?;
        all.push_str(&got);
        all.push('\n');
        if let Some(v) = &c.opts.version {
            let line = format!("pragma solidity {v};");
            ensure!(got.lines().any(|l| l == line), "no line `{line}`\n{}\n--- output:\n{got}", ctx(i));
        }
        let want = transform(&plain[i], &c.opts)?;
        let lexed = match sol::lex(&got) {
            Ok(t) => t,
            Err(m) => fail!("{m}\n{}\n--- output:\n{got}", ctx(i)),
        };
        let strip = |ts: Vec<T>| -> Vec<T> {
            // The spelling of the version range is the formatter's business.
            let mut out: Vec<T> = vec![];
            let mut version = String::new();
            let mut pragma = false;
            for t in ts {
                if t == T::Word("pragma".into()) {
                    pragma = true;
                }
                if pragma && t == T::P(';') {
                    pragma = false;
                    out.push(T::Word(version.replace("pragmasolidity", "")));
                }
                if pragma {
                    match t {
                        T::Word(w) | T::Num(w) | T::Str(w) | T::Comment(w) => version.push_str(&w),
                        T::P(c) => version.push(c),
                    }
                } else {
                    out.push(t);
                }
            }
            out
        };
        let (want, got_t) = (strip(sol::tokens_of(&want)), strip(sol::code_of(&lexed)));
        if let Some(d) = diff(&want, &got_t) {
            fail!("effect of the options: {d}\n{}\n--- output:\n{got}", ctx(i));
        }
    }
    ensure!(
        all == r.out,
        "what -w writes differs from what is printed\n{}\n--- written:\n{all}\n--- printed:\n{}",
        ctx(0),
        r.out
    );
    let mut l = vec![];
    if c.opts.vm_skip {
        l.push("vm-skip");
    }
    if c.opts.skip_mods {
        l.push("skip-modifiers");
    }
    if c.opts.version.is_some() {
        l.push("solidity-version");
    }
    if files.len() > 1 {
        l.push("several files");
    }
    Ok(Report { nontrivial: c.opts != Opts::default(), labels: l })
}

pub fn c07() -> Prop<C07> {
    Prop {
        id: "C07",
        rule: "at least one option is given",
        gen: gen_c07,
        run: run_c07,
        fixed: Vec::new,
        quick: 4000,
        thorough: 80_000,
    }
}
