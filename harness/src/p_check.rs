//! C12–C17: what `check` reports.

use serde::{Deserialize, Serialize};

use crate::{
    cli::{clip, fixed_count, CheckReport, Env, Kind, Run, Viol},
    common::*,
    engine::{Outcome, Prop, Report, G},
    solgen::*,
    spec::*,
};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ChkCase {
    pub spec: Spec,
    pub layout: Layout,
    pub sol: SolFile,
    pub skip: bool,
}

pub fn gen_chk(g: &mut G, gc: GenCfg, sc: SolCfg) -> Option<ChkCase> {
    let spec = gen_spec(g, gc)?;
    let layout = gen_layout(g);
    let m = model(&spec, &render(&spec, &layout));
    let sol = gen_sol(g, &m, sc);
    Some(ChkCase { spec, layout, sol, skip: g.chance(1, 4) })
}

pub fn small() -> GenCfg {
    GenCfg { max_depth: 3, max_kids: 3, odd: 15, ..Default::default() }
}

/// A violation as the model expects it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Want {
    pub kind: Kind,
    /// In the Solidity file, or else the tree.
    pub in_sol: bool,
    pub line: Option<usize>,
}

pub fn expected(m: &Model, sol: &SolFile, w: &Written, skip: bool) -> Vec<Want> {
    let mut v = vec![];
    if sol.name != m.contract {
        v.push(Want {
            kind: Kind::ContractName(m.contract.clone(), sol.name.clone()),
            in_sol: true,
            line: Some(w.contract_line),
        });
    }
    for i in sol.missing(m) {
        let p = &m.parts[i];
        if skip && p.is_mod() {
            continue;
        }
        v.push(Want { kind: Kind::Missing(p.name().to_owned()), in_sol: false, line: Some(p.line()) });
    }
    for (i, line) in sol.misplaced(w) {
        v.push(Want { kind: Kind::Order(m.parts[i].name().to_owned()), in_sol: true, line: Some(line) });
    }
    v
}

pub fn missing_of(v: &[Viol]) -> Vec<String> {
    v.iter()
        .filter_map(|v| match &v.kind {
            Kind::Missing(n) => Some(n.clone()),
            _ => None,
        })
        .collect()
}

pub fn order_of(v: &[Viol]) -> Vec<String> {
    let mut v: Vec<String> = v
        .iter()
        .filter_map(|v| match &v.kind {
            Kind::Order(n) => Some(n.clone()),
            _ => None,
        })
        .collect();
    v.sort();
    v
}

/// Exit status, summary and success message agree with the reports.
pub fn totals(r: &Run, rep: &CheckReport) -> Res<()> {
    let n = rep.viols.len();
    let fixes = rep.viols.iter().filter(|v| v.kind.fixable()).count();
    if n == 0 {
        ensure!(r.code == Some(0), "check reports nothing but exits with {:?}\n{}", r.code, clip(&r.err));
        ensure!(rep.success, "check reports nothing but doesn't print the success message: {}", clip(&r.out));
        ensure!(rep.summary.is_none(), "check reports nothing but prints a summary: {}", clip(&r.err));
    } else {
        ensure!(r.code == Some(1), "check reports {n} issues but exits with {:?}\n{}", r.code, clip(&r.err));
        ensure!(!rep.success, "check reports {n} issues but prints the success message");
        let want = Some((n, if fixes > 0 { Some(fixes) } else { None }));
        ensure!(
            rep.summary == want,
            "check reports {n} issues, {fixes} of them fixable, but its summary says {:?}\n{}",
            rep.summary,
            clip(&r.err)
        );
    }
    Ok(())
}

fn args(skip: bool) -> Vec<&'static str> {
    if skip {
        vec!["-m", "a.tree"]
    } else {
        vec!["a.tree"]
    }
}

fn context(tree: &str, sol: &str, err: &str) -> String {
    format!("--- tree:\n{tree}\n--- solidity:\n{sol}\n--- report:\n{err}")
}

fn sol_labels(c: &SolFile, m: &Model) -> Vec<&'static str> {
    let mut v = vec![];
    if !c.missing(m).is_empty() {
        v.push("something missing");
    }
    if c.name != m.contract {
        v.push("misnamed contract");
    }
    if c.members.iter().any(|x| x.part.is_none()) {
        v.push("members of the user");
    }
    if c.post.iter().any(|p| p.contains('{')) {
        v.push("further contracts");
    }
    if c.crlf {
        v.push("crlf");
    }
    v
}

// ------------------------------------------------------------------------ C12

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C12 {
    pub spec: Spec,
    pub layout: Layout,
    pub opts: Opts,
    pub skip: bool,
    /// Index into `NAMES`.
    #[serde(default)]
    pub name: usize,
}

/// Tree files and the Solidity files that belong to them.
const NAMES: &[(&str, &str)] = &[
    ("a.tree", "a.t.sol"),
    ("a.b.tree", "a.b.t.sol"),
    ("a.t.tree", "a.t.t.sol"),
    ("noext", "noext.t.sol"),
    ("v1.2.tree", "v1.2.t.sol"),
    ("with blank.tree", "with blank.t.sol"),
    ("a.tree.tree", "a.tree.t.sol"),
    ("Été-日本.tree", "Été-日本.t.sol"),
    (".tree", ".tree.t.sol"),
    ("./a.tree", "a.t.sol"),
    ("s.d/a.tree", "s.d/a.t.sol"),
    ("s.d/../s.d/noext", "s.d/noext.t.sol"),
    ("a:1.tree", "a:1.t.sol"),
    ("a.TREE", "a.t.sol"),
    ("a..tree", "a..t.sol"),
    ("{}.tree", "{}.t.sol"),
    ("a,b.tree", "a,b.t.sol"),
    ("*.tree", "*.t.sol"),
    ("a=b.tree", "a=b.t.sol"),
    ("~.tree", "~.t.sol"),
    ("$HOME.tree", "$HOME.t.sol"),
    ("%41.tree", "%41.t.sol"),
    ("#a;b.tree", "#a;b.t.sol"),
    ("@a.tree", "@a.t.sol"),
    ("./-a.tree", "-a.t.sol"),
    ("a'b.tree", "a'b.t.sol"),
    ("a\\b.tree", "a\\b.t.sol"),
    ("[a].tree", "[a].t.sol"),
];

pub fn gen_opts(g: &mut G) -> Opts {
    Opts {
        vm_skip: g.chance(1, 3),
        skip_mods: g.chance(1, 3),
        version: g.chance(1, 3).then(|| {
            g.pick(&["0.8.20", "^0.8.0", ">=0.8.0 <0.9.0", "0.8.13", "~0.8.1", ">=0.7.0", "0.8", "*", ">0.8.0", "=0.8.1", "<=0.8.28", "0.8.1 || 0.8.2", "v0.8.0"]).to_string()
        }),
    }
}

fn gen_c12(g: &mut G) -> Option<C12> {
    let spec = gen_spec(g, GenCfg::default())?;
    let name = if g.chance(1, 3) { g.below(NAMES.len()) } else { 0 };
    Some(C12 { spec, layout: gen_layout(g), opts: gen_opts(g), skip: g.chance(1, 3), name })
}

fn run_c12(c: &C12, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    let m = model(&c.spec, &r);
    let (tree, sol) = NAMES[c.name % NAMES.len()];
    env.clean();
    if tree.contains("s.d") {
        std::fs::create_dir_all(env.dir.join("s.d")).expect("scratch directory");
    }
    env.write(tree, &r.text);
    let o = c.opts.args();
    let mut a = vec!["scaffold", "-w", tree];
    a.extend(o.iter().map(String::as_str));
    let mut args = vec![tree];
    if c.skip {
        args.push("-m");
    }
    let run1 = run(env, &a)?;
    ensure!(run1.code == Some(0), "scaffold -w rejects a valid tree: {}\n{}", clip(&run1.err), r.text);
    let text = read(env, sol)?;
    let (run2, rep) = check(env, &args)?;
    let ctx = || context(&r.text, &text, &run2.err);
    let want: Vec<String> = if c.opts.skip_mods && !c.skip {
        m.mods().map(str::to_owned).collect()
    } else {
        vec![]
    };
    let got = missing_of(&rep.viols);
    if let Some(d) = diff(&want, &got) {
        fail!("constructs reported as missing right after scaffolding: {d}\n{}", ctx());
    }
    ensure!(rep.viols.len() == want.len(), "check complains about what scaffold wrote\n{}", ctx());
    ensure!(rep.viols.iter().all(|v| v.file == tree), "another file than {tree} is named\n{}", ctx());
    totals(&run2, &rep)?;
    if want.is_empty() {
        let mut a = vec!["check", "--fix"];
        a.extend(&args);
        let f = run(env, &a)?;
        ensure!(f.code == Some(0), "check --fix fails on what scaffold wrote: {}\n{}", clip(&f.err), ctx());
        ensure!(
            fixed_count(&f.out) == Some(0),
            "check --fix claims to have fixed something: {}\n{}",
            clip(&f.out),
            ctx()
        );
        let after = read(env, sol)?;
        ensure!(after == text, "check --fix changes what scaffold wrote to:\n{after}\n{}", ctx());
    }
    let mut l = vec![];
    if c.name != 0 {
        l.push("odd file name");
    }
    if c.opts.vm_skip {
        l.push("vm-skip");
    }
    if c.opts.skip_mods {
        l.push("scaffolded without modifiers");
    }
    if c.skip {
        l.push("checked without modifiers");
    }
    if c.opts.version.is_some() {
        l.push("pragma version");
    }
    if c.spec.trees.len() > 1 {
        l.push("several trees");
    }
    Ok(Report { nontrivial: m.parts.len() >= 3, labels: l })
}

/// More than a page of anything.
fn giants_c12() -> Vec<C12> {
    [(giant(700), false), (giant(300), true), (verbose(300), true), (verbose(70_000), false)]
        .into_iter()
        .map(|(spec, vm_skip)| C12 {
            spec,
            layout: Layout::plain(),
            opts: Opts { vm_skip, ..Opts::default() },
            skip: false,
            name: 0,
        })
        .collect()
}

/// A large file in which every seventh member is missing and the rest is out of order.
pub fn giant_chk() -> Vec<ChkCase> {
    chks(200)
}

/// The same where every member that is missing makes for another parse of the file.
pub fn giant_fix() -> Vec<ChkCase> {
    let mut v = chks(100);
    let act = |i| Node::Act(Act { kw: "it".into(), words: vec![format!("n{i}")], descs: vec![] });
    let spec = Spec { trees: vec![Tree { contract: "Many".into(), func: None, kids: (0..300).map(act).collect() }] };
    let [mut c, _] = incomplete(spec);
    c.sol.members.truncate(5);
    v.push(c);
    v
}

fn chks(n: usize) -> Vec<ChkCase> {
    [giant(n), verbose(300), verbose(10_000)].into_iter().flat_map(incomplete).collect()
}

fn giants_c14() -> Vec<ChkCase> {
    let mut v = giant_chk();
    v.extend(rotated(giant(700)));
    v
}

/// Everything is there, but the last construct comes first, the first one last, or both.
fn rotated(spec: Spec) -> [ChkCase; 3] {
    let layout = Layout::plain();
    let m = model(&spec, &render(&spec, &layout));
    let sol = gen_sol(&mut G::replaying(vec![]), &m, SolCfg { plain: true, ..Default::default() });
    let ordered = ChkCase { spec, layout, sol, skip: false };
    let (mut a, mut b, mut c) = (ordered.clone(), ordered.clone(), ordered);
    a.sol.members.rotate_right(1);
    b.sol.members.rotate_left(1);
    let n = c.sol.members.len();
    c.sol.members.swap(0, n - 1);
    [a, b, c]
}

fn incomplete(spec: Spec) -> [ChkCase; 2] {
    let layout = Layout::plain();
    let m = model(&spec, &render(&spec, &layout));
    let mut sol = gen_sol(&mut G::replaying(vec![]), &m, SolCfg { plain: true, ..Default::default() });
    let mut i = 0;
    sol.members.retain(|_| {
        i += 1;
        i % 7 != 3
    });
    let ordered = ChkCase { spec, layout, sol, skip: false };
    let mut shuffled = ordered.clone();
    let n = shuffled.sol.members.len();
    for i in (0..n).step_by(5) {
        shuffled.sol.members.swap(i, (i * 7 + 3) % n);
    }
    [ordered, shuffled]
}

pub fn c12() -> Prop<C12> {
    Prop {
        id: "C12",
        rule: "at least 3 constructs are specified",
        gen: gen_c12,
        run: run_c12,
        fixed: giants_c12,
        quick: 5000,
        thorough: 120_000,
    }
}

// ------------------------------------------------------------------------ C13

fn gen_c13(g: &mut G) -> Option<ChkCase> {
    let shuffle = g.weighted(&[3, 0, 1]);
    gen_chk(g, small(), SolCfg { drop: 40, shuffle, noise: 7, rename: true, style: true, outside: true, ..Default::default() })
}

fn run_c13(c: &ChkCase, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    let m = model(&c.spec, &r);
    let w = c.sol.write();
    env.write("a.tree", &r.text);
    env.write("a.t.sol", &w.text);
    let (run, rep) = check(env, &args(c.skip))?;
    let ctx = || context(&r.text, &w.text, &run.err);
    let missing = c.sol.missing(&m);
    let want: Vec<String> = missing
        .iter()
        .map(|&i| &m.parts[i])
        .filter(|p| !(c.skip && p.is_mod()))
        .map(|p| p.name().to_owned())
        .collect();
    if let Some(d) = diff(&want, &missing_of(&rep.viols)) {
        fail!("constructs reported as missing: {d}\n{}", ctx());
    }
    for v in &rep.viols {
        ensure!(
            matches!(v.kind, Kind::Missing(_) | Kind::Order(_) | Kind::ContractName(..)),
            "unexpected report: {v:?}\n{}",
            ctx()
        );
    }
    let present = m.parts.len() - missing.len();
    let mut l = sol_labels(&c.sol, &m);
    if c.skip {
        l.push("skip-modifiers");
    }
    Ok(Report { nontrivial: present > 0 && !missing.is_empty(), labels: l })
}

pub fn c13() -> Prop<ChkCase> {
    Prop {
        id: "C13",
        rule: "some specified constructs are present and some missing",
        gen: gen_c13,
        run: run_c13,
        fixed: giant_chk,
        quick: 12_000,
        thorough: 300_000,
    }
}

// ------------------------------------------------------------------------ C14

fn gen_c14(g: &mut G) -> Option<ChkCase> {
    let drop = *g.pick(&[0, 0, 20, 50]);
    gen_chk(g, small(), SolCfg { drop, shuffle: 2, noise: 4, rename: true, style: true, outside: true, ..Default::default() })
}

fn run_c14(c: &ChkCase, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    let m = model(&c.spec, &r);
    let w = c.sol.write();
    env.write("a.tree", &r.text);
    env.write("a.t.sol", &w.text);
    let (run, rep) = check(env, &args(c.skip))?;
    let ctx = || context(&r.text, &w.text, &run.err);
    let mis = c.sol.misplaced(&w);
    let mut want: Vec<String> = mis.iter().map(|&(i, _)| m.parts[i].name().to_owned()).collect();
    want.sort();
    if let Some(d) = diff(&want, &order_of(&rep.viols)) {
        fail!("constructs reported as misplaced: {d}\n{}", ctx());
    }
    let mut l = sol_labels(&c.sol, &m);
    if mis.is_empty() {
        l.push("in order");
    }
    let n = c.sol.present(&w).len();
    Ok(Report { nontrivial: n >= 2 && !mis.is_empty(), labels: l })
}

pub fn c14() -> Prop<ChkCase> {
    Prop {
        id: "C14",
        rule: "at least 2 constructs are present and one is misplaced",
        gen: gen_c14,
        run: run_c14,
        fixed: giants_c14,
        quick: 12_000,
        thorough: 300_000,
    }
}

// ------------------------------------------------------------------------ C15

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C15 {
    pub spec: Spec,
    pub layout: Layout,
    pub a: SolFile,
    pub b: SolFile,
    pub skip: bool,
}

fn gen_c15(g: &mut G) -> Option<C15> {
    let spec = gen_spec(g, small())?;
    let layout = gen_layout(g);
    let m = model(&spec, &render(&spec, &layout));
    let drop = *g.pick(&[0, 0, 30]);
    let shuffle = *g.pick(&[0, 0, 1, 2]);
    let rename = g.chance(1, 2);
    let a = gen_sol(g, &m, SolCfg { drop, shuffle, rename, plain: true, ..Default::default() });
    let missing = a.missing(&m);
    let mut b = a.clone();
    for x in &mut b.members {
        if g.chance(1, 2) {
            x.text = part_text(g, &m.parts[x.part.unwrap()], false);
        }
        if g.chance(1, 4) {
            x.lead.push(comment_about(g, &m, &missing));
        }
        if g.chance(1, 8) {
            x.trail = Some("// }".into());
        }
    }
    let max = if g.chance(1, 50) { *g.pick(&[40, 70, 300]) } else { 8 };
    add_noise(g, &m, &mut b.members, max, &missing);
    if g.chance(1, 5) {
        add_overloads(g, &m, &mut b.members);
    }
    if g.chance(2, 3) {
        add_outside(g, &m, &mut b);
    }
    if g.chance(1, 3) {
        b.last = Some(comment_about(g, &m, &missing));
    }
    if g.chance(1, 4) {
        b.kw = "abstract contract".into();
    }
    if g.chance(1, 3) {
        b.bases = g.pick(&[" is Test", " is Test, Base(1)", " is Base(S({a: 1, b: 2}))", " is Base(\"contract X {\")"]).to_string();
    }
    if g.chance(1, 2) {
        b.spacing = *g.pick(&[0, 1, 2, 3]);
        b.indent = *g.pick(&[4, 0, 2]);
        b.crlf = g.chance(1, 4);
        b.brace_nl = g.chance(1, 4);
    }
    Some(C15 { spec, layout, a, b, skip: g.chance(1, 4) })
}

fn run_c15(c: &C15, env: &mut Env) -> Outcome {
    let r = render(&c.spec, &c.layout);
    env.write("a.tree", &r.text);
    let mut res = vec![];
    let mut texts = vec![];
    for s in [&c.a, &c.b] {
        let t = s.write().text;
        env.write("a.t.sol", &t);
        let (run, rep) = check(env, &args(c.skip))?;
        totals(&run, &rep)?;
        let kinds: Vec<(Kind, Option<usize>)> = rep
            .viols
            .iter()
            .map(|v| (v.kind.clone(), if v.file.ends_with(".tree") { v.line } else { None }))
            .collect();
        res.push((kinds, run.code));
        texts.push(t);
    }
    let ctx = || format!("--- tree:\n{}\n--- before:\n{}\n--- after:\n{}", r.text, texts[0], texts[1]);
    ensure!(
        res[0].1 == res[1].1,
        "unrelated code changes the verdict from {:?} to {:?}: {:?} became {:?}\n{}",
        res[0].1,
        res[1].1,
        res[0].0,
        res[1].0,
        ctx()
    );
    if let Some(d) = diff(&res[0].0, &res[1].0) {
        fail!("unrelated code changes the report: {d}\n{}", ctx());
    }
    let mut l = vec![];
    if res[0].0.is_empty() {
        l.push("passes");
    } else {
        l.push("has issues");
    }
    if c.skip {
        l.push("skip-modifiers");
    }
    let added = c.b.members.len() - c.a.members.len();
    Ok(Report { nontrivial: added >= 1, labels: l })
}

pub fn c15() -> Prop<C15> {
    Prop {
        id: "C15",
        rule: "at least one member that the tree doesn't specify is added to the contract",
        gen: gen_c15,
        run: run_c15,
        fixed: Vec::new,
        quick: 7000,
        thorough: 200_000,
    }
}

// ------------------------------------------------------------------------ C16

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    NoSol,
    /// The Solidity file holds only these lines.
    NoContract(Vec<String>),
    /// How the Solidity file is broken.
    BadSol(usize),
    /// How the tree is broken.
    BadTree(usize),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C16 {
    pub c: ChkCase,
    pub fault: Fault,
}

fn gen_c16(g: &mut G) -> Option<C16> {
    let drop = *g.pick(&[0, 0, 30]);
    let shuffle = *g.pick(&[0, 0, 2]);
    let mut c = gen_chk(g, small(), SolCfg { drop, shuffle, noise: 3, rename: true, style: true, outside: true, ..Default::default() })?;
    let fault = match g.weighted(&[10, 2, 4, 3, 3]) {
        0 => Fault::None,
        1 => Fault::NoSol,
        2 => {
            let mut v = vec![];
            for i in 0..g.range(0, 4) {
                v.push(match g.below(10) {
                    0 => "pragma solidity 0.8.0;".to_owned(),
                    1 => "// SPDX-License-Identifier: MIT".into(),
                    2 => format!("// contract C{i} {{}}"),
                    3 => format!("string constant S{i} = \"contract Foo {{}}\";"),
                    4 => format!("function free{i}() pure {{}}"),
                    5 => format!("struct S{i} {{ uint256 a; }}"),
                    6 => format!("import \"./D{i}.sol\";"),
                    7 => format!("error E{i}();"),
                    8 => format!("/* contract F{i} {{\n}} */"),
                    _ => "\n".into(),
                });
            }
            Fault::NoContract(v)
        }
        3 => Fault::BadSol(g.below(8)),
        _ => Fault::BadTree(g.below(5)),
    };
    // More ways of differing from the root's name.
    if g.chance(1, 3) {
        let m = model(&c.spec, &render(&c.spec, &c.layout));
        let n = &m.contract;
        let cand = match g.below(7) {
            0 => n.to_uppercase(),
            1 => format!("{n}Test"),
            2 => n.chars().skip(1).collect(),
            3 => n.chars().take(n.chars().count() - 1).collect(),
            4 => lower_first(n),
            5 => format!("{n}_"),
            _ => format!("{n}{n}"),
        };
        if crate::sol::legal_identifier(&cand) {
            c.sol.name = cand;
        }
    }
    Some(C16 { c, fault })
}

pub fn break_sol(how: usize, text: &str) -> String {
    match how {
        0 => format!("{text}\n}}"),
        1 => format!("{text}\ncontract {{"),
        2 => format!("function (\n{text}"),
        3 => format!("{text}\n/* never closed"),
        4 => format!("{text}\nstring constant Z = \"never closed;\n"),
        5 => format!("contract A {{ function x( }}\n{text}"),
        6 => format!("contract is\n{text}"),
        _ => format!("{text}\ncontract A {{ uint256 x }}"),
    }
}

pub fn break_tree(how: usize, text: &str) -> String {
    match how {
        0 => String::new(),
        1 => "Foo\n└── when there is nothing below".into(),
        2 => format!("{text}\n\n\nxx\n└── when $\n   └── it x"),
        3 => "└── it has no root".into(),
        _ => "Foo\n├── when a\n│  └── it x\n└── when a\n   └── it y\n".into(),
    }
}

fn run_c16(x: &C16, env: &mut Env) -> Outcome {
    let c = &x.c;
    let r = render(&c.spec, &c.layout);
    let m = model(&c.spec, &r);
    let w = c.sol.write();
    let (mut tree, mut sol) = (r.text.clone(), Some(w.text.clone()));
    match &x.fault {
        Fault::None => {}
        Fault::NoSol => sol = None,
        Fault::NoContract(v) => sol = Some(v.join("\n")),
        Fault::BadSol(h) => sol = Some(break_sol(*h, &w.text)),
        Fault::BadTree(h) => tree = break_tree(*h, &tree),
    }
    env.write("a.tree", &tree);
    match &sol {
        Some(s) => env.write("a.t.sol", s),
        None => env.remove("a.t.sol"),
    }
    let (run, rep) = check(env, &args(c.skip))?;
    let ctx = || context(&tree, sol.as_deref().unwrap_or("(none)"), &format!("{}{}", run.out, run.err));
    totals(&run, &rep)?;
    let kinds: Vec<&Kind> = rep.viols.iter().map(|v| &v.kind).collect();
    let only = |k: &dyn Fn(&Kind) -> bool, what: &str| -> Res<()> {
        ensure!(kinds.len() == 1 && k(kinds[0]), "{what} isn't reported as the only issue: {kinds:?}\n{}", ctx());
        Ok(())
    };
    match &x.fault {
        Fault::NoSol => only(&|k| *k == Kind::SolMissing, "a missing Solidity file")?,
        Fault::NoContract(_) => only(&|k| *k == Kind::ContractMissing(m.contract.clone()), "the missing contract")?,
        Fault::BadSol(_) => only(&|k| *k == Kind::SolInvalid, "an unparsable Solidity file")?,
        Fault::BadTree(4) => only(&|k| *k == Kind::TreeSemantic, "a tree with semantic errors")?,
        Fault::BadTree(1) => only(&|k| *k == Kind::TreeSemantic, "a tree with semantic errors")?,
        Fault::BadTree(_) => only(&|k| matches!(k, Kind::TreeInvalid(_)), "an unparsable tree")?,
        Fault::None => {
            let want: Vec<Kind> = expected(&m, &c.sol, &w, c.skip).into_iter().map(|w| w.kind).collect();
            let mut want_s = want.clone();
            want_s.sort();
            let mut got: Vec<Kind> = kinds.iter().map(|k| (*k).clone()).collect();
            got.sort();
            if let Some(d) = diff(&want_s, &got) {
                fail!("issues: {d}\n{}", ctx());
            }
        }
    }
    let mut l = vec![match &x.fault {
        Fault::None if c.sol.name != m.contract => "misnamed contract",
        Fault::None => "right name",
        Fault::NoSol => "no solidity file",
        Fault::NoContract(_) => "no contract",
        Fault::BadSol(_) => "broken solidity",
        Fault::BadTree(_) => "broken tree",
    }];
    if c.spec.trees.len() > 1 {
        l.push("several trees");
    }
    Ok(Report { nontrivial: !rep.viols.is_empty(), labels: l })
}

/// Issues beyond what small numbers count.
fn far_c16() -> Vec<C16> {
    let mut v = vec![];
    for layout in far_layouts() {
        let spec = giant(12);
        let m = model(&spec, &render(&spec, &layout));
        let mut sol = gen_sol(&mut G::replaying(vec![]), &m, SolCfg { plain: true, ..Default::default() });
        sol.members.remove(5);
        let n = sol.members.len();
        sol.members.swap(1, n - 2);
        sol.lead_blank = 70_000;
        v.push(ChkCase { spec, layout, sol, skip: false });
    }
    v.extend(giant_chk());
    v.into_iter().map(|c| C16 { c, fault: Fault::None }).collect()
}

pub fn c16() -> Prop<C16> {
    Prop {
        id: "C16",
        rule: "check reports something",
        gen: gen_c16,
        run: run_c16,
        fixed: far_c16,
        quick: 12_000,
        thorough: 250_000,
    }
}

// ------------------------------------------------------------------------ C17

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C17 {
    pub files: Vec<C16>,
    /// Paths of the trees, as given on the command line.
    pub paths: Vec<String>,
    pub skip: bool,
}

fn gen_c17(g: &mut G) -> Option<C17> {
    let n = *g.pick(&[1, 1, 1, 2, 3]);
    let mut files = vec![];
    let mut paths = vec![];
    for i in 0..n {
        let drop = *g.pick(&[0, 0, 30]);
        let shuffle = *g.pick(&[0, 2]);
        let c = gen_chk(g, small(), SolCfg { drop, shuffle, noise: 3, rename: true, style: true, outside: true, ..Default::default() })?;
        let fault = match g.weighted(&[14, 1, 1, 1, 1]) {
            0 => Fault::None,
            1 => Fault::NoSol,
            2 => Fault::NoContract(vec!["pragma solidity 0.8.0;".into()]),
            3 => Fault::BadSol(g.below(8)),
            _ => Fault::BadTree(g.below(5)),
        };
        let mut c = c;
        // Within a comment, a carriage return alone is no line break to count.
        if g.chance(1, 10) {
            c.sol.pre.insert(0, "/* a\rb */".into());
        }
        files.push(C16 { c, fault });
        let p = g.pick(&["a", "./a", "sub/a", "sub/../a", "my.spec", "with blank", "é日本", "sub.t.sol/a", "a.tree", "ABS/a", "-x", "a'b", "a\"b", "a\\b"]);
        let p = p.replace("-x", "./-x");
        paths.push(format!("{p}{i}.tree"));
    }
    Some(C17 { files, paths, skip: g.chance(1, 4) })
}

fn run_c17(x: &C17, env: &mut Env) -> Outcome {
    env.clean();
    for d in ["sub", "sub.t.sol", "ABS"] {
        std::fs::create_dir_all(env.dir.join(d)).map_err(|e| crate::engine::Fail::Broken(e.to_string()))?;
    }
    let base = env.dir.to_string_lossy().into_owned();
    let paths: Vec<String> = x
        .paths
        .iter()
        .map(|p| if p.starts_with("ABS/") { format!("{base}/{p}") } else { p.clone() })
        .collect();
    let mut want: Vec<(Want, usize)> = vec![];
    let mut all = String::new();
    for (i, f) in x.files.iter().enumerate() {
        let r = render(&f.c.spec, &f.c.layout);
        let m = model(&f.c.spec, &r);
        let w = f.c.sol.write();
        let p = &paths[i];
        let sp = format!("{}.t.sol", p.strip_suffix(".tree").unwrap());
        let (mut tree, mut sol) = (r.text.clone(), Some(w.text.clone()));
        let one = |kind, in_sol| vec![Want { kind, in_sol, line: None }];
        let v = match &f.fault {
            Fault::None => expected(&m, &f.c.sol, &w, x.skip),
            Fault::NoSol => {
                sol = None;
                one(Kind::SolMissing, false)
            }
            Fault::NoContract(l) => {
                sol = Some(l.join("\n"));
                one(Kind::ContractMissing(m.contract.clone()), false)
            }
            Fault::BadSol(h) => {
                sol = Some(break_sol(*h, &w.text));
                one(Kind::SolInvalid, true)
            }
            Fault::BadTree(h) => {
                tree = break_tree(*h, &tree);
                one(if matches!(h, 1 | 4) { Kind::TreeSemantic } else { Kind::TreeInvalid(String::new()) }, false)
            }
        };
        want.extend(v.into_iter().map(|w| (w, i)));
        all.push_str(&format!("--- {p}:\n{tree}\n--- {sp}:\n{}\n", sol.as_deref().unwrap_or("(none)")));
        let at = |p: &str| if p.starts_with('/') { p.to_owned() } else { format!("{base}/{p}") };
        std::fs::write(at(p), &tree).map_err(|e| crate::engine::Fail::Broken(e.to_string()))?;
        if let Some(s) = sol {
            std::fs::write(at(&sp), s).map_err(|e| crate::engine::Fail::Broken(e.to_string()))?;
        }
    }
    let mut a: Vec<&str> = if x.skip { vec!["-m"] } else { vec![] };
    a.extend(paths.iter().map(String::as_str));
    let (run, rep) = check(env, &a)?;
    let ctx = || format!("{all}--- report:\n{}{}", run.out, run.err);
    totals(&run, &rep)?;
    // As multisets of (kind, file, line).
    let key = |k: &Kind, file: &str, line: Option<usize>| -> (Kind, String, Option<usize>) {
        let k = match k {
            Kind::TreeInvalid(_) => Kind::TreeInvalid(String::new()),
            Kind::SolMissing => Kind::SolMissing,
            k => k.clone(),
        };
        (k, file.to_owned(), line)
    };
    let mut w: Vec<_> = want
        .iter()
        .map(|(w, i)| {
            let t = &paths[*i];
            let f = if w.in_sol { format!("{}.t.sol", t.strip_suffix(".tree").unwrap()) } else { t.clone() };
            key(&w.kind, &f, w.line)
        })
        .collect();
    w.sort();
    let mut got: Vec<_> = rep.viols.iter().map(|v| key(&v.kind, &v.file, v.line)).collect();
    got.sort();
    if let Some(d) = diff(&w, &got) {
        fail!("reports with their locations: {d}\n{}", ctx());
    }
    for v in &rep.viols {
        if v.kind.fixable() {
            let tree = if v.file.ends_with(".t.sol") {
                format!("{}.tree", v.file.strip_suffix(".t.sol").unwrap())
            } else {
                v.file.clone()
            };
            let want = format!("`bulloak check --fix {tree}`");
            ensure!(v.fix.as_deref() == Some(&want), "the advice for {:?} isn't {want} but {:?}\n{}", v.kind, v.fix, ctx());
        } else {
            ensure!(v.fix.is_none(), "fix advice for {:?}, which can't be fixed\n{}", v.kind, ctx());
        }
        let must: Option<String> = match &v.kind {
            Kind::ContractMissing(n) | Kind::ContractName(n, _) => Some(format!("\"{n}\"")),
            Kind::SolMissing => Some(format!("bulloak scaffold {}`", v.file)),
            _ => None,
        };
        if let Some(must) = must {
            ensure!(
                v.help.as_deref().unwrap_or("").contains(&must),
                "the help for {:?} doesn't mention {must}: {:?}\n{}",
                v.kind,
                v.help,
                ctx()
            );
        }
    }
    let mut l = vec![];
    if x.files.len() > 1 {
        l.push("several files");
    }
    if x.files.iter().any(|f| f.fault != Fault::None) {
        l.push("unreadable or invalid file");
    }
    if rep.viols.is_empty() {
        l.push("no issues");
    }
    if rep.viols.iter().any(|v| matches!(v.kind, Kind::Order(_))) {
        l.push("order issue");
    }
    if rep.viols.iter().any(|v| matches!(v.kind, Kind::Missing(_))) {
        l.push("missing construct");
    }
    if x.files.iter().any(|f| f.c.spec.trees.len() > 1) {
        l.push("several trees");
    }
    Ok(Report { nontrivial: rep.viols.len() >= 2, labels: l })
}

/// As many issues as a byte doesn't count.
fn many_issues() -> Vec<C17> {
    [256, 300]
        .into_iter()
        .map(|n| {
            let kids = (0..n)
                .map(|i| Node::Act(Act { kw: "it".into(), words: vec![format!("x{i}")], descs: vec![] }))
                .collect();
            let spec = Spec { trees: vec![Tree { contract: "Foo".into(), func: None, kids }] };
            let layout = Layout::plain();
            let m = model(&spec, &render(&spec, &layout));
            let mut sol = gen_sol(&mut G::replaying(vec![]), &m, SolCfg { plain: true, ..Default::default() });
            sol.members.clear();
            ChkCase { spec, layout, sol, skip: false }
        })
        .chain(far_c16().into_iter().map(|x| x.c))
        .map(|c| C17 { files: vec![C16 { c, fault: Fault::None }], paths: vec!["a0.tree".into()], skip: false })
        .collect()
}

pub fn c17() -> Prop<C17> {
    Prop {
        id: "C17",
        rule: "check reports at least 2 issues",
        gen: gen_c17,
        run: run_c17,
        fixed: many_issues,
        quick: 8000,
        thorough: 200_000,
    }
}
