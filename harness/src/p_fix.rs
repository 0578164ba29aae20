//! C18 and C19: what `check --fix` makes of a file, over histories of edits of
//! the tree and of the Solidity file.

use serde::{Deserialize, Serialize};

use crate::{
    cli::{clip, fixed_count, Env, Kind},
    common::*,
    engine::{Fail, Outcome, Prop, Report, G},
    p_check::{giant_fix, totals},
    sol::{self, norm_comment, T},
    solgen::*,
    spec::*,
};

/// An edit of the Solidity file between two fixes.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Edit {
    /// Moves the member at the first index to the second (both modulo).
    Move(usize, usize),
    Delete(usize),
    Rename(String),
    /// Inserts a member at an index.
    Insert(usize, String),
    /// Drops the whole contract.
    DropContract,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub spec: Spec,
    pub layout: Layout,
    pub edits: Vec<Edit>,
    pub skip: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FixCase {
    pub steps: Vec<Step>,
    pub sol: SolFile,
    /// The file has no contract, only what surrounds it.
    pub no_contract: bool,
    /// Look at the result through --stdout first.
    pub stdout: bool,
    /// A byte that isn't UTF-8, somewhere in the file.
    #[serde(default)]
    pub bad_byte: Option<(u8, usize)>,
}

fn mutate_kids(g: &mut G, kids: &mut Vec<Node>) {
    match g.below(4) {
        0 => {
            let n = 100 + g.below(100);
            kids.push(Node::Cond(Cond {
                kw: "when".into(),
                words: vec![format!("added{n}")],
                kids: vec![Node::Act(Act { kw: "it".into(), words: vec!["works".into()], descs: vec![] })],
            }));
        }
        1 if kids.len() > 1 => {
            let i = g.below(kids.len());
            kids.remove(i);
        }
        2 if kids.len() > 1 => {
            let i = g.below(kids.len());
            let k = kids.remove(i);
            let j = g.below(kids.len() + 1);
            kids.insert(j, k);
        }
        _ => {
            let i = g.below(kids.len());
            match &mut kids[i] {
                Node::Cond(c) => {
                    if g.chance(1, 3) {
                        c.words.push(format!("r{}", g.below(50)));
                    } else {
                        mutate_kids(g, &mut c.kids);
                    }
                }
                Node::Act(a) => a.words.push(format!("r{}", g.below(50))),
            }
        }
    }
}

fn gen_fix(g: &mut G) -> Option<FixCase> {
    let mut spec = gen_spec(g, GenCfg { max_depth: 3, max_kids: 3, odd: 15, ..Default::default() })?;
    let layout = gen_layout(g);
    let m = model(&spec, &render(&spec, &layout));
    let drop = *g.pick(&[0, 30, 30, 60]);
    let shuffle = *g.pick(&[0, 1, 2]);
    let noise = *g.pick(&[0, 5, 8]);
    let rename = g.chance(1, 2);
    let style = g.chance(2, 3);
    let outside = g.chance(2, 3);
    let mut sol = gen_sol(g, &m, SolCfg { drop, shuffle, noise, rename, style, outside, ..Default::default() });
    for x in &mut sol.members {
        x.text = canon(&x.text);
    }
    let mut steps = vec![Step { spec: spec.clone(), layout, edits: vec![], skip: g.chance(1, 5) }];
    for _ in 0..g.weighted(&[4, 2, 1]) {
        for _ in 0..g.range(0, 3) {
            let t = g.below(spec.trees.len());
            mutate_kids(g, &mut spec.trees[t].kids);
        }
        if g.chance(1, 6) {
            for t in &mut spec.trees {
                t.contract = "Renamed".into();
            }
        }
        let layout = gen_layout(g);
        if !model(&spec, &render(&spec, &layout)).unique() || has_duplicates(&spec) {
            return None;
        }
        let edits = (0..g.range(0, 3))
            .map(|i| match g.weighted(&[4, 3, 1, 2]) {
                0 => Edit::Move(g.below(12), g.below(12)),
                1 => Edit::Delete(g.below(12)),
                2 => Edit::Rename(g.pick(&["Other", "FooTest2", "X"]).to_string()),
                _ => Edit::Insert(
                    g.below(12),
                    g.pick(&["function extraFn{i}() public {}", "// only a comment", "uint256 internal extra{i};", "modifier extraMod{i}() {\n    _;\n}"])
                        .replace("{i}", &i.to_string()),
                ),
            })
            .collect();
        steps.push(Step { spec: spec.clone(), layout, edits, skip: g.chance(1, 5) });
    }
    let bad_byte = g.chance(1, 40).then(|| (*g.pick(&[0x80, 0xe9, 0xc3, 0xff]), g.below(10_000)));
    Some(FixCase { steps, sol, no_contract: g.chance(1, 12), stdout: g.chance(1, 6), bad_byte })
}

/// Conditions or top-level actions that bulloak rejects as duplicates.
fn has_duplicates(s: &Spec) -> bool {
    fn conds<'a>(k: &'a [Node], v: &mut Vec<String>) {
        for n in k {
            if let Node::Cond(c) = n {
                v.push(modifier_name(c));
                conds(&c.kids, v);
            }
        }
    }
    s.trees.iter().any(|t| {
        let mut v = vec![];
        conds(&t.kids, &mut v);
        let n = v.len();
        v.sort();
        v.dedup();
        n != v.len()
    })
}

/// Applies an edit to text that was written by the formatter or by hand.
fn apply(e: &Edit, text: &str) -> Option<String> {
    let u = sol::unit(text).ok()?;
    let c = u.contract()?;
    let (head, members, _) = c.contract_parts().ok()?;
    let span = |i: &sol::Item| (i.toks[0].start, i.toks[i.toks.len() - 1].end);
    match e {
        Edit::Move(i, j) => {
            let n = members.len();
            if n < 2 {
                return None;
            }
            let (a, b) = span(&members[i % n]);
            let (c0, d0) = span(&members[j % n]);
            if a == c0 {
                return None;
            }
            // Swap the two.
            let (x, y) = if a < c0 { ((a, b), (c0, d0)) } else { ((c0, d0), (a, b)) };
            Some(format!(
                "{}{}{}{}{}",
                &text[..x.0],
                &text[y.0..y.1],
                &text[x.1..y.0],
                &text[x.0..x.1],
                &text[y.1..]
            ))
        }
        Edit::Delete(i) => {
            let n = members.len();
            if n == 0 {
                return None;
            }
            let (a, b) = span(&members[i % n]);
            Some(format!("{}{}", &text[..a], &text[b..]))
        }
        Edit::Rename(n) => {
            let name = c.contract_name()?;
            let t = head.iter().find(|t| t.t == T::Word(name.to_owned()))?;
            Some(format!("{}{n}{}", &text[..t.start], &text[t.end..]))
        }
        Edit::Insert(i, what) => {
            let n = members.len();
            if n == 0 {
                return None;
            }
            let (a, _) = span(&members[i % n]);
            Some(format!("{}{what}\n{}", &text[..a], &text[a..]))
        }
        Edit::DropContract => {
            let (a, b) = span(c);
            Some(format!("{}{}", &text[..a], &text[b..]))
        }
    }
}

struct Stage {
    model: Model,
    tree: String,
    before: String,
    after: String,
    skip: bool,
    kinds: Vec<Kind>,
    fixed: Option<usize>,
}

/// Writes `modifier x()` for `modifier x`, as the formatter would.
fn canon(text: &str) -> String {
    let Ok(toks) = sol::lex(text) else { return text.to_owned() };
    let code: Vec<&sol::Tok> = toks.iter().filter(|t| !matches!(t.t, T::Comment(_))).collect();
    let mut s = text.to_owned();
    for w in code.windows(3).rev() {
        if w[0].t == T::Word("modifier".into()) && matches!(w[1].t, T::Word(_)) && w[2].t != T::P('(') {
            s.insert_str(w[1].end, "()");
        }
    }
    s
}

fn context(s: &Stage) -> String {
    format!("--- tree:\n{}\n--- before check --fix{}:\n{}\n--- after:\n{}", s.tree, if s.skip { " -m" } else { "" }, s.before, s.after)
}

/// Runs the history; `f` judges every step.
fn history(c: &FixCase, env: &mut Env, f: &mut dyn FnMut(&Stage, &mut Env) -> Result<(), Fail>) -> Res<Vec<&'static str>> {
    let mut l: Vec<&'static str> = vec![];
    let mut text = if c.no_contract {
        l.push("no contract");
        c.sol.pre.iter().chain(&c.sol.post.iter().filter(|p| !p.contains("contract") && !p.contains("library") && !p.contains("interface")).cloned().collect::<Vec<_>>()).cloned().collect::<Vec<_>>().join("\n")
    } else {
        c.sol.write().text
    };
    for (n, s) in c.steps.iter().enumerate() {
        for e in &s.edits {
            if let Some(t) = apply(e, &text) {
                text = t;
            }
        }
        let r = render(&s.spec, &s.layout);
        let m = model(&s.spec, &r);
        env.write("a.tree", &r.text);
        env.write("a.t.sol", &text);
        let flags: &[&str] = if s.skip { &["-m", "a.tree"] } else { &["a.tree"] };
        let (run0, rep0) = check(env, flags)?;
        totals(&run0, &rep0)?;
        let mut a = vec!["check", "--fix"];
        a.extend(flags);
        let mut shown = None;
        if c.stdout {
            let mut b = a.clone();
            b.push("--stdout");
            let o = run(env, &b)?;
            ensure!(o.code == Some(0), "check --fix --stdout fails: {}", clip(&o.err));
            let same = read(env, "a.t.sol")?;
            ensure!(same == text, "check --fix --stdout changes the file");
            let body = o
                .out
                .split_once("--> a.t.sol\n")
                .and_then(|(_, r)| r.rsplit_once("\n<--\n"))
                .map(|(b, _)| b.to_owned());
            let Some(body) = body else { fail!("check --fix --stdout prints no file:\n{}", o.out) };
            shown = Some(body);
        }
        let o = run(env, &a)?;
        let after = read(env, "a.t.sol")?;
        let st = Stage {
            model: m,
            tree: r.text.clone(),
            before: text.clone(),
            after: after.clone(),
            skip: s.skip,
            kinds: rep0.viols.iter().map(|v| v.kind.clone()).collect(),
            fixed: fixed_count(&o.out),
        };
        ensure!(o.code == Some(0), "check --fix exits with {:?}: {}\n{}", o.code, clip(&o.err), context(&st));
        if let Some(b) = shown {
            ensure!(
                b.trim() == after.trim(),
                "check --fix --stdout prints something else than check --fix writes:\n{b}\n{}",
                context(&st)
            );
        }
        f(&st, env)?;
        if st.kinds.iter().any(|k| matches!(k, Kind::Order(_))) {
            l.push("order issues");
        }
        if st.kinds.iter().any(|k| matches!(k, Kind::Missing(_))) {
            l.push("missing constructs");
        }
        if st.kinds.iter().any(|k| matches!(k, Kind::ContractName(..))) {
            l.push("misnamed contract");
        }
        if st.kinds.is_empty() {
            l.push("nothing to fix");
        }
        if n > 0 && !st.kinds.is_empty() {
            l.push("issues in a file fixed before");
        }
        if s.skip {
            l.push("skip-modifiers");
        }
        text = after;
    }
    if c.stdout {
        l.push("stdout");
    }
    l.sort();
    l.dedup();
    Ok(l)
}

fn names(text: &str) -> Res<(String, Vec<String>)> {
    let u = match sol::unit(text) {
        Ok(u) => u,
        Err(m) => fail!("the fixed file can't be read: {m}\n{text}"),
    };
    let Some(c) = u.contract() else { fail!("the fixed file has no contract\n{text}") };
    let parts = match c.contract_parts() {
        Ok(p) => p,
        Err(m) => fail!("the fixed contract can't be read: {m}\n{text}"),
    };
    Ok((
        c.contract_name().unwrap_or("").to_owned(),
        parts.1.iter().filter_map(|i| i.fn_name().map(|(k, n)| format!("{k} {n}"))).collect(),
    ))
}

fn part_id(p: &Part) -> String {
    format!("{} {}", if p.is_mod() { "modifier" } else { "function" }, p.name())
}

// ------------------------------------------------------------------------ C18

fn run_c18(c: &FixCase, env: &mut Env) -> Outcome {
    let mut issues = 0;
    let plain = c.sol.last.is_none()
        && c.sol.members.iter().all(|m| m.lead.is_empty() && m.trail.is_none() && (m.part.is_some() || !m.text.contains("//")))
        && c.steps.iter().all(|s| !s.edits.iter().any(|e| matches!(e, Edit::Insert(_, t) if t.contains("//"))));
    let l = history(c, env, &mut |s, env| {
        let ctx = || context(s);
        issues += s.kinds.len();
        ensure!(
            s.fixed == Some(s.kinds.len()),
            "check reported {} fixable issues, check --fix claims to have fixed {:?}\n{}",
            s.kinds.len(),
            s.fixed,
            ctx()
        );
        // The result, judged without bulloak's help.
        let (name, have) = names(&s.after)?;
        ensure!(name == s.model.contract, "the contract is named {name} after fixing\n{}", ctx());
        let whole = s.kinds.iter().any(|k| matches!(k, Kind::ContractMissing(_)));
        let before: Vec<String> = if whole { vec![] } else { names(&s.before)?.1 };
        let mut last = None;
        for p in &s.model.parts {
            let id = part_id(p);
            let at = have.iter().position(|h| *h == id);
            let had = before.contains(&id);
            if p.is_mod() && s.skip && !whole {
                ensure!(at.is_some() == had, "{id} appears or vanishes although modifiers are skipped\n{}", ctx());
            } else {
                ensure!(at.is_some(), "{id} is still missing after fixing\n{}", ctx());
            }
            ensure!(
                have.iter().filter(|h| **h == id).count() == before.iter().filter(|h| **h == id).count().max(at.is_some() as usize),
                "{id} is there more often than before\n{}",
                ctx()
            );
            if at.is_some() {
                ensure!(at > last, "{id} is out of order after fixing\n{}", ctx());
                last = at;
            }
        }
        // Bulloak's own verdict, and a second fix.
        let flags: &[&str] = if s.skip { &["-m", "a.tree"] } else { &["a.tree"] };
        let (run1, rep1) = check(env, flags)?;
        totals(&run1, &rep1)?;
        ensure!(rep1.viols.is_empty(), "check still reports {:?} after fixing\n{}", rep1.viols, ctx());
        let mut a = vec!["check", "--fix"];
        a.extend(flags);
        let o = run(env, &a)?;
        let again = read(env, "a.t.sol")?;
        ensure!(
            o.code == Some(0) && fixed_count(&o.out) == Some(0),
            "a second check --fix exits with {:?} and says {}\n{}",
            o.code,
            clip(&o.out),
            ctx()
        );
        // The formatter itself may need two rounds to settle the blanks around comments.
        ensure!(
            again == s.after || (!plain && sol::tokens_of(&again) == sol::tokens_of(&s.after)),
            "a second check --fix changes the file to:\n{again}\n{}",
            ctx()
        );
        // What was added is what scaffold emits.
        let added = additions(s)?;
        for (i, a) in &added {
            let Some(p) = s.model.parts.iter().find(|p| part_id(p) == *i) else {
                fail!("check --fix added {i}, which isn't specified\n{}", ctx())
            };
            let want: Vec<T> = sol::lex(&source_of_part(p, false)).unwrap().into_iter().map(|t| t.t).collect();
            if let Some(d) = diff(&want, a) {
                fail!("{i} was added in another form than scaffold emits: {d}\n{}", ctx());
            }
        }
        Ok(())
    })?;
    Ok(Report { nontrivial: issues > 0, labels: l })
}

/// Members of the contract after fixing that weren't there before.
fn additions(s: &Stage) -> Res<Vec<(String, Vec<T>)>> {
    let members = |t: &str| -> Res<Vec<sol::Item>> {
        let Ok(u) = sol::unit(t) else { fail!("the file can't be read\n{t}") };
        Ok(match u.contract() {
            Some(c) => c.contract_parts().map(|p| p.1).unwrap_or_default(),
            None => vec![],
        })
    };
    let mut old: Vec<Vec<T>> = members(&s.before)?.iter().map(|i| sol::without_comments(&i.toks)).collect();
    let mut v = vec![];
    for i in members(&s.after)? {
        let code = sol::without_comments(&i.toks);
        if let Some(at) = old.iter().position(|o| *o == code) {
            old.remove(at);
            continue;
        }
        let id = i.fn_name().map_or("something".to_owned(), |(k, n)| format!("{k} {n}"));
        v.push((id, i.toks.iter().map(|t| t.t.clone()).collect()));
    }
    Ok(v)
}

fn giants() -> Vec<FixCase> {
    giant_fix()
        .into_iter()
        .map(|c| FixCase {
            steps: vec![Step { spec: c.spec, layout: c.layout, edits: vec![], skip: false }],
            sol: c.sol,
            no_contract: false,
            stdout: false,
            bad_byte: None,
        })
        .collect()
}

pub fn c18() -> Prop<FixCase> {
    Prop {
        id: "C18",
        rule: "there is something to fix in at least one step",
        gen: gen_fix,
        run: run_c18,
        fixed: giants,
        quick: 4000,
        thorough: 90_000,
    }
}

// ------------------------------------------------------------------------ C19

const SEPARATOR: &[&str] = &[
    "// <<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<",
    "// ==================== BULLOAK AUTOGENERATED SEPARATOR ====================",
    "// >>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>",
    "// Code below this section could not be automatically moved by bulloak",
    "// =========================================================================",
];

fn all_comments(text: &str) -> Vec<String> {
    let mut v: Vec<String> = sol::lex(text)
        .unwrap_or_default()
        .into_iter()
        .filter_map(|t| match t.t {
            T::Comment(c) => Some(norm_comment(&c)),
            _ => None,
        })
        .collect();
    v.sort();
    v
}

/// Elements of `a` that aren't in `b` (as multisets).
fn minus<A: PartialEq + Clone>(a: &[A], b: &[A]) -> Vec<A> {
    let mut b = b.to_vec();
    let mut v = vec![];
    for x in a {
        match b.iter().position(|y| y == x) {
            Some(i) => {
                b.swap_remove(i);
            }
            None => v.push(x.clone()),
        }
    }
    v
}

/// What can't be read isn't rewritten.
fn unreadable(c: &FixCase, (byte, at): (u8, usize), env: &mut Env) -> Outcome {
    let s = &c.steps[0];
    let mut sol = c.sol.write().text.into_bytes();
    // Not within a sequence of bytes that it could complete.
    let mut at = at % (sol.len() + 1);
    while at < sol.len() && sol[at] & 0xc0 == 0x80 {
        at += 1;
    }
    sol.insert(at, byte);
    if std::str::from_utf8(&sol).is_ok() {
        return Ok(Report { nontrivial: false, labels: vec![] });
    }
    env.write("a.tree", &render(&s.spec, &s.layout).text);
    env.write("a.t.sol", &sol);
    let mut a = vec!["check", "--fix", "a.tree"];
    if s.skip {
        a.push("-m");
    }
    let ctx = || format!("byte {byte:#x} at {at} of a.t.sol:\n{}", String::from_utf8_lossy(&sol));
    let o = run(env, &a)?;
    let after = std::fs::read(env.dir.join("a.t.sol")).unwrap_or_default();
    ensure!(after == sol, "check --fix rewrites a file that isn't UTF-8:\n{}\n{}", String::from_utf8_lossy(&after), ctx());
    ensure!(o.code == Some(1), "check --fix exits with {:?} for a file that isn't UTF-8\n{}{}\n{}", o.code, o.out, o.err, ctx());
    Ok(Report { nontrivial: true, labels: vec!["not UTF-8"] })
}

fn run_c19(c: &FixCase, env: &mut Env) -> Outcome {
    if let Some(b) = c.bad_byte {
        return unreadable(c, b, env);
    }
    let mut issues = 0;
    let l = history(c, env, &mut |s, _| {
        let ctx = || context(s);
        issues += s.kinds.len();
        let (Ok(b), Ok(a)) = (sol::unit(&s.before), sol::unit(&s.after)) else {
            fail!("the fixed file can't be read\n{}", ctx())
        };
        if s.kinds.is_empty() {
            // The formatter moves comments between tokens, but not past each other.
            let strip = |t: &str| sol::without_comments(&sol::lex(t).unwrap_or_default());
            if let Some(d) = diff(&strip(&s.before), &strip(&s.after)) {
                fail!("nothing was to be fixed, but the code changed: {d}\n{}", ctx());
            }
            let comments = |t: &str| -> Vec<T> {
                sol::tokens_of(t).into_iter().filter(|t| matches!(t, T::Comment(_))).collect()
            };
            if let Some(d) = diff(&comments(&s.before), &comments(&s.after)) {
                fail!("nothing was to be fixed, but the comments changed: {d}\n{}", ctx());
            }
            return Ok(());
        }
        let bc = b.items.iter().position(|i| i.is_contract());
        let ac = a.items.iter().position(|i| i.is_contract());
        let Some(ac) = ac else { fail!("the fixed file has no contract\n{}", ctx()) };
        // Around the contract.
        let codes = |v: &[sol::Item]| v.iter().map(|i| sol::without_comments(&i.toks)).collect::<Vec<_>>();
        let (outer_b, outer_a) = match bc {
            Some(bc) => {
                let mut x = codes(&b.items[..bc]);
                x.extend(codes(&b.items[bc + 1..]));
                let mut y = codes(&a.items[..ac]);
                y.extend(codes(&a.items[ac + 1..]));
                if let Some(d) = diff(&codes(&b.items[..bc]), &codes(&a.items[..ac])) {
                    fail!("code before the contract: {d}\n{}", ctx());
                }
                (x, y)
            }
            None => {
                let mut y = codes(&a.items);
                y.remove(ac);
                let mut x = codes(&b.items);
                if s.before.trim().is_empty() {
                    // A new file gets its pragma.
                    x = sol::unit("pragma solidity 0.8.0;").unwrap().items.iter().map(|i| sol::without_comments(&i.toks)).collect();
                }
                (x, y)
            }
        };
        if let Some(d) = diff(&outer_b, &outer_a) {
            fail!("code outside the contract: {d}\n{}", ctx());
        }
        // The contract.
        let (ah, am, _) = match a.items[ac].contract_parts() {
            Ok(p) => p,
            Err(m) => fail!("the contract can't be read: {m}\n{}", ctx()),
        };
        let mut want_comments = all_comments(&s.before);
        let bm = match bc {
            None => {
                if s.before.trim().is_empty() {
                    want_comments.push("// SPDX-License-Identifier: UNLICENSED".into());
                }
                vec![]
            }
            Some(bc) => {
                let Ok((bh, bm, _)) = b.items[bc].contract_parts() else { fail!("unreadable\n{}", ctx()) };
                let mut hb = sol::without_comments(&bh);
                let at = if hb[0] == T::Word("abstract".into()) { 2 } else { 1 };
                hb[at] = T::Word(s.model.contract.clone());
                if let Some(d) = diff(&hb, &sol::without_comments(&ah)) {
                    fail!("the head of the contract: {d}\n{}", ctx());
                }
                bm
            }
        };
        let (cb, ca) = (codes(&bm), codes(&am));
        let lost = minus(&cb, &ca);
        ensure!(lost.is_empty(), "lost or altered: {}\n{}", lost.iter().map(|l| sol::show(l)).collect::<String>(), ctx());
        let added = minus(&ca, &cb);
        let missing: Vec<&Part> = s
            .model
            .parts
            .iter()
            .filter(|p| bc.is_none() || s.kinds.contains(&Kind::Missing(p.name().to_owned())))
            .filter(|p| !bm.iter().any(|i| i.fn_name().is_some_and(|(k, n)| (k == "modifier") == p.is_mod() && n == p.name())))
            .collect();
        let want: Vec<Vec<T>> = missing.iter().map(|p| sol::without_comments(&sol::lex(&source_of_part(p, false)).unwrap())).collect();
        let extra = minus(&added, &want);
        ensure!(extra.is_empty(), "added without need: {}\n{}", extra.iter().map(|l| sol::show(l)).collect::<String>(), ctx());
        for p in &missing {
            if let Part::Test(t) = p {
                want_comments.extend(t.comments.iter().map(|c| norm_comment(&format!("// {c}"))));
            }
        }
        // Comments, wherever they are.
        let got = all_comments(&s.after);
        let lost = minus(&want_comments, &got);
        ensure!(lost.is_empty(), "lost or altered comments: {lost:?}\n{}", ctx());
        let mut extra = minus(&got, &want_comments);
        let mut sep: Vec<String> = SEPARATOR.iter().map(|s| norm_comment(s)).collect();
        sep.sort();
        extra.sort();
        let reorder = !c.sol.misplaced(&c.sol.write()).is_empty() || s.kinds.iter().any(|k| matches!(k, Kind::Order(_)));
        ensure!(
            extra.is_empty() || (extra == sep && reorder),
            "comments that weren't there: {extra:?}\n{}",
            ctx()
        );
        Ok(())
    })?;
    let noise = c.sol.members.iter().any(|m| m.part.is_none());
    let mut l = l;
    if noise {
        l.push("members of the user");
    }
    Ok(Report { nontrivial: issues > 0 && (noise || !c.sol.members.is_empty()), labels: l })
}

pub fn c19() -> Prop<FixCase> {
    Prop {
        id: "C19",
        rule: "there is something to fix in at least one step and the contract isn't empty",
        gen: gen_fix,
        run: run_c19,
        fixed: giants,
        quick: 6000,
        thorough: 140_000,
    }
}
