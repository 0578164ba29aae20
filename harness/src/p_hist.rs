//! C20: histories of commands over a directory. C21: several files at once.
//! C22: repeated runs.

use std::{
    collections::BTreeMap,
    fs,
    os::unix::fs::{chown, symlink, PermissionsExt},
    path::Path,
};

use serde::{Deserialize, Serialize};

use crate::{
    cli::{clip, fixed_count, parse_check, Env, How, Run, Viol},
    common::*,
    engine::{Fail, Outcome, Prop, Report, G},
    p_check::{break_sol, totals},
    p_err::{breakage, clash_kids, gen_err},
    p_misc::Bytes,
    solgen::*,
    spec::*,
};

// ------------------------------------------------------------------ contents

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Pair {
    /// None: there is no such file.
    pub tree: Option<Bytes>,
    pub sol: Option<Bytes>,
    /// The Solidity file is what scaffold writes for the tree.
    pub scaffolded: bool,
}

fn sol_for(g: &mut G, m: &Model) -> String {
    let drop = *g.pick(&[0, 30, 60]);
    let shuffle = *g.pick(&[0, 2]);
    let rename = g.chance(1, 3);
    gen_sol(g, m, SolCfg { drop, shuffle, noise: 2, rename, style: true, outside: true, ..Default::default() })
        .write()
        .text
}

fn gen_pair(g: &mut G) -> Option<Pair> {
    let spec = gen_spec(g, GenCfg { max_depth: 2, max_kids: 3, odd: 10, max_trees: 2, ..Default::default() })?;
    let layout = gen_layout(g);
    let r = render(&spec, &layout);
    let m = model(&spec, &r);
    let tree = match g.weighted(&[12, 4, 1, 1, 2]) {
        0 => Some(Bytes::Text(r.text.clone())),
        1 => Some(Bytes::Text(breakage(&gen_err(g)?)?.text)),
        2 => None,
        3 => Some(Bytes::Raw(vec![b'F', b'o', 0xff, b'\n'])),
        _ => {
            let mut budget = 8;
            let s = Spec { trees: vec![Tree { contract: "Foo".into(), func: None, kids: clash_kids(g, 2, &mut budget) }] };
            Some(Bytes::Text(render(&s, &layout).text))
        }
    };
    let mut scaffolded = false;
    let sol = match g.weighted(&[8, 3, 4, 2, 1, 1]) {
        0 => Some(Bytes::Text(sol_for(g, &m))),
        1 => {
            scaffolded = true;
            None
        }
        2 => None,
        3 => {
            let s = sol_for(g, &m);
            Some(Bytes::Text(break_sol(g.below(8), &s)))
        }
        4 => Some(Bytes::Raw(vec![b'/', b'/', 0xfe, b'\n'])),
        _ => Some(Bytes::Text(g.pick(&["", "// nothing", "pragma solidity 0.8.0;\n"]).to_string())),
    };
    Some(Pair { tree, sol, scaffolded })
}

/// A directory and everything in it.
#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Entry {
    File(Vec<u8>, u32),
    Dir(u32),
    Link(String),
}

pub(crate) type Snap = BTreeMap<String, Entry>;

pub(crate) fn snapshot(dir: &Path) -> Snap {
    fn walk(dir: &Path, rel: &str, v: &mut Snap) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let name = format!("{rel}{}", e.file_name().to_string_lossy());
            let p = e.path();
            let md = fs::symlink_metadata(&p).unwrap();
            if md.is_symlink() {
                v.insert(name, Entry::Link(fs::read_link(&p).unwrap().to_string_lossy().into_owned()));
            } else if md.is_dir() {
                v.insert(name.clone(), Entry::Dir(md.permissions().mode() & 0o777));
                walk(&p, &format!("{name}/"), v);
            } else {
                v.insert(name, Entry::File(fs::read(&p).unwrap_or_default(), md.permissions().mode() & 0o777));
            }
        }
    }
    let mut v = Snap::new();
    walk(dir, "", &mut v);
    v
}

pub(crate) fn show(e: Option<&Entry>) -> String {
    match e {
        None => "nothing".into(),
        Some(Entry::File(b, m)) => format!("a file (mode {m:o}):\n{}", clip(&String::from_utf8_lossy(b))),
        Some(Entry::Dir(m)) => format!("a directory (mode {m:o})"),
        Some(Entry::Link(t)) => format!("a link to {t}"),
    }
}

// ------------------------------------------------------------------------ C20

const TREES: &[(&str, &str)] = &[
    ("a.tree", "a.t.sol"),
    ("b.tree", "b.t.sol"),
    ("sub/c.tree", "sub/c.t.sol"),
    ("a.spec", "a.t.sol"),
    ("noext", "noext.t.sol"),
    ("x.y.tree", "x.y.t.sol"),
    ("sub/a.tree", "sub/a.t.sol"),
    ("with space.tree", "with space.t.sol"),
    ("sub/ü.tree", "sub/ü.t.sol"),
    ("a,b.tree", "a,b.t.sol"),
    ("sub/@*.tree", "sub/@*.t.sol"),
];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kind20 {
    Scaffold { write: bool, force: bool, long: bool, opts: Opts },
    Check { skip: bool },
    Fix { stdout: bool, skip: bool },
    /// A command line that isn't valid.
    Bad(usize),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// Writes an item of the pool as a tree.
    PutTree(usize, usize),
    /// Writes the Solidity file of an item of the pool.
    PutSol(usize, usize),
    RemoveTree(usize),
    RemoveSol(usize),
    /// A directory in place of the Solidity file.
    Dir(usize),
    /// A dangling link in place of the Solidity file.
    Dangling(usize),
    ReadOnlySol(usize),
    UnreadableTree(usize),
    ReadOnlyDir(bool),
    Cmd { kind: Kind20, files: Vec<usize>, cwd: usize, absolute: bool, full: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C20 {
    pub pool: Vec<Pair>,
    pub ops: Vec<Op>,
    pub user: bool,
}

fn gen_c20(g: &mut G) -> Option<C20> {
    let pool: Option<Vec<Pair>> = (0..g.range(2, 4)).map(|_| gen_pair(g)).collect();
    let pool = pool?;
    let n = pool.len();
    let mut ops = vec![];
    let mut there: Vec<usize> = vec![];
    for _ in 0..g.range(1, 4) {
        let t = g.below(TREES.len());
        there.push(t);
        ops.push(Op::PutTree(t, g.below(n)));
        if g.chance(1, 2) {
            ops.push(Op::PutSol(t, g.below(n)));
        }
    }
    let some = |g: &mut G| if g.chance(4, 5) { *g.pick(&there) } else { g.below(TREES.len()) };
    for _ in 0..g.range(2, 9) {
        let t = some(g);
        ops.push(match g.weighted(&[14, 4, 5, 1, 2, 1, 1, 2, 1, 1]) {
            0 => {
                let files = (0..g.range(1, 4)).map(|_| some(g)).collect();
                let kind = match g.weighted(&[8, 3, 6, 1]) {
                    0 => {
                        let write = g.chance(3, 4);
                        Kind20::Scaffold { write, force: write && g.chance(1, 2), long: g.chance(1, 3), opts: crate::p_check::gen_opts(g) }
                    }
                    1 => Kind20::Check { skip: g.chance(1, 3) },
                    2 => Kind20::Fix { stdout: g.chance(1, 3), skip: g.chance(1, 3) },
                    _ => Kind20::Bad(g.below(12)),
                };
                Op::Cmd { kind, files, cwd: g.below(3), absolute: g.chance(1, 5), full: g.chance(1, 6) }
            }
            1 => Op::PutTree(t, g.below(n)),
            2 => Op::PutSol(t, g.below(n)),
            3 => Op::RemoveTree(t),
            4 => Op::RemoveSol(t),
            5 => Op::Dir(t),
            6 => Op::Dangling(t),
            7 => Op::ReadOnlySol(t),
            8 => Op::UnreadableTree(t),
            _ => Op::ReadOnlyDir(g.chance(1, 2)),
        });
    }
    let kind = Kind20::Scaffold { write: true, force: g.chance(1, 2), long: false, opts: Opts::default() };
    let files = (0..g.range(1, 3)).map(|_| some(g)).collect();
    ops.push(Op::Cmd { kind, files, cwd: 0, absolute: false, full: false });
    Some(C20 { pool, ops, user: g.chance(1, 2) })
}

/// (whether processes can be run as another user, whether we ignore permissions)
fn powers(env: &Env) -> (bool, bool) {
    static P: std::sync::OnceLock<(bool, bool)> = std::sync::OnceLock::new();
    *P.get_or_init(|| {
        use std::os::unix::process::CommandExt;
        let p = env.dir.join("probe");
        let other = env.root
            && fs::write(&p, "x").is_ok()
            && chown(&p, Some(USER), Some(USER)).is_ok()
            && std::process::Command::new("/bin/true").uid(USER).gid(USER).status().is_ok_and(|s| s.success());
        rm(&p);
        let free = fs::write(&p, "x").is_ok() && {
            mode(&p, 0);
            fs::read(&p).is_ok() && fs::write(&p, "y").is_ok()
        };
        rm(&p);
        (other, free)
    })
}

const USER: u32 = 65534;
const SUBS: [&str; 3] = ["", "sub", "empty"];

fn rm(p: &Path) {
    if let Ok(m) = fs::symlink_metadata(p) {
        let _ = if m.is_dir() { fs::remove_dir_all(p) } else { fs::remove_file(p) };
    }
}

fn mode(p: &Path, m: u32) {
    if let Ok(md) = fs::symlink_metadata(p) {
        if !md.is_symlink() {
            let _ = fs::set_permissions(p, fs::Permissions::from_mode(m));
        }
    }
}

fn give(dir: &Path, uid: u32) {
    let _ = chown(dir, Some(uid), Some(uid));
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            match e.file_type() {
                Ok(t) if t.is_symlink() => {
                    let _ = std::os::unix::fs::lchown(&p, Some(uid), Some(uid));
                }
                Ok(t) if t.is_dir() => give(&p, uid),
                _ => {
                    let _ = chown(&p, Some(uid), Some(uid));
                }
            }
        }
    }
}

/// The blocks that `check --fix --stdout` prints, with the rest of the output.
fn blocks(out: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut rest = out;
    while let Some(i) = rest.find("--> ") {
        if i != 0 && !rest[..i].ends_with('\n') {
            break;
        }
        let r = &rest[i + 4..];
        let Some((name, r)) = r.split_once('\n') else { break };
        let Some(j) = r.find("\n<--\n") else { break };
        v.push((name.to_owned(), r[..j].to_owned()));
        rest = &r[j + 5..];
    }
    v
}

pub(crate) fn crash_free(r: Run, args: &[&str]) -> Res<Run> {
    match r.crashed() {
        Some(m) => Err(Fail::Violation(format!("`bulloak {}` {m}", args.join(" ")))),
        None => Ok(r),
    }
}

fn run_c20(c: &C20, env: &mut Env) -> Outcome {
    let dir = env.dir.clone();
    if env.root {
        give(&dir, 0);
    }
    fn open_up(d: &Path) {
        mode(d, 0o755);
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd.flatten() {
                if e.file_type().is_ok_and(|t| t.is_dir()) {
                    open_up(&e.path());
                }
            }
        }
    }
    open_up(&dir);
    env.clean();
    for s in &SUBS[1..] {
        fs::create_dir(dir.join(s)).unwrap();
    }
    let res = history(c, env, &dir);
    open_up(&dir);
    env.clean();
    if env.root {
        let _ = chown(&dir, Some(0), Some(0));
    }
    res
}

fn history(c: &C20, env: &mut Env, dir: &Path) -> Outcome {
    let mut labels: Vec<&'static str> = vec![];
    let mut writes = 0;
    let mut log: Vec<String> = vec![];
    let uid = (c.user && powers(env).0).then_some(USER);
    for op in &c.ops {
        match op {
            Op::PutTree(t, p) | Op::PutSol(t, p) => {
                let is_tree = matches!(op, Op::PutTree(..));
                let name = if is_tree { TREES[*t].0 } else { TREES[*t].1 };
                let pair = &c.pool[*p % c.pool.len()];
                let b = if is_tree { &pair.tree } else { &pair.sol };
                if let Some(b) = b {
                    rm(&dir.join(name));
                    fs::write(dir.join(name), b.bytes()).unwrap();
                    log.push(format!("write {name}"));
                }
            }
            Op::RemoveTree(t) => rm(&dir.join(TREES[*t].0)),
            Op::RemoveSol(t) => rm(&dir.join(TREES[*t].1)),
            Op::Dir(t) => {
                rm(&dir.join(TREES[*t].1));
                fs::create_dir(dir.join(TREES[*t].1)).unwrap();
                log.push(format!("mkdir {}", TREES[*t].1));
            }
            Op::Dangling(t) => {
                rm(&dir.join(TREES[*t].1));
                symlink("nowhere/x", dir.join(TREES[*t].1)).unwrap();
                log.push(format!("ln -s nowhere/x {}", TREES[*t].1));
            }
            Op::ReadOnlySol(t) => mode(&dir.join(TREES[*t].1), 0o444),
            Op::UnreadableTree(t) => mode(&dir.join(TREES[*t].0), 0),
            Op::ReadOnlyDir(on) => mode(&dir.join("sub"), if *on { 0o555 } else { 0o755 }),
            Op::Cmd { kind, files, cwd, absolute, full } => {
                if let Some(u) = uid {
                    give(dir, u);
                }
                let sub = SUBS[*cwd % 3];
                let how = How { uid, cwd: Some(dir.join(sub)), ..Default::default() };
                let spell = |f: &str| -> String {
                    if *absolute {
                        dir.join(f).to_string_lossy().into_owned()
                    } else if sub.is_empty() {
                        f.to_owned()
                    } else if let Some(r) = f.strip_prefix(&format!("{sub}/")) {
                        r.to_owned()
                    } else {
                        format!("../{f}")
                    }
                };
                step(c, env, dir, kind, files, *full, &how, &spell, &mut labels, &mut writes, &mut log)?;
            }
        }
    }
    labels.sort();
    labels.dedup();
    Ok(Report { nontrivial: writes > 0, labels })
}

#[allow(clippy::too_many_arguments)]
fn step(
    c: &C20,
    env: &mut Env,
    dir: &Path,
    kind: &Kind20,
    files: &[usize],
    full: bool,
    how: &How,
    spell: &dyn Fn(&str) -> String,
    labels: &mut Vec<&'static str>,
    writes: &mut usize,
    log: &mut Vec<String>,
) -> Res<()> {
    let before = snapshot(dir);
    let paths: Vec<String> = files.iter().map(|&f| spell(TREES[f].0)).collect();
    let mut args: Vec<String> = vec![];
    match kind {
        Kind20::Scaffold { write, force, long, opts } => {
            args.push("scaffold".into());
            if *write {
                args.push(if *long { "--write-files" } else { "-w" }.into());
            }
            if *force {
                args.push(if *long { "--force-write" } else { "-f" }.into());
            }
            args.extend(opts.args());
        }
        Kind20::Check { skip } => {
            args.push("check".into());
            if *skip {
                args.push("--skip-modifiers".into());
            }
        }
        Kind20::Fix { stdout, skip } => {
            args.extend(["check".into(), "--fix".into()]);
            if *stdout {
                args.push("--stdout".into());
            }
            if *skip {
                args.push("-m".into());
            }
        }
        Kind20::Bad(n) => {
            let b: &[&str] = [
                &["scaffold", "-f"][..],
                &["check", "--stdout"],
                &["scaffold", "--force-write"],
                &["scaffold", "-w", "--bogus"],
                &["check", "--fix", "--bogus"],
                &["check", "-w"],
                &["scaffold", "--fix"],
                &["check", "--fix", "-f"],
                &["frobnicate", "-w"],
                &["-w"],
                &["scaffold", "-w", "-w", "--stdout"],
                &["check", "--fix", "--solidity-version", "0.8.0"],
            ][*n % 12];
            args.extend(b.iter().map(|s| s.to_string()));
        }
    }
    args.extend(paths.iter().cloned());
    let av: Vec<&str> = args.iter().map(String::as_str).collect();
    log.push(format!("bulloak {}{}", args.join(" "), if full { "   (disk full)" } else { "" }));
    let story = log.join("\n");
    let ctx = |r: &Run| format!("--- history (user: {}):\n{story}\n--- output:\n{}{}", c.user, clip(&r.out), clip(&r.err));

    // What each file alone yields on standard output.
    let mut alone: Vec<Run> = vec![];
    if let Kind20::Scaffold { opts, .. } = kind {
        for p in &paths {
            let o = opts.args();
            let mut a = vec!["scaffold", p];
            a.extend(o.iter().map(String::as_str));
            alone.push(crash_free(env.run_how(&a, how)?, &a)?);
        }
    }
    if let Kind20::Fix { skip, .. } = kind {
        for p in &paths {
            let mut a = vec!["check", "--fix", "--stdout", p];
            if *skip {
                a.push("-m");
            }
            alone.push(crash_free(env.run_how(&a, how)?, &a)?);
        }
    }
    if let Some((k, e)) = changes(&before, &snapshot(dir)).into_iter().next() {
        fail!("{k} is changed by a command that only prints; now: {}\n--- history:\n{story}", show(e.as_ref()));
    }
    let how = How { fsize: full.then_some(16), ..how.clone() };
    let r = crash_free(env.run_how(&av, &how)?, &av)?;
    let after = snapshot(dir);

    // The model: what may be where afterwards. None: anything but a change of type.
    let mut want: BTreeMap<String, Option<Entry>> = BTreeMap::new();
    let mut unknown: Vec<String> = vec![];
    let mut failures: Vec<usize> = vec![];
    let mut rejected: Vec<usize> = vec![];
    let mut skipped: Vec<&str> = vec![];
    let is_root = how.uid.is_none() && powers(env).1;
    let put = |want: &mut BTreeMap<String, Option<Entry>>, unknown: &mut Vec<String>, target: &str, text: &str| -> bool {
        let now = want.get(target).cloned().unwrap_or_else(|| before.get(target).cloned());
        let m = match now {
            Some(Entry::Dir(_)) | Some(Entry::Link(_)) => return false,
            Some(Entry::File(_, m)) => {
                if !is_root && m & 0o200 == 0 {
                    return false;
                }
                m
            }
            None => {
                let d = target.rsplit_once('/').map(|x| x.0);
                if let Some(d) = d {
                    if !is_root && !matches!(before.get(d), Some(Entry::Dir(m)) if m & 0o200 != 0) {
                        return false;
                    }
                }
                0o644
            }
        };
        want.insert(target.to_owned(), Some(Entry::File(text.as_bytes().to_vec(), m)));
        if full && text.len() > 16 {
            unknown.push(target.to_owned());
            return false;
        }
        true
    };
    match kind {
        Kind20::Scaffold { write, force, .. } => {
            labels.push(match (write, force) {
                (true, true) => "scaffold -w -f",
                (true, false) => "scaffold -w",
                _ => "scaffold",
            });
            let mut printed = String::new();
            for (i, &f) in files.iter().enumerate() {
                let target = TREES[f].1;
                if alone[i].code != Some(0) {
                    rejected.push(i);
                    continue;
                }
                if !write {
                    printed.push_str(&alone[i].out);
                    continue;
                }
                let now = want.get(target).cloned().unwrap_or_else(|| before.get(target).cloned());
                let exists = !matches!(now, None | Some(Entry::Link(_)));
                if exists && !force {
                    skipped.push(target);
                    continue;
                }
                let text = alone[i].out.strip_suffix('\n').unwrap_or(&alone[i].out);
                if put(&mut want, &mut unknown, target, text) {
                    *writes += 1;
                } else {
                    failures.push(i);
                }
            }
            ensure!(r.out == printed, "something else is printed than for each file alone\n{}", ctx(&r));
            for &i in failures.iter().chain(&rejected) {
                ensure!(r.err.contains(&paths[i]), "the failure of {} isn't reported\n{}", paths[i], ctx(&r));
            }
            for s in &skipped {
                let s = s.rsplit('/').next().unwrap();
                ensure!(
                    r.err.contains("already exists") && (r.err.contains(s) || r.err.contains(s.trim_end_matches(".t.sol"))),
                    "no warning about {s}, which is left alone\n{}",
                    ctx(&r)
                );
            }
            if !skipped.is_empty() {
                labels.push("existing file skipped");
            }
            let bad = !failures.is_empty() || !rejected.is_empty();
            ensure!(r.code == Some(bad as i32), "exit status {:?}\n{}", r.code, ctx(&r));
        }
        Kind20::Check { .. } => {
            labels.push("check");
            ensure!(matches!(r.code, Some(0 | 1)), "exit status {:?}\n{}", r.code, ctx(&r));
        }
        Kind20::Fix { stdout, .. } => {
            labels.push(if *stdout { "check --fix --stdout" } else { "check --fix" });
            let mut printed = vec![];
            for (i, &f) in files.iter().enumerate() {
                let target = TREES[f].1;
                if alone[i].code != Some(0) {
                    rejected.push(i);
                }
                let b = blocks(&alone[i].out);
                if b.is_empty() {
                    continue;
                }
                if *stdout {
                    printed.extend(b);
                    continue;
                }
                // The formatter ends a file that isn't empty with a line break.
                let text = match after.get(target) {
                    Some(Entry::File(now, _)) if String::from_utf8_lossy(now).trim() == b[0].1.trim() => {
                        String::from_utf8_lossy(now).into_owned()
                    }
                    _ => format!("{}\n", b[0].1),
                };
                if put(&mut want, &mut unknown, target, &text) {
                    *writes += 1;
                } else {
                    failures.push(i);
                }
            }
            if *stdout {
                ensure!(blocks(&r.out) == printed, "something else is printed than for each file alone\n{}", ctx(&r));
            }
            // Only what is written counts as fixed.
            let fixed: usize = (0..files.len())
                .filter(|i| !failures.contains(i))
                .map(|i| fixed_count(&alone[i].out).unwrap_or(0))
                .sum();
            ensure!(
                fixed_count(&r.out) == Some(fixed),
                "{fixed} issues are fixed, but check --fix claims {:?}\n{}",
                fixed_count(&r.out),
                ctx(&r)
            );
            for &i in &failures {
                let stem = TREES[files[i]].1.rsplit('/').next().unwrap().trim_end_matches(".t.sol");
                ensure!(r.err.contains(stem), "the failure to write for {} isn't reported\n{}", paths[i], ctx(&r));
            }
            let bad = !failures.is_empty() || !rejected.is_empty();
            ensure!(r.code == Some(bad as i32), "exit status {:?}\n{}", r.code, ctx(&r));
        }
        Kind20::Bad(_) => {
            labels.push("invalid command line");
            ensure!(r.code.is_some_and(|c| c != 0), "an invalid command line is accepted\n{}", ctx(&r));
            ensure!(!r.err.trim().is_empty(), "an invalid command line isn't explained\n{}", ctx(&r));
        }
    }
    if !failures.is_empty() {
        labels.push("a write fails");
    }
    // Everything else is as before.
    let mut expected = before.clone();
    for (k, e) in &want {
        match e {
            Some(e) => expected.insert(k.clone(), e.clone()),
            None => expected.remove(k),
        };
    }
    for (k, now) in changes(&expected, &after) {
        if unknown.contains(&k) {
            continue;
        }
        let was = before.get(&k);
        fail!(
            "{k}: expected {}\nbut now it is {}\n(before: {})\n{}",
            show(expected.get(&k)),
            show(now.as_ref()),
            show(was),
            ctx(&r)
        );
    }
    Ok(())
}

pub(crate) fn changes(a: &Snap, b: &Snap) -> Vec<(String, Option<Entry>)> {
    let mut v = vec![];
    for (k, e) in a {
        if b.get(k) != Some(e) {
            v.push((k.clone(), b.get(k).cloned()));
        }
    }
    for (k, e) in b {
        if !a.contains_key(k) {
            v.push((k.clone(), Some(e.clone())));
        }
    }
    v
}

pub fn c20() -> Prop<C20> {
    Prop {
        id: "C20",
        rule: "at least one command of the history writes a file",
        gen: gen_c20,
        run: run_c20,
        fixed: Vec::new,
        quick: 2500,
        thorough: 60_000,
    }
}

// ------------------------------------------------------------------------ C21

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Cmd {
    Scaffold,
    ScaffoldWrite,
    ScaffoldForce,
    Check,
    Fix,
    FixStdout,
}

const CMDS: &[Cmd] = &[Cmd::Scaffold, Cmd::Check, Cmd::FixStdout, Cmd::Fix, Cmd::ScaffoldWrite, Cmd::ScaffoldForce];

impl Cmd {
    fn args(self, o: &Opts, skip: bool) -> Vec<String> {
        let mut v: Vec<String> = match self {
            Cmd::Scaffold => vec!["scaffold"],
            Cmd::ScaffoldWrite => vec!["scaffold", "-w"],
            Cmd::ScaffoldForce => vec!["scaffold", "-wf"],
            Cmd::Check => vec!["check"],
            Cmd::Fix => vec!["check", "--fix"],
            Cmd::FixStdout => vec!["check", "--fix", "--stdout"],
        }
        .into_iter()
        .map(str::to_owned)
        .collect();
        if self.scaffolds() {
            v.extend(o.args());
        } else if skip {
            v.push("-m".into());
        }
        v
    }
    pub(crate) fn scaffolds(self) -> bool {
        matches!(self, Cmd::Scaffold | Cmd::ScaffoldWrite | Cmd::ScaffoldForce)
    }
    pub(crate) fn label(self) -> &'static str {
        match self {
            Cmd::Scaffold => "scaffold",
            Cmd::ScaffoldWrite => "scaffold -w",
            Cmd::ScaffoldForce => "scaffold -w -f",
            Cmd::Check => "check",
            Cmd::Fix => "check --fix",
            Cmd::FixStdout => "check --fix --stdout",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C21 {
    pub pairs: Vec<Pair>,
    /// Files on the command line, modulo the number of pairs.
    pub order: Vec<usize>,
    pub cmd: Cmd,
    pub opts: Opts,
    pub skip: bool,
    /// Where each pair is and how it's named, see `place`.
    #[serde(default)]
    pub places: Vec<usize>,
}

/// How the tree of a pair is named on the command line, and where it is in the
/// directory, both without the extension.
pub(crate) fn place(kind: usize, i: usize, dir: &Path) -> (String, String) {
    let own = dir.file_name().unwrap().to_string_lossy();
    let (arg, disk) = match kind {
        1 => (format!("./t{i}"), format!("t{i}")),
        2 => (format!("sub/t{i}"), format!("sub/t{i}")),
        3 => (format!("sub/../t{i}"), format!("t{i}")),
        4 => (format!("d{i}/t"), format!("d{i}/t")),
        5 => (format!("{}/t{i}", dir.to_string_lossy()), format!("t{i}")),
        6 => (format!("../{own}/d{i}/t"), format!("d{i}/t")),
        7 => (format!(".t{i}"), format!(".t{i}")),
        8 => (format!("d{i}.t.sol/t"), format!("d{i}.t.sol/t")),
        9 => (format!("d.tree/../d{i}/t"), format!("d{i}/t")),
        10 => (format!("d{i}/t.1"), format!("d{i}/t.1")),
        _ => (format!("t{i}"), format!("t{i}")),
    };
    (arg, disk)
}

pub(crate) fn gen_files(g: &mut G, lo: usize, hi: usize) -> Option<C21> {
    let pairs: Option<Vec<Pair>> = (0..g.range(lo, hi)).map(|_| gen_pair(g)).collect();
    let pairs = pairs?;
    let mut order = g.permutation(pairs.len());
    if g.chance(1, 6) {
        order.push(g.below(pairs.len()));
    }
    let cmd = *g.pick(CMDS);
    if order.len() > pairs.len() && matches!(cmd, Cmd::ScaffoldWrite | Cmd::ScaffoldForce) {
        order.pop();
    }
    let places = match g.below(3) {
        0 => pairs.iter().map(|_| g.below(11)).collect(),
        1 => {
            let k = g.below(11);
            vec![k; pairs.len()]
        }
        _ => vec![],
    };
    Some(C21 { pairs, order, cmd, opts: crate::p_check::gen_opts(g), skip: g.chance(1, 4), places })
}

/// As many failing files as a byte doesn't count: the exit status, for one.
fn many_files() -> Vec<C21> {
    let pairs = vec![Pair {
        tree: Some(Bytes::Text("Foo\n└── when nothing\n".into())),
        sol: Some(Bytes::Text("contract Foo {}\n".into())),
        scaffolded: false,
    }];
    [Cmd::Scaffold, Cmd::Check]
        .into_iter()
        .map(|cmd| C21 { pairs: pairs.clone(), order: vec![0; 256], cmd, opts: Opts::default(), skip: false, places: vec![] })
        .collect()
}

pub(crate) fn set_up(pairs: &[Pair], places: &[usize], env: &mut Env, made: &mut Vec<Option<Vec<u8>>>) -> Res<()> {
    env.clean();
    for d in ["sub", "d.tree"] {
        fs::create_dir_all(env.dir.join(d)).map_err(|e| Fail::Broken(e.to_string()))?;
    }
    for (i, p) in pairs.iter().enumerate() {
        let (arg, disk) = place(places.get(i).copied().unwrap_or(0), i, &env.dir);
        if let Some(d) = env.dir.join(&disk).parent() {
            fs::create_dir_all(d).map_err(|e| Fail::Broken(e.to_string()))?;
        }
        if let Some(t) = &p.tree {
            env.write(&format!("{disk}.tree"), t.bytes());
        }
        if made.len() <= i {
            made.push(if p.scaffolded {
                let n = format!("{arg}.tree");
                let r = run(env, &["scaffold", &n])?;
                (r.code == Some(0)).then_some(r.raw_out)
            } else {
                p.sol.as_ref().map(|s| s.bytes().to_vec())
            });
        }
        if let Some(s) = &made[i] {
            env.write(&format!("{disk}.t.sol"), s);
        }
    }
    Ok(())
}

fn is_summary(l: &str) -> bool {
    l.starts_with("warn: Could not scaffold ") || l.trim().is_empty()
}

fn err_lines(r: &Run) -> Vec<String> {
    let mut v: Vec<String> = r.err.lines().filter(|l| !is_summary(l)).map(str::to_owned).collect();
    v.sort();
    v
}

fn sorted_viols(r: &Run) -> Res<Vec<String>> {
    match parse_check(r) {
        Ok(rep) => {
            let mut v: Vec<String> = rep.viols.iter().map(|v: &Viol| format!("{v:?}")).collect();
            v.sort();
            Ok(v)
        }
        Err(m) => fail!("check's report cannot be read: {m}\n{}", clip(&r.err)),
    }
}

fn run_c21(c: &C21, env: &mut Env) -> Outcome {
    let n = c.pairs.len();
    let name = |i: usize, dir: &Path| format!("{}.tree", place(c.places.get(i % n).copied().unwrap_or(0), i % n, dir).0);
    let mut made = vec![];
    set_up(&c.pairs, &c.places, env, &mut made)?;
    let before = snapshot(&env.dir);
    let base = c.cmd.args(&c.opts, c.skip);
    let writes = matches!(c.cmd, Cmd::ScaffoldWrite | Cmd::ScaffoldForce | Cmd::Fix);
    let mut singles: Vec<(Run, Snap)> = vec![];
    for &i in &c.order {
        if writes {
            set_up(&c.pairs, &c.places, env, &mut made)?;
        }
        let f = name(i, &env.dir);
        let mut a: Vec<&str> = base.iter().map(String::as_str).collect();
        a.push(&f);
        let r = run(env, &a)?;
        singles.push((r, snapshot(&env.dir)));
    }
    if writes {
        set_up(&c.pairs, &c.places, env, &mut made)?;
    }
    let names: Vec<String> = c.order.iter().map(|&i| name(i, &env.dir)).collect();
    let mut a: Vec<&str> = base.iter().map(String::as_str).collect();
    a.extend(names.iter().map(String::as_str));
    let joint = run(env, &a)?;
    let after = snapshot(&env.dir);
    let ctx = || {
        let mut s = format!("--- bulloak {}\n{}{}", a.join(" "), clip(&joint.out), clip(&joint.err));
        for (n, (r, _)) in names.iter().zip(&singles) {
            s.push_str(&format!("--- {n} alone (exit {:?}):\n{}{}", r.code, clip(&r.out), clip(&r.err)));
        }
        s
    };
    let bad = singles.iter().filter(|s| s.0.code != Some(0)).count();
    ensure!(
        joint.code == Some((bad > 0) as i32),
        "exit status {:?}, though {bad} of the files fail alone\n{}",
        joint.code,
        ctx()
    );
    if c.cmd.scaffolds() {
        let want: String = singles.iter().map(|s| s.0.out.as_str()).collect();
        ensure!(joint.out == want, "standard output isn't that of the files alone\n{}", ctx());
        let mut want: Vec<String> = singles.iter().flat_map(|s| err_lines(&s.0)).collect();
        want.sort();
        if let Some(d) = diff(&want, &err_lines(&joint)) {
            fail!("lines of standard error: {d}\n{}", ctx());
        }
        let total = joint.err.lines().find_map(|l| {
            l.strip_prefix("warn: Could not scaffold ")?.split(' ').next()?.parse::<usize>().ok()
        });
        ensure!(total == (bad > 0).then_some(bad), "the total of failed files is {total:?}, not {bad}\n{}", ctx());
        for (n, s) in names.iter().zip(&singles) {
            ensure!(
                s.0.code == Some(0) || joint.err.lines().any(|l| l == format!("file: {n}")),
                "{n} isn't named\n{}",
                ctx()
            );
        }
    } else {
        let mut want = vec![];
        for s in &singles {
            want.extend(sorted_viols(&s.0)?);
        }
        want.sort();
        if let Some(d) = diff(&want, &sorted_viols(&joint)?) {
            fail!("reports: {d}\n{}", ctx());
        }
        if c.cmd == Cmd::Check {
            let rep = parse_check(&joint).map_err(Fail::Violation)?;
            totals(&joint, &rep)?;
        } else {
            let want: usize = singles.iter().filter_map(|s| fixed_count(&s.0.out)).sum();
            ensure!(
                fixed_count(&joint.out) == Some(want),
                "{:?} issues fixed, but {want} when each file is given alone\n{}",
                fixed_count(&joint.out),
                ctx()
            );
            let want: Vec<_> = singles.iter().flat_map(|s| blocks(&s.0.out)).collect();
            if let Some(d) = diff(&want, &blocks(&joint.out)) {
                fail!("printed files: {d}\n{}", ctx());
            }
        }
    }
    // Files.
    let mut want = before.clone();
    for (_, s) in &singles {
        for (k, e) in changes(&before, s) {
            match e {
                Some(e) => want.insert(k, e),
                None => want.remove(&k),
            };
        }
    }
    if !writes {
        want = before;
    }
    for (k, now) in changes(&want, &after) {
        fail!("{k}: expected {}\nbut it is {}\n{}", show(want.get(&k)), show(now.as_ref()), ctx());
    }
    let mut l = vec![c.cmd.label()];
    if bad > 0 && bad < c.order.len() {
        l.push("some files fail");
    }
    if bad == 0 {
        l.push("no file fails");
    }
    if c.order.len() > n {
        l.push("a file twice");
    }
    if c.places.iter().any(|&k| k != 0) {
        l.push("files in several directories");
    }
    Ok(Report { nontrivial: c.order.len() >= 2 && bad < c.order.len(), labels: l })
}

pub fn c21() -> Prop<C21> {
    Prop {
        id: "C21",
        rule: "at least two files, one of which succeeds alone",
        gen: |g| gen_files(g, 2, 6),
        run: run_c21,
        fixed: many_files,
        quick: 3000,
        thorough: 80_000,
    }
}

// ------------------------------------------------------------------------ C22

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C22 {
    pub files: C21,
    pub spelling: usize,
    pub envs: Vec<(String, String)>,
    /// Whether the last run has other files around.
    #[serde(default)]
    pub around: bool,
}

fn gen_c22(g: &mut G) -> Option<C22> {
    let mut files = gen_files(g, 1, 2)?;
    // Many errors, or many shared names.
    if g.chance(2, 3) {
        let mut kids = vec![];
        let mut budget = 30;
        for _ in 0..3 {
            kids.extend(clash_kids(g, 3, &mut budget));
        }
        let mut trees = vec![];
        if g.chance(1, 2) {
            trees.push(Tree { contract: "Foo".into(), func: None, kids });
        } else {
            for i in 0..g.range(2, 4) {
                let s = SpecGen::new(g, GenCfg { max_trees: 1, max_depth: 3, max_kids: 4, odd: 0, ..Default::default() }).spec();
                trees.push(Tree { contract: "Foo".into(), func: Some(format!("f{i}")), kids: s.trees[0].kids.clone() });
            }
        }
        let layout = gen_layout(g);
        let text = render(&Spec { trees }, &layout).text;
        files.pairs[0].tree = Some(Bytes::Text(text));
    }
    const ENVS: &[(&str, &str)] = &[
        ("HOME", "/nonexistent"),
        ("LANG", "C"),
        ("LC_ALL", "de_DE.UTF-8"),
        ("TERM", "dumb"),
        ("COLUMNS", "20"),
        ("RUST_LOG", "trace"),
        ("RUST_BACKTRACE", "1"),
        ("TZ", "Asia/Tokyo"),
        ("USER", "someone"),
        ("BULLOAK_SKIP_MODIFIERS", "true"),
        ("SOLIDITY_VERSION", "0.4.0"),
        ("FOUNDRY_PROFILE", "ci"),
        ("PWD", "/"),
        ("RUST_LIB_BACKTRACE", "1"),
        ("RUST_BACKTRACE", "full"),
        ("CI", "true"),
        ("GITHUB_ACTIONS", "true"),
        ("DEBUG", "1"),
        ("VERBOSE", "1"),
        ("LINES", "5"),
        ("TMPDIR", "/nonexistent"),
        ("XDG_CONFIG_HOME", "/nonexistent"),
        ("SOURCE_DATE_EPOCH", "0"),
        ("BULLOAK_WRITE_FILES", "true"),
        ("BULLOAK_FORCE_WRITE", "1"),
        ("BULLOAK_FORMAT_DESCRIPTIONS", "true"),
        ("BULLOAK_SOLIDITY_VERSION", "0.4.0"),
        ("BULLOAK_WITH_VM_SKIP", "true"),
        ("BULLOAK_FIX", "true"),
        ("BULLOAK_STDOUT", "true"),
        ("FOUNDRY_FMT_LINE_LENGTH", "40"),
        ("FOUNDRY_FMT_TAB_WIDTH", "2"),
        ("RAYON_NUM_THREADS", "1"),
        ("LANG", "de_DE.UTF-8"),
        ("LANG", "tr_TR.UTF-8"),
        ("LC_ALL", "ja_JP.UTF-8"),
        ("LC_ALL", "POSIX"),
        ("LC_CTYPE", "C"),
        ("LANGUAGE", "fr"),
        ("TERM", "dumb"),
        ("TERM", "xterm-256color"),
        ("EDITOR", "vi"),
        ("HOSTNAME", "ci"),
        ("OLDPWD", "/tmp"),
        ("INSTA_UPDATE", "always"),
        ("UPDATE_EXPECT", "1"),
        ("BULLOAK_CONFIG", "bulloak.toml"),
        ("BULLOAK_FILES", "[]"),
        ("FILES", "[]"),
        ("COMMAND", "check"),
    ];
    let mut envs: Vec<(String, String)> = vec![];
    for _ in 0..g.range(4, 24) {
        let (a, b) = *g.pick(ENVS);
        envs.retain(|e| e.0 != a);
        envs.push((a.to_string(), b.to_string()));
    }
    let around = g.chance(1, 2);
    Some(C22 { files, spelling: g.below(5), envs, around })
}

/// What a project keeps beside its tests, and bulloak doesn't read.
const AROUND: &[(&str, &str)] = &[
    ("foundry.toml", "[profile.default]\nsolc = \"0.4.11\"\n[fmt]\nline_length = 40\ntab_width = 2\nquote_style = \"single\"\nint_types = \"short\"\nbracket_spacing = true\n"),
    ("bulloak.toml", "solidity_version = \"0.4.0\"\nskip_modifiers = true\nwith_vm_skip = true\nformat_descriptions = true\n"),
    (".bulloakrc", "skip_modifiers = true\n"),
    (".editorconfig", "root = true\n[*]\nindent_size = 2\nend_of_line = crlf\n"),
    (".env", "BULLOAK_SKIP_MODIFIERS=true\n"),
    ("remappings.txt", "forge-std/=lib/\n"),
];

fn run_c22(c: &C22, env: &mut Env) -> Outcome {
    let f = &c.files;
    let n = f.pairs.len();
    let mut made = vec![];
    let base = f.cmd.args(&f.opts, f.skip);
    let names: Vec<String> = f.order.iter().map(|i| format!("t{}.tree", i % n)).collect();
    let mut first: Option<(Run, Snap)> = None;
    let mut a: Vec<&str> = base.iter().map(String::as_str).collect();
    a.extend(names.iter().map(String::as_str));
    for k in 0..4 {
        set_up(&f.pairs, &[], env, &mut made)?;
        let how = How { envs: if k == 3 { c.envs.clone() } else { vec![] }, ..Default::default() };
        let around: &[(&str, &str)] = if k == 3 && c.around { AROUND } else { &[] };
        for (name, text) in around {
            env.write(name, text.as_bytes());
        }
        let r = crash_free(env.run_how(&a, &how)?, &a)?;
        for (name, text) in around {
            let p = env.dir.join(name);
            ensure!(std::fs::read(&p).ok().as_deref() == Some(text.as_bytes()), "{name} was changed by `bulloak {}`", a.join(" "));
            std::fs::remove_file(&p).map_err(|e| Fail::Broken(e.to_string()))?;
        }
        let s = snapshot(&env.dir);
        match &first {
            None => first = Some((r, s)),
            Some((r0, s0)) => {
                let names: Vec<_> = around.iter().map(|a| a.0).collect();
                let why = if k == 3 { format!("with {:?} in the environment and {names:?} in the directory", c.envs) } else { "when run again".into() };
                ensure!(r.code == r0.code, "exit status {:?}, then {:?} {why}\n--- bulloak {}", r0.code, r.code, a.join(" "));
                ensure!(r.raw_out == r0.raw_out, "standard output differs {why}:\n{}\n---\n{}", clip(&r0.out), clip(&r.out));
                ensure!(r.raw_err == r0.raw_err, "standard error differs {why}:\n{}\n---\n{}", clip(&r0.err), clip(&r.err));
                if let Some((n, e)) = changes(s0, &s).into_iter().next() {
                    fail!("{n} differs {why}: {}\n---\n{}", show(s0.get(&n)), show(e.as_ref()));
                }
            }
        }
    }
    let (r0, s0) = first.unwrap();
    // Another way of naming the same files.
    let abs = format!("{}/", env.dir.to_string_lossy());
    let (cwd, prefix) = match c.spelling {
        0 => (env.dir.clone(), "./".to_owned()),
        1 => (env.dir.clone(), abs),
        2 => (env.dir.parent().unwrap().to_path_buf(), format!("{}/", env.dir.file_name().unwrap().to_string_lossy())),
        3 => (std::path::PathBuf::from("/"), abs),
        _ => (env.dir.clone(), format!("../{}/./", env.dir.file_name().unwrap().to_string_lossy())),
    };
    set_up(&f.pairs, &[], env, &mut made)?;
    let spelt: Vec<String> = names.iter().map(|n| format!("{prefix}{n}")).collect();
    let mut a: Vec<&str> = base.iter().map(String::as_str).collect();
    a.extend(spelt.iter().map(String::as_str));
    let r = crash_free(env.run_how(&a, &How { cwd: Some(cwd), ..Default::default() })?, &a)?;
    let s = snapshot(&env.dir);
    let norm = |t: &str| {
        let mut t = t.to_owned();
        for i in 0..n {
            for e in ["tree", "t.sol"] {
                t = t.replace(&format!("t{i}.{e}"), &format!("{prefix}t{i}.{e}"));
            }
        }
        t
    };
    ensure!(r.code == r0.code, "exit status {:?}, but {:?} for `bulloak {}`", r0.code, r.code, a.join(" "));
    ensure!(r.out == norm(&r0.out), "standard output differs for `bulloak {}`:\n{}\n---\n{}", a.join(" "), clip(&r0.out), clip(&r.out));
    ensure!(r.err == norm(&r0.err), "standard error differs for `bulloak {}`:\n{}\n---\n{}", a.join(" "), clip(&r0.err), clip(&r.err));
    if let Some((n, e)) = changes(&s0, &s).into_iter().next() {
        fail!("{n} differs for `bulloak {}`: {}\n---\n{}", a.join(" "), show(s0.get(&n)), show(e.as_ref()));
    }
    let mut l = vec![f.cmd.label()];
    let dups = r0.err.matches("found an identifier more than once").count();
    if dups > 1 {
        l.push("several groups of duplicates");
    }
    if r0.code == Some(0) {
        l.push("succeeds");
    }
    Ok(Report { nontrivial: r0.err.lines().count() + r0.out.lines().count() >= 5, labels: l })
}

pub fn c22() -> Prop<C22> {
    Prop {
        id: "C22",
        rule: "the command prints at least 5 lines",
        gen: gen_c22,
        run: run_c22,
        fixed: Vec::new,
        quick: 3500,
        thorough: 80_000,
    }
}
