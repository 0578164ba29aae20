//! C23: the command line.

use serde::{Deserialize, Serialize};

use crate::{
    cli::{clip, Env, How},
    common::*,
    engine::{Outcome, Prop, Report, G},
    p_hist::*,
};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Line {
    /// Another way of writing the plain line.
    Same { plain: Vec<String> },
    /// A line that says nothing bulloak knows.
    Wrong { why: String },
    /// Asks for help or the version; words that must be in the answer.
    Help { words: Vec<String> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C23 {
    pub files: C21,
    pub args: Vec<String>,
    pub line: Line,
}

#[derive(Clone, Debug, PartialEq)]
struct Opt {
    long: &'static str,
    short: Option<char>,
    value: Option<String>,
}

const LONG: &[(&str, Option<char>)] = &[
    ("write-files", Some('w')),
    ("force-write", Some('f')),
    ("solidity-version", Some('s')),
    ("vm-skip", Some('S')),
    ("skip-modifiers", Some('m')),
    ("fix", None),
    ("stdout", None),
];

const SCAFFOLD: &[&str] = &["write-files", "force-write", "solidity-version", "vm-skip", "skip-modifiers"];
const CHECK: &[&str] = &["fix", "stdout", "skip-modifiers"];

fn opt(long: &'static str, value: Option<String>) -> Opt {
    Opt { long, short: LONG.iter().find(|l| l.0 == long).unwrap().1, value }
}

/// The options of a generated command.
fn options(c: &C21) -> Vec<Opt> {
    let mut v = vec![];
    match c.cmd {
        Cmd::ScaffoldWrite => v.push(opt("write-files", None)),
        Cmd::ScaffoldForce => v.extend([opt("write-files", None), opt("force-write", None)]),
        Cmd::Fix => v.push(opt("fix", None)),
        Cmd::FixStdout => v.extend([opt("fix", None), opt("stdout", None)]),
        Cmd::Scaffold | Cmd::Check => (),
    }
    if c.cmd.scaffolds() {
        if c.opts.vm_skip {
            v.push(opt("vm-skip", None));
        }
        if c.opts.skip_mods {
            v.push(opt("skip-modifiers", None));
        }
        if let Some(s) = &c.opts.version {
            v.push(opt("solidity-version", Some(s.clone())));
        }
    } else if c.skip {
        v.push(opt("skip-modifiers", None));
    }
    v
}

/// One option, written out in full and in its own words.
fn plain(o: &Opt) -> Vec<String> {
    let mut v = vec![format!("--{}", o.long)];
    v.extend(o.value.clone());
    v
}

fn single(g: &mut G, o: &Opt) -> Vec<String> {
    match (&o.value, o.short) {
        (None, Some(s)) if g.chance(1, 2) => vec![format!("-{s}")],
        (None, _) => vec![format!("--{}", o.long)],
        (Some(v), s) => match g.below(if s.is_some() { 5 } else { 2 }) {
            0 => vec![format!("--{}", o.long), v.clone()],
            1 => vec![format!("--{}={v}", o.long)],
            2 => vec![format!("-{}", s.unwrap()), v.clone()],
            3 => vec![format!("-{}={v}", s.unwrap())],
            _ if v.starts_with('=') => vec![format!("-{}={v}", s.unwrap())],
            _ => vec![format!("-{}{v}", s.unwrap())],
        },
    }
}

/// Groups of words that belong together, in any order.
fn words(g: &mut G, opts: &[Opt]) -> Vec<Vec<String>> {
    let mut v = vec![];
    let order = g.permutation(opts.len());
    let mut cluster: Vec<&Opt> = vec![];
    for &i in &order {
        if opts[i].short.is_some() && g.chance(1, 2) {
            cluster.push(&opts[i]);
        } else {
            v.push(single(g, &opts[i]));
        }
    }
    if !cluster.is_empty() {
        // Only the last of a cluster can have a value.
        cluster.sort_by_key(|o| o.value.is_some());
        let mut s = "-".to_owned();
        let mut rest = vec![];
        for o in cluster {
            s.push(o.short.unwrap());
            if let Some(val) = &o.value {
                match g.below(3) {
                    0 => rest.push(val.clone()),
                    1 => s.push_str(&format!("={val}")),
                    _ if val.starts_with('=') => s.push_str(&format!("={val}")),
                    _ => s.push_str(val),
                }
            }
        }
        let mut w = vec![s];
        w.extend(rest);
        v.push(w);
    }
    v
}

/// Options among the files, whose order is kept.
fn arrange(g: &mut G, cmd: &str, opts: Vec<Vec<String>>, files: &[String]) -> Vec<String> {
    let mut v = vec![cmd.to_owned()];
    let mut before: Vec<Vec<Vec<String>>> = vec![vec![]; files.len() + 1];
    let dashes = g.chance(1, 4);
    let upto = if dashes { g.below(files.len() + 1) } else { files.len() };
    for o in opts {
        let at = g.below(upto + 1);
        before[at].push(o);
    }
    for i in 0..=files.len() {
        v.extend(std::mem::take(&mut before[i]).into_iter().flatten());
        if dashes && i == upto {
            v.push("--".into());
        }
        v.extend(files.get(i).cloned());
    }
    v
}

fn gen_c23(g: &mut G) -> Option<C23> {
    let files = gen_files(g, 1, 2)?;
    let mut files = C21 { places: vec![], ..files };
    files.order.retain(|&i| i < files.pairs.len());
    let cmd = if files.cmd.scaffolds() { "scaffold" } else { "check" };
    let names: Vec<String> = files.order.iter().map(|i| format!("t{i}.tree")).collect();
    let opts = options(&files);
    let kind = g.weighted(&[8, 8, 1]);
    if kind == 0 {
        let mut line = vec![cmd.to_owned()];
        line.extend(opts.iter().flat_map(plain));
        line.extend(names.iter().cloned());
        let w = words(g, &opts);
        let args = arrange(g, cmd, w, &names);
        return Some(C23 { files, args, line: Line::Same { plain: line } });
    }
    let mut w = words(g, &opts);
    if kind == 2 {
        let s = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
        let own: Vec<String> = if cmd == "check" { CHECK } else { SCAFFOLD }.iter().map(|o| format!("--{o}")).collect();
        let (args, words) = match g.below(7) {
            0 => (s(&["--help"]), s(&["scaffold", "check"])),
            1 => (s(&["-h"]), s(&["scaffold", "check"])),
            2 => (s(&["--version"]), s(&["bulloak"])),
            3 => (s(&["-V"]), s(&["bulloak"])),
            4 => (s(&["help"]), s(&["scaffold", "check"])),
            5 => (s(&["help", cmd]), own),
            _ => {
                w.push(vec![g.pick(&["--help", "-h"]).to_string()]);
                let mut a = vec![cmd.to_owned()];
                a.extend(w.into_iter().flatten());
                a.extend(names);
                (a, own)
            }
        };
        return Some(C23 { files, args, line: Line::Help { words } });
    }
    let has = |o: &str| opts.iter().any(|p| p.long == o);
    let mut cmd = cmd.to_owned();
    let why;
    match g.below(9) {
        0 => {
            why = "an unknown option";
            w.push(vec![g
                .pick(&[
                    "--write", "--force", "--writefiles", "--write_files", "--skip-modifier", "--vm-skips", "--with-vm-skip", "--solidity", "--solc",
                    "--format-descriptions", "--emit-vm-skip", "--stdou", "--Fix", "--FIX", "--quiet", "--config", "--all", "--dry-run", "--overwrite",
                    "--fixes", "--no-fix", "--files", "--output", "--skip", "--modifiers", "--verbose", "--check", "--scaffold", "--std-out", "---fix",
                    "--write-file", "--force-writes", "--version", "--Help",
                ])
                .to_string()]);
        }
        1 => {
            why = "an unknown letter";
            let l = *g.pick(&['x', 'q', 'v', 'F', 'W', 'M', 'n', 'd', 'j', 'o', 'V', 'c', 'i', 'a', 'r', 'e', '0', 'H']);
            match w.iter().position(|o| o.len() == 1 && o[0].starts_with('-') && !o[0].starts_with("--") && !o[0].contains('s')) {
                Some(i) if g.chance(1, 2) => w[i][0].push(l),
                _ => w.push(vec![format!("-{l}")]),
            }
        }
        2 => {
            why = "an option of the other command";
            w.push(if cmd == "scaffold" {
                vec![g.pick(&["--fix", "--stdout"]).to_string()]
            } else {
                let i = g.below(9);
                let s = ["-w", "-f", "-S", "-s0.8.1", "--write-files", "--force-write", "--vm-skip", "--solidity-version=0.8.1", "-wf"][i];
                vec![s.to_owned()]
            });
        }
        3 => {
            why = "an option without its value";
            if cmd != "scaffold" || has("solidity-version") {
                return None;
            }
            let o = g.pick(&["-s", "--solidity-version"]).to_string();
            let mut a = vec![cmd];
            let first = g.chance(1, 2);
            if first && !w.is_empty() {
                a.push(o.clone());
            }
            let none = w.is_empty();
            a.extend(w.into_iter().flatten());
            a.extend(names);
            if !first || none {
                a.push(o);
            }
            return Some(C23 { files, args: a, line: Line::Wrong { why: why.into() } });
        }
        4 => {
            why = "a value for an option that takes none";
            let own: Vec<&str> = if cmd == "check" { CHECK } else { SCAFFOLD }.iter().copied().filter(|o| *o != "solidity-version" && !has(o)).collect();
            if own.is_empty() {
                return None;
            }
            let o = *g.pick(&own);
            let v = g.pick(&["true", "false", "1", "0", "", "yes", "no", "t0.tree"]).to_string();
            w.push(vec![format!("--{o}={v}")]);
            // Its own requirement isn't what is wrong.
            match o {
                "force-write" if !has("write-files") => w.push(vec!["-w".into()]),
                "stdout" if !has("fix") => w.push(vec!["--fix".into()]),
                _ => (),
            }
        }
        5 => {
            why = "an option given twice";
            if opts.is_empty() {
                return None;
            }
            let mut o = g.pick(&opts).clone();
            if o.value.is_some() {
                o.value = Some("0.8.7".into());
            }
            w.push(single(g, &o));
        }
        6 => {
            if cmd == "scaffold" {
                why = "--force-write without --write-files";
                let rest: Vec<Opt> = opts.iter().filter(|o| !["write-files", "force-write"].contains(&o.long)).cloned().collect();
                let mut all = rest;
                all.push(opt("force-write", None));
                w = words(g, &all);
            } else {
                why = "--stdout without --fix";
                let rest: Vec<Opt> = opts.iter().filter(|o| !["fix", "stdout"].contains(&o.long)).cloned().collect();
                let mut all = rest;
                all.push(opt("stdout", None));
                w = words(g, &all);
            }
        }
        7 => {
            why = "no such command";
            cmd = g
                .pick(&["Scaffold", "CHECK", "chek", "scaf", "fix", "fmt", "generate", "check ", "scaffold-all", "t0.tree", "s", "c", "scaffolds", "checks", "run", "init"])
                .to_string();
        }
        _ => {
            why = "options before the command, or no command";
            if w.is_empty() {
                w.push(vec!["-m".into()]);
            }
            let mut a: Vec<String> = w.into_iter().flatten().collect();
            if g.chance(1, 2) {
                a.push(cmd);
            }
            a.extend(names);
            return Some(C23 { files, args: a, line: Line::Wrong { why: why.into() } });
        }
    }
    let args = arrange(g, &cmd, w, &names);
    Some(C23 { files, args, line: Line::Wrong { why: why.into() } })
}

fn run_c23(c: &C23, env: &mut Env) -> Outcome {
    let f = &c.files;
    let mut made = vec![];
    set_up(&f.pairs, &[], env, &mut made)?;
    let before = snapshot(&env.dir);
    let args: Vec<&str> = c.args.iter().map(String::as_str).collect();
    let shown = format!("`bulloak {}`", args.join(" "));
    let r = crash_free(env.run_how(&args, &How::default())?, &args)?;
    let after = snapshot(&env.dir);
    let untouched = || -> Res<()> {
        if let Some((n, e)) = changes(&before, &after).into_iter().next() {
            fail!("{shown} changes {n}: {}\n---\n{}", show(before.get(&n)), show(e.as_ref()));
        }
        Ok(())
    };
    match &c.line {
        Line::Wrong { why } => {
            ensure!(r.code != Some(0), "{shown} ({why}) succeeds:\n{}{}", clip(&r.out), clip(&r.err));
            ensure!(r.out.is_empty(), "{shown} ({why}) prints on standard output:\n{}", clip(&r.out));
            ensure!(!r.err.trim().is_empty(), "{shown} ({why}) fails without a word");
            untouched()?;
            let label = match why.as_str() {
                "an unknown option" => "unknown option",
                "an unknown letter" => "unknown letter",
                "an option of the other command" => "option of the other command",
                "an option without its value" => "no value",
                "a value for an option that takes none" => "value for a flag",
                "an option given twice" => "given twice",
                "no such command" => "no such command",
                "options before the command, or no command" => "options before the command",
                _ => "without the option it needs",
            };
            Ok(Report { nontrivial: f.pairs.iter().any(|p| p.tree.is_some()), labels: vec![label] })
        }
        Line::Help { words } => {
            ensure!(r.code == Some(0), "{shown} fails (exit {:?}):\n{}", r.code, clip(&r.err));
            ensure!(r.err.is_empty(), "{shown} writes to standard error:\n{}", clip(&r.err));
            for w in words {
                ensure!(r.out.contains(w.as_str()), "{shown} doesn't mention {w}:\n{}", clip(&r.out));
            }
            untouched()?;
            Ok(Report { nontrivial: true, labels: vec!["help"] })
        }
        Line::Same { plain } => {
            set_up(&f.pairs, &[], env, &mut made)?;
            let p: Vec<&str> = plain.iter().map(String::as_str).collect();
            let q = format!("`bulloak {}`", p.join(" "));
            let r0 = crash_free(env.run_how(&p, &How::default())?, &p)?;
            let s0 = snapshot(&env.dir);
            ensure!(r.code == r0.code, "exit status {:?} for {q}, but {:?} for {shown}:\n{}", r0.code, r.code, clip(&r.err));
            ensure!(r0.code == Some(0) || r0.code == Some(1), "{q} isn't understood (exit {:?}):\n{}", r0.code, clip(&r0.err));
            ensure!(r.raw_out == r0.raw_out, "standard output of {q} and {shown} differs:\n{}\n---\n{}", clip(&r0.out), clip(&r.out));
            ensure!(r.raw_err == r0.raw_err, "standard error of {q} and {shown} differs:\n{}\n---\n{}", clip(&r0.err), clip(&r.err));
            if let Some((n, e)) = changes(&s0, &after).into_iter().next() {
                fail!("{n} differs after {q} and {shown}: {}\n---\n{}", show(s0.get(&n)), show(e.as_ref()));
            }
            let wrote = !changes(&before, &after).is_empty();
            let mut l = vec![f.cmd.label()];
            if wrote {
                l.push("writes");
            }
            Ok(Report { nontrivial: c.args != *plain && (wrote || r.out.lines().count() + r.err.lines().count() >= 3), labels: l })
        }
    }
}

pub fn c23() -> Prop<C23> {
    Prop {
        id: "C23",
        rule: "the line is another spelling of a command that writes or prints something, or a wrong line naming an existing tree",
        gen: gen_c23,
        run: run_c23,
        fixed: Vec::new,
        quick: 10_000,
        thorough: 200_000,
    }
}
