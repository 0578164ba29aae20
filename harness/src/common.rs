//! Helpers shared by the properties.

use crate::{
    cli::{clip, parse_check, CheckReport, Env, Run},
    engine::Fail,

};

pub type Res<T> = Result<T, Fail>;

/// A run that must not crash.
pub fn run(env: &mut Env, args: &[&str]) -> Res<Run> {
    let r = env.run(args)?;
    if let Some(m) = r.crashed() {
        fail!("`bulloak {}` {m}", args.join(" "));
    }
    Ok(r)
}

/// Text that `scaffold` prints for one file that must be accepted.
pub fn scaffold(env: &mut Env, text: &str, args: &[&str]) -> Res<String> {
    env.write("a.tree", text);
    let mut a = vec!["scaffold", "a.tree"];
    a.extend(args);
    let r = run(env, &a)?;
    ensure!(
        r.code == Some(0),
        "scaffold rejects a valid tree (exit {:?}):\n{}\n--- tree:\n{text}",
        r.code,
        clip(&r.err)
    );
    ensure!(r.err.is_empty(), "scaffold of a valid tree writes to standard error: {}", clip(&r.err));
    // println adds one newline to what would be written to a file.
    match r.out.strip_suffix('\n') {
        Some(o) => Ok(o.to_owned()),
        None => fail!("standard output does not end in a newline"),
    }
}

pub fn check(env: &mut Env, args: &[&str]) -> Res<(Run, CheckReport)> {
    let mut a = vec!["check"];
    a.extend(args);
    let r = run(env, &a)?;
    match parse_check(&r) {
        Ok(rep) => Ok((r, rep)),
        Err(m) => fail!("check's report cannot be read: {m}\n{}", clip(&r.err)),
    }
}

pub fn read(env: &Env, name: &str) -> Res<String> {
    match env.read(name) {
        Some(s) => Ok(s),
        None => fail!("the file {name} was not written"),
    }
}

/// First difference of two lists, for messages.
pub fn diff<A: PartialEq + std::fmt::Debug>(want: &[A], got: &[A]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        if w != g {
            return Some(format!("at position {i}: expected {w:?}, got {g:?}"));
        }
    }
    None
}
