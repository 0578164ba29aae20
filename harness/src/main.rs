#![allow(dead_code)]
#[macro_use]
mod engine;
mod cli;
mod common;
mod p_check;
mod p_cli;
mod p_err;
mod p_fix;
mod p_hist;
mod p_lib;
mod p_misc;
mod p_scaffold;
mod sol;
mod solgen;
mod spec;

use engine::{Ctx, Known};

enum Job {
    Check,
    Replay(serde_json::Value),
}

fn go<C: serde::Serialize + serde::de::DeserializeOwned + Send>(p: &engine::Prop<C>, ctx: &Ctx, job: &Job) -> i32 {
    match job {
        Job::Check => engine::check(p, ctx),
        Job::Replay(v) => engine::replay(p, ctx, v.clone()),
    }
}

fn run_id(id: &str, ctx: &Ctx, job: Job) -> i32 {
    macro_rules! d {
        ($($name:literal => $p:expr),* $(,)?) => {
            match id {
                $($name => go(&$p, ctx, &job),)*
                o => { eprintln!("unknown property {o}"); 2 }
            }
        };
    }
    d! {
        "C01" => p_misc::c01(),
        "C02" => p_scaffold::c02(),
        "C03" => p_scaffold::c03(),
        "C04" => p_scaffold::c04(),
        "C05" => p_scaffold::c05(),
        "C06" => p_scaffold::c06(),
        "C07" => p_scaffold::c07(),
        "C08" => p_err::c08(),
        "C09" => p_err::c09(),
        "C10" => p_err::c10(),
        "C11" => p_err::c11(),
        "C12" => p_check::c12(),
        "C13" => p_check::c13(),
        "C14" => p_check::c14(),
        "C15" => p_check::c15(),
        "C16" => p_check::c16(),
        "C17" => p_check::c17(),
        "C18" => p_fix::c18(),
        "C19" => p_fix::c19(),
        "C20" => p_hist::c20(),
        "C21" => p_hist::c21(),
        "C22" => p_hist::c22(),
        "C24" => p_lib::c24(),
        "C23" => p_cli::c23(),
    }
}

fn knowns(verif: &str, id: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.json")) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
    v["known"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|k| k["property"] == id)
        .map(|k| Known { what: k["what"].as_str().unwrap_or("").to_owned(), case: k["case"].clone() })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_owned());
    let verif = env("BVH_VERIF", "/verif");
    let tier = env("VERIF_TIER", "quick");
    let mut ctx = Ctx {
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        bin: env("BVH_BIN", &format!("{verif}/target/debug/bulloak")),
        cases: std::env::var("BVH_CASES").ok().and_then(|s| s.parse().ok()),
        knowns: vec![],
        time_cap: env("BVH_TIME_CAP", if tier == "thorough" { "3000" } else { "400" }).parse().unwrap(),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        dump: std::env::var("BVH_DUMP").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
        verif: verif.clone(),
        tier,
    };
    let code = match args.iter().map(String::as_str).collect::<Vec<_>>().as_slice() {
        ["check", id] => {
            ctx.knowns = knowns(&verif, id);
            run_id(id, &ctx, Job::Check)
        }
        ["replay", file] => {
            let s = std::fs::read_to_string(file).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay file");
            let id = v["property"].as_str().expect("property").to_owned();
            run_id(&id, &ctx, Job::Replay(v["case"].clone()))
        }
        _ => {
            eprintln!("usage: bvh check <ID> | bvh replay <FILE>");
            2
        }
    };
    cli::Env::remove_all();
    std::process::exit(code);
}
