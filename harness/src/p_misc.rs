//! C01: any input is processed or rejected cleanly.

use serde::{Deserialize, Serialize};

use crate::{
    cli::{clip, fixed_count, Env, How, Kind},
    common::*,
    engine::{Outcome, Prop, Report, G},
    p_check::{break_sol, break_tree, totals},
    solgen::*,
    spec::*,
};

/// Contents of a file; text where possible, so that replays can be read.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(untagged)]
pub enum Bytes {
    Text(String),
    Raw(Vec<u8>),
}

impl Bytes {
    pub fn bytes(&self) -> &[u8] {
        match self {
            Bytes::Text(s) => s.as_bytes(),
            Bytes::Raw(v) => v,
        }
    }
    pub fn show(&self) -> String {
        String::from_utf8_lossy(self.bytes()).into_owned()
    }
    pub fn utf8(&self) -> bool {
        std::str::from_utf8(self.bytes()).is_ok()
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C01 {
    pub tree: Bytes,
    pub sol: Option<Bytes>,
    pub opts: Opts,
    pub write: bool,
    pub skip: bool,
    pub label: String,
    #[serde(default)]
    pub full: bool,
}

pub const TREE_SOUP: &[&str] = &[
    "├── ", "└── ", "\n", "│   ", "when ", "it ", "given ", "foo ", "Foo", "Foo::bar", "::", "   ", "//", "// c\n", "├", "└",
    "│", "─", "──", " ", "\r\n", "\r", "\t", "\n\n", "\n\n\n", "WHEN", "It", "Given", "$", "'", "\"", "-", "_", ".", "/",
    "é", "e\u{301}", "日本", "🦀", "👨‍👩‍👧", "\u{feff}", "\0", "\u{a0}", "\u{2028}", "\u{85}", "\u{200b}", "\u{202e}", "\u{b}", "\u{c}",
    "ß", "ŉ", "ﬃ", "İ", "ǆ", "²", "½", "٣", "contract", "function", "{", "}", ";", "*/", "/*", "\\", "should revert", "test_",
    "it should revert\n", "when a\n", "it b\n", "├── when a\n", "└── it b\n", "│   └── it c\n", "::::", "a::b::c", "0", "1a", "#",
];

const SOL_SOUP: &[&str] = &[
    " ", "\n", "{", "}", "(", ")", ";", ",", "contract ", "Foo ", "function ", "modifier ", "_;", "test_", "public ", "external ",
    "{}", "() ", "// c\n", "/* c */", "/*", "*/", "//", "\"", "'", "\"s\"", "unicode\"é\"", "hex\"00\"", "0x", "1e", "1_000", "é", "\0",
    "\r", "\r\n", "\u{202e}", "\u{feff}", "\t", "constructor() {}", "receive() external payable {}", "fallback() external {}",
    "assembly { let x := 1 }", "unchecked { }", "using A for B;", "type X is uint256;", "error E();", "event E();", "struct S { uint256 a; }",
    "enum E { A }", "try a.b() {} catch {}", "interface I {}", "library L {}", "abstract ", "is A, B ", "virtual ", "override(A, B) ",
    "emit E();", "return;", "if (a) b; else c;", "for (;;) {}", "while (true) {}", "do {} while (a);", "mapping(a => b) c;", "uint256 a;",
    "uint256[] memory a = new uint256[](1);", "function() external f;", "a ? b : c", "x = y;", "pragma solidity 0.8.0;", "import \"a\";",
    "// forgefmt: disable-start\n", "// forgefmt: disable-next-line\n", "// forgefmt: disable-line\n", "// forgefmt: disable-next-item\n",
    "// forgefmt: disable-end\n", "/// @dev x\n", "/** x */", "function f() {}", "modifier m() { _; }", "modifier m { _; }", "function ;", "contract C {}",
    "function f();", "return (a, b);", "delete a;", "a[1:2]", "{value: 1}", "new C{salt: s}()", "revert E();", "payable", "immutable ",
    "constant ", "[", "]", "=>", "=", "==", "+", "++", "-", "!", "~", "**", ">>>=", ".", ":", "?", "@", "#", "$", "\\", "`",
];

pub fn soup(g: &mut G, words: &[&str], max: usize) -> String {
    let n = g.range(0, max);
    (0..n).map(|_| *g.pick(words)).collect()
}

const MEMBERS: &[&str] = &[
    "uint256 a;", "mapping(address => uint256) b;", "mapping(address owner => mapping(bytes32 => bool) inner) public c;",
    "function() external returns (uint256) f;", "function(uint256) internal pure g;", "constructor() {}", "constructor(uint256 a) Base(a) payable {}",
    "receive() external payable {}", "fallback() external {}", "fallback(bytes calldata) external returns (bytes memory) {}",
    "event E(uint256 indexed a, address b);", "event F() anonymous;", "error G(uint256 a);", "struct S { uint256 a; address b; }",
    "enum K { A, B }", "using A for B;", "using A for *;", "using {f, g as +} for X global;", "type T is uint256;", "modifier m { _; }",
    "modifier n() virtual;", "modifier o(uint256 a) override(A, B) { require(a > 0); _; }", "function h();", "function test_A();",
    "function i(uint256, uint256 b) public returns (uint256) { return b; }", "function test_B() external { }", "/// @notice x\nfunction j() public {}",
    "/** x */ function k() public {}", "// c\n", "/* c */", "// forgefmt: disable-next-item\n", "// forgefmt: disable-start\n", "// forgefmt: disable-end\n",
    "// forgefmt: disable-next-line\n", "// forgefmt: disable-line\n", "uint256 constant X = 1_000e18;", "bytes32 immutable y = keccak256(\"a\");",
    "string s = unicode\"é\";", "bytes t = hex\"00ff\";", "string u = \"a\" \"b\";", "address v = 0x0000000000000000000000000000000000000000;",
    "function __() public { unchecked { a++; } }", "function l() public { assembly { let x := mload(0x40) for {} lt(x, 1) {} { } switch x case 0 { } default { } } }",
    "function p() public { try this.f() returns (uint256) { } catch Error(string memory) { } catch { } }",
    "function q() public { if (a) b(); else if (c) d(); else e(); }", "function r() public { for (uint256 i; i < 1; i++) continue; while (true) break; do { } while (x); }",
    "function s2() public { (uint256 a, , uint256 b) = f(); (a, b) = (b, a); delete a; emit E(1, x); revert G({a: 1}); }",
    "function t2() public { x = a ? b : c; y = a[1:2]; z = new uint256[](3); w = f{value: 1, gas: 2}(a)(b); new C{salt: s}(1); }",
    "function u2() public { type(uint256).max; payable(a).transfer(1 ether); uint256[] memory x; return; }", "function fallback() public {}",
    "function receive() public {}", "function v2() public { /* } */ string memory s = \"}\"; // }\n }", "function w2() public { 'a'; \"\\\"\"; }",
    "function x2() public virtual override(A, B) onlyOwner m2(1, \"{\") returns (uint256 a, uint256 b) { _; }", ";",
];

/// A file of complete pieces.
fn pieces(g: &mut G, m: &Model) -> String {
    let mut s = String::new();
    for _ in 0..g.range(0, 3) {
        s.push_str(g.pick(&[
            "pragma solidity ^0.8.0;\n", "pragma abicoder v2;\n", "import \"a\";\n", "import * as X from 'b';\n", "import {A as B, C} from \"c\";\n",
            "// c\n", "/* c */ ", "\n", "interface I { function f() external; }\n", "library L { function f() internal {} }\n", "function free() {}\n",
            "uint256 constant X = 1;\n", "error Z();\n", "struct S { uint256 a; }\n", "using A for B global;\n", "type T is uint256;\n", "enum E { A }\n", "event F();\n", ";\n",
        ]));
    }
    let name = if g.chance(2, 3) { m.contract.clone() } else { "Other".to_owned() };
    s.push_str(g.pick(&["contract ", "abstract contract ", "/* x */ contract ", "contract\n", "interface ", "library "]));
    s.push_str(&name);
    s.push_str(g.pick(&[" {", "{", " is A {", " is A, B(1) {", " // x {\n{", "\n{\n"]));
    for _ in 0..g.range(0, 8) {
        if g.chance(1, 3) && !m.parts.is_empty() {
            let p = g.pick(&m.parts);
            s.push_str(&source_of_part(p, false));
        } else {
            s.push_str(g.pick(MEMBERS));
        }
        s.push_str(g.pick(&["\n", " ", "", "\n\n", "\n    ", "\r\n", "\t"]));
    }
    s.push_str(g.pick(&["}\n", "}", "\n}\n\n\n", "} // x", "}\ncontract Z {}"]));
    s
}

/// Character, line and snippet level mutations.
pub fn mutate(g: &mut G, text: &str, words: &[&str]) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..g.range(1, 6) {
        let n = cs.len();
        match g.weighted(&[4, 4, 3, 3, 2, 2, 2, 1, 1]) {
            // Insert a snippet.
            0 => {
                let at = g.below(n + 1);
                let s: Vec<char> = g.pick(words).chars().collect();
                cs.splice(at..at, s);
            }
            // Drop some characters.
            1 if n > 0 => {
                let at = g.below(n);
                let k = (*g.pick(&[1, 1, 2, 4, 12])).min(n - at);
                cs.drain(at..at + k);
            }
            // Replace one.
            2 if n > 0 => {
                let at = g.below(n);
                let s: Vec<char> = g.pick(words).chars().collect();
                cs.splice(at..at + 1, s);
            }
            // Drop, duplicate or move a line.
            3 | 4 | 5 => {
                let text: String = cs.iter().collect();
                let mut ls: Vec<&str> = text.split('\n').collect();
                let i = g.below(ls.len());
                let l = ls[i];
                match g.below(3) {
                    0 => {
                        ls.remove(i);
                    }
                    1 => {
                        let j = g.below(ls.len() + 1);
                        ls.insert(j, l);
                    }
                    _ => {
                        ls.remove(i);
                        let j = g.below(ls.len() + 1);
                        ls.insert(j, l);
                    }
                }
                cs = ls.join("\n").chars().collect();
            }
            // Cut off the rest.
            6 if n > 0 => {
                let at = g.below(n);
                cs.truncate(at);
            }
            // Repeat a stretch.
            7 if n > 0 => {
                let at = g.below(n);
                let k = (1 + g.below(20)).min(n - at);
                let s: Vec<char> = cs[at..at + k].to_vec();
                let j = g.below(n + 1);
                cs.splice(j..j, s);
            }
            // Change the case of a stretch.
            8 if n > 0 => {
                let at = g.below(n);
                let k = (1 + g.below(10)).min(n - at);
                let s: Vec<char> = cs[at..at + k].iter().flat_map(|c| c.to_uppercase()).collect();
                cs.splice(at..at + k, s);
            }
            _ => {}
        }
    }
    cs.into_iter().collect()
}

fn raw(g: &mut G, text: &str) -> Bytes {
    let mut v = text.as_bytes().to_vec();
    for _ in 0..g.range(1, 4) {
        let at = g.below(v.len() + 1);
        match g.below(3) {
            0 => v.insert(at, *g.pick(&[0xffu8, 0x80, 0xc3, 0xe2, 0xf0, 0, 0xed])),
            1 if at < v.len() => {
                v[at] = g.below(256) as u8;
            }
            _ if at < v.len() => {
                v.remove(at);
            }
            _ => {}
        }
    }
    match String::from_utf8(v) {
        Ok(s) => Bytes::Text(s),
        Err(e) => Bytes::Raw(e.into_bytes()),
    }
}

/// Trees of unusual size.
fn big(g: &mut G) -> String {
    let n = *g.pick(&[20, 60, 120]);
    let mut s = String::from("Foo\n");
    match g.below(5) {
        // Deep conditions.
        0 => {
            for i in 0..n {
                s.push_str(&format!("{}└─ when a{i}\n", " ".repeat(i)));
            }
            s.push_str(&format!("{}└─ it x\n", " ".repeat(n)));
        }
        // Deep descriptions.
        1 => {
            s.push_str("└─ it x\n");
            for i in 0..n {
                s.push_str(&format!("{}└─ d{i}\n", " ".repeat(i + 1)));
            }
        }
        // Wide.
        2 => {
            for i in 0..n * 4 {
                s.push_str(&format!("├── when a{i}\n│   └── it x\n"));
            }
            s.push_str("└── it is over\n");
        }
        // Long lines.
        3 => {
            let w = "very ".repeat(n * 20);
            s.push_str(&format!("├── when {w}\n│   └── it {w}\n└── it {w}\n"));
        }
        // Many trees.
        _ => {
            s.clear();
            for i in 0..n {
                s.push_str(&format!("Foo::f{i}\n└── when a\n    └── it x\n\n\n"));
            }
        }
    }
    s
}

fn gen_c01(g: &mut G) -> Option<C01> {
    let spec = gen_spec(g, GenCfg { max_depth: 3, max_kids: 3, ..Default::default() })?;
    let layout = gen_layout(g);
    let r = render(&spec, &layout);
    let m = model(&spec, &r);
    let (tree, label) = match g.weighted(&[12, 10, 6, 2, 2, 1, 1]) {
        0 => (Bytes::Text(r.text.clone()), "valid tree"),
        1 => (Bytes::Text(mutate(g, &r.text, TREE_SOUP)), "mutated tree"),
        2 => (Bytes::Text(soup(g, TREE_SOUP, 25)), "soup of tree tokens"),
        3 => (raw(g, &r.text), "bytes"),
        4 => {
            let s: String = (0..g.range(0, 40))
                .map(|_| char::from_u32(g.below(0x11_0000) as u32).unwrap_or('\u{fffd}'))
                .collect();
            (Bytes::Text(format!("{}{s}", g.pick(&["", "Foo\n└── it ", "Foo\n└── when ", "Foo"]))), "arbitrary characters")
        }
        5 => (Bytes::Text(big(g)), "big tree"),
        _ => {
            let how = g.below(5);
            (Bytes::Text(break_tree(how, &r.text)), "broken tree")
        }
    };
    let sol_text = {
        let drop = *g.pick(&[0, 30]);
        let f = gen_sol(g, &m, SolCfg { drop, shuffle: 2, noise: 5, rename: true, style: true, outside: true, ..Default::default() });
        f.write().text
    };
    let sol = match g.weighted(&[3, 10, 4, 2, 1, 1, 12]) {
        0 => Some(Bytes::Text(sol_text)),
        1 => Some(Bytes::Text(mutate(g, &sol_text, SOL_SOUP))),
        2 => Some(Bytes::Text(format!("{}{}", g.pick(&["", "contract Foo {\n"]), soup(g, SOL_SOUP, 30)))),
        3 => Some(raw(g, &sol_text)),
        4 => Some(Bytes::Text(break_sol(g.below(8), &sol_text))),
        5 => None,
        _ => Some(Bytes::Text(pieces(g, &m))),
    };
    let opts = Opts {
        vm_skip: g.chance(1, 4),
        skip_mods: g.chance(1, 4),
        version: g.chance(1, 3).then(|| {
            if g.chance(1, 2) {
                g.pick(&["0.8.20", "^0.8.0", "", " ", ";", "abc", "0.8.0; contract X {}", "//", "/*", "\n", "é", "0", "\""]).to_string()
            } else {
                soup(g, SOL_SOUP, 3)
            }
            .replace('\0', "0")
        }),
    };
    Some(C01 { tree, sol, opts, write: g.chance(1, 2), skip: g.chance(1, 4), label: label.into(), full: g.chance(1, 12) })
}

fn run_c01(c: &C01, env: &mut Env) -> Outcome {
    env.clean();
    env.write("a.tree", c.tree.bytes());
    let mut labels: Vec<&'static str> = vec![];
    let tree = c.tree.show();
    // Scaffolding.
    let mut a: Vec<String> = vec!["scaffold".into(), "a.tree".into()];
    if c.opts.vm_skip {
        a.push("-S".into());
    }
    if c.opts.skip_mods {
        a.push("-m".into());
    }
    if let Some(v) = &c.opts.version {
        a.push(format!("-s={v}"));
    }
    let av: Vec<&str> = a.iter().map(String::as_str).collect();
    let s = run(env, &av)?;
    let ctx = || format!("--- {a:?}\n--- tree:\n{tree}\n--- output:\n{}{}", clip(&s.out), clip(&s.err));
    match s.code {
        Some(0) => {
            labels.push("scaffolded");
            ensure!(c.tree.utf8(), "a tree that isn't UTF-8 is accepted\n{}", ctx());
            ensure!(s.out.contains("contract"), "exits with 0 but prints no contract\n{}", ctx());
            ensure!(s.err.is_empty(), "exits with 0 but complains\n{}", ctx());
        }
        Some(1) => {
            labels.push("rejected by scaffold");
            ensure!(s.err.contains("a.tree"), "exits with 1 without naming the file\n{}", ctx());
            ensure!(
                s.err.lines().any(|l| !l.trim().is_empty() && !l.contains("a.tree") && !l.contains("Could not scaffold")),
                "exits with 1 without an explanation\n{}",
                ctx()
            );
            ensure!(s.out.trim().is_empty(), "prints something for a file it rejects\n{}", ctx());
        }
        o => fail!("exits with {o:?}\n{}", ctx()),
    }
    // Checking.
    if let Some(b) = &c.sol {
        env.write("a.t.sol", b.bytes());
    }
    let sol = c.sol.as_ref().map(|b| b.show()).unwrap_or_else(|| "(none)".into());
    let mut a = vec!["a.tree"];
    if c.skip {
        a.push("-m");
    }
    let (k, rep) = check(env, &a)?;
    let ctx = |x: &crate::cli::Run| format!("--- tree:\n{tree}\n--- solidity:\n{sol}\n--- output:\n{}{}", clip(&x.out), clip(&x.err));
    totals(&k, &rep)?;
    if k.code == Some(0) {
        labels.push("check succeeds");
        ensure!(c.tree.utf8(), "check accepts a tree that isn't UTF-8\n{}", ctx(&k));
    } else {
        ensure!(
            k.err.contains("a.tree") || k.err.contains("a.t.sol"),
            "check fails without naming a file\n{}",
            ctx(&k)
        );
        ensure!(
            !rep.viols.iter().any(|v| matches!(v.kind, Kind::Other(_))),
            "check's message isn't one of the documented ones\n{}",
            ctx(&k)
        );
    }
    let bad_tree = rep.viols.iter().any(|v| matches!(v.kind, Kind::TreeInvalid(_) | Kind::TreeSemantic));
    ensure!(!(bad_tree && s.code == Some(0)), "check rejects a tree that scaffold accepts\n{}", ctx(&k));
    let bad_sol = rep.viols.iter().any(|v| v.kind == Kind::SolInvalid);
    if bad_sol {
        labels.push("solidity rejected");
    }
    let fatal = rep.viols.iter().any(|v| !v.kind.fixable());
    // Fixing.
    let mut fa = vec!["check", "--fix"];
    fa.extend(&a);
    if !c.write {
        fa.push("--stdout");
    }
    let f = run(env, &fa)?;
    match f.code {
        Some(0) => {
            ensure!(!fatal, "check --fix succeeds although check can't read the files\n{}", ctx(&f));
            ensure!(fixed_count(&f.out).is_some(), "check --fix exits with 0 but doesn't say what it did\n{}", ctx(&f));
            labels.push("fixed");
            // `1s` isn't Solidity, but the parser takes it and the formatter
            // writes it as `1s s`.
            let odd_number = sol.as_bytes().windows(2).any(|w| w[0].is_ascii_digit() && (w[1].is_ascii_alphabetic()));
            if c.write && !odd_number {
                let (k2, rep2) = check(env, &a)?;
                ensure!(
                    !rep2.viols.iter().any(|v| !v.kind.fixable()),
                    "check --fix leaves a file that check can't read\n--- fixed:\n{}\n{}",
                    env.read("a.t.sol").unwrap_or_default(),
                    ctx(&k2)
                );
            }
        }
        Some(1) => {
            ensure!(
                f.err.contains("a.tree") || f.err.contains("a.t.sol"),
                "check --fix fails without naming a file\n{}",
                ctx(&f)
            );
        }
        o => fail!("check --fix exits with {o:?}\n{}", ctx(&f)),
    }
    // Nor does success go together with output that reached nobody.
    if c.full {
        labels.push("full disk");
        for (args, code) in [(&av, s.code), (&vec!["check", "a.tree"], k.code), (&fa, f.code)] {
            let r = env.run_how(args, &How { full: true, ..How::default() })?;
            ensure!(
                r.code != Some(0),
                "{args:?} exits with 0 although its output couldn't be written ({code:?} otherwise)\n{}",
                ctx(&r)
            );
        }
    }
    labels.push(match c.label.as_str() {
        "valid tree" => "valid tree",
        "mutated tree" => "mutated tree",
        "soup of tree tokens" => "soup of tree tokens",
        "bytes" => "bytes",
        "arbitrary characters" => "arbitrary characters",
        "big tree" => "big tree",
        _ => "broken tree",
    });
    // Something beyond the first rule of the grammar was looked at.
    Ok(Report { nontrivial: tree.contains(['├', '└']) && tree.len() > 8, labels })
}

pub fn c01() -> Prop<C01> {
    Prop {
        id: "C01",
        rule: "the tree has a branch and more than 8 bytes",
        gen: gen_c01,
        run: run_c01,
        fixed: Vec::new,
        quick: 6000,
        thorough: 300_000,
    }
}
