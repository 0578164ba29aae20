//! Solidity files made from what a tree specifies: the specified constructs in
//! many guises, left out, misplaced, and surrounded by code of the user's own.
//!
//! Everything is written in the formatter's own spelling (`uint256`, double
//! quotes, attributes in its order, braces around every branch), so that code
//! can be compared token by token before and after `check --fix`.

use serde::{Deserialize, Serialize};

use crate::{
    engine::G,
    spec::{Model, Part},
};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Member {
    /// Whole line comments before the member.
    pub lead: Vec<String>,
    pub text: String,
    /// Comment after the member, on the same line.
    pub trail: Option<String>,
    /// Index of the specified construct this is, if it is one.
    pub part: Option<usize>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SolFile {
    pub pre: Vec<String>,
    /// `contract` or `abstract contract`
    pub kw: String,
    pub name: String,
    /// Between the name and the brace.
    pub bases: String,
    pub members: Vec<Member>,
    /// Comment before the closing brace.
    pub last: Option<String>,
    pub post: Vec<String>,
    /// 0: one blank line between members, 1: none, 2: several, 3: same line where possible
    pub spacing: usize,
    pub indent: usize,
    pub crlf: bool,
    pub brace_nl: bool,
    pub lead_blank: usize,
    pub final_nl: bool,
    /// The closing brace follows the last member at once.
    #[serde(default)]
    pub tight: bool,
}

#[derive(Clone, Debug)]
pub struct Written {
    pub text: String,
    pub contract_line: usize,
    /// Line where every member starts.
    pub lines: Vec<usize>,
}

struct W {
    s: String,
    line: usize,
}

impl W {
    fn put(&mut self, t: &str) {
        self.line += t.matches('\n').count();
        self.s.push_str(t);
    }
}

impl SolFile {
    pub fn write(&self) -> Written {
        let mut w = W { s: String::new(), line: 1 };
        for _ in 0..self.lead_blank {
            w.put("\n");
        }
        for p in &self.pre {
            w.put(p);
            w.put("\n");
        }
        let contract_line = w.line;
        w.put(&self.kw);
        w.put(" ");
        w.put(&self.name);
        w.put(&self.bases);
        w.put(if self.brace_nl || self.bases.contains("//") { "\n{" } else { " {" });
        let ind = " ".repeat(self.indent);
        let mut lines = vec![];
        for (i, m) in self.members.iter().enumerate() {
            let same_line = self.spacing == 3
                && m.lead.is_empty()
                && (i == 0 || self.members[i - 1].trail.is_none());
            if same_line {
                w.put(" ");
            } else {
                w.put("\n");
                if i > 0 && self.spacing != 1 {
                    w.put("\n");
                    if self.spacing == 2 {
                        w.put("\n\n");
                    }
                }
                for l in &m.lead {
                    w.put(&ind);
                    w.put(l);
                    w.put("\n");
                }
                w.put(&ind);
            }
            lines.push(w.line);
            w.put(&m.text.replace('\n', &format!("\n{ind}")));
            if let Some(t) = &m.trail {
                w.put(" ");
                w.put(t);
            }
        }
        if let Some(l) = &self.last {
            w.put("\n");
            w.put(&ind);
            w.put(l);
        }
        let comment_ends = self.last.is_some() || self.members.last().is_some_and(|m| m.trail.is_some());
        w.put(if self.tight && !comment_ends { "}" } else { "\n}" });
        for p in &self.post {
            w.put("\n");
            w.put(p);
        }
        if self.final_nl {
            w.put("\n");
        }
        let text = if self.crlf { w.s.replace('\n', "\r\n") } else { w.s };
        Written { text, contract_line, lines }
    }

    /// (spec index, position among members, line) of the specified constructs
    /// present, in file order.
    pub fn present(&self, w: &Written) -> Vec<(usize, usize)> {
        self.members.iter().enumerate().filter_map(|(i, m)| m.part.map(|p| (p, w.lines[i]))).collect()
    }

    pub fn missing(&self, m: &Model) -> Vec<usize> {
        (0..m.parts.len()).filter(|i| !self.members.iter().any(|x| x.part == Some(*i))).collect()
    }

    /// Spec indices of misplaced constructs with their lines, in spec order.
    pub fn misplaced(&self, w: &Written) -> Vec<(usize, usize)> {
        let p = self.present(w);
        let mut v = vec![];
        for (i, &(spec, line)) in p.iter().enumerate() {
            // Something specified later comes before it.
            if p[..i].iter().any(|&(s, _)| s > spec) {
                v.push((spec, line));
            }
        }
        v.sort();
        v
    }
}

const STMTS: &[&str] = &[
    "x = 1;",
    "uint256 y = 2;",
    "x++;",
    "vm.prank(alice);",
    "assertEq(x, 1, \"must be 1\");",
    "emit Transfer(address(0), to, 1);",
    "revert Bar();",
    "// it should do something",
    "// function test_Commented() external {}",
    "/* } { */",
    "// } unbalanced \" quotes '",
    "string memory s = \"} // not a comment\";",
    "string memory t = \"function test_InString() external {}\";",
    "if (x > 0) {\n    x = 2;\n} else {\n    x = 3;\n}",
    "for (uint256 i = 0; i < 10; i++) {\n    x += i;\n}",
    "while (x < 3) {\n    ++x;\n}",
    "unchecked {\n    ++x;\n}",
    "assembly {\n    let z := 1\n}",
    "(bool ok,) = a.call{value: 1}(\"\");",
    "S memory q = S({a: 1, b: alice});",
    "try this.run() {} catch {}",
    "return;",
    "vm.expectRevert(abi.encodeWithSelector(Foo.Bar.selector, 1));",
    "vm.skip(true);",
    "// été 日本 🦀",
    "bytes memory h = hex\"00ff\";",
    "string memory u = unicode\"é\";",
    "{\n    x = 9;\n}",
    "x = 1; // trailing",
    "_;",
    "uint256 n = 1234_5678;",
    "uint256 o = 1_000e1_0 + 1e18;",
    "uint256 p = 0xFF_ff;",
    "uint256 q = 1.5 ether + 3 days;",
    "(uint256 a,, uint256 b) = f();",
    "delete balances[msg.sender];",
    "Foo foo = new Foo{salt: 0}(1);",
    "x = a > b ? a : b;",
    "emit X({a: 1, b: \"{\"});",
    "do {\n    a--;\n} while (true);",
    "(uint256 r) = abi.decode(data, (uint256));",
    "x = type(uint256).max;",
    "assembly (\"memory-safe\") {\n    switch x\n    case 0 {}\n    default { revert(0, 0) }\n}",
    "x = !a && ~b > 0 || (c ^ d) >> 1 == 2 ** 3;",
    "string memory v = 'it\"s';",
    "string memory w = \"a\" \"b\";",
    "bytes memory i = hex\"DEad\" hex\"00\";",
    "try this.run() returns (uint256 y) {\n    x = y;\n} catch Error(string memory) {} catch (bytes memory) {}",
    "for (;;) {\n    break;\n}",
    "x = xs[1:2][0];",
    "// a line\u{2028}separator and a form\u{c}feed",
    "string memory tabs = \"a\tb  c\t\";",
    "string memory escapes = \"\\t\\n\\\\ \\x41\\u00e9\\\"\";",
    "string memory empty = \"\" \"  \";",
    "// a\ttab",
    "x = $y + _z$0;",
];

fn stmts(g: &mut G) -> String {
    let n = *g.pick(&[0, 1, 1, 2, 3]);
    let mut s = String::new();
    for _ in 0..n {
        let t = *g.pick(STMTS);
        s.push_str("\n    ");
        s.push_str(&t.replace('\n', "\n    "));
    }
    if n > 0 {
        s.push('\n');
    }
    s
}

const LEADS: &[&str] = &[
    "// a note",
    "/// @notice Something documented.",
    "/* block */",
    "// function test_Nope() external {}",
    "// }",
    "// {",
    "//////////////////////////////////",
    "// it's \"quoted\"",
    "// ñandú 日本 🦀",
    "// TODO(x): é",
    "// a\u{2028}separator, a next\u{85}line, a form\u{c}feed",
];

const TRAILS: &[&str] = &["// after", "// }", "/* after */", "// é"];

fn leads(g: &mut G) -> Vec<String> {
    let n = g.weighted(&[7, 2, 1]);
    (0..n).map(|_| g.pick(LEADS).to_string()).collect()
}

fn trail(g: &mut G) -> Option<String> {
    g.chance(1, 8).then(|| g.pick(TRAILS).to_string())
}

/// A specified construct in one of many guises.
pub fn part_text(g: &mut G, p: &Part, plain: bool) -> String {
    let s = part_text_on_one_line(g, p, plain);
    if plain || !g.chance(1, 8) {
        return s;
    }
    // The header may be spread over lines (no comments there: the formatter
    // moves them about, and not always to a place where they stay).
    let (kw, rest) = s.split_once(' ').unwrap();
    format!("{kw}{}{rest}", g.pick(&["\n    ", "\n", "\n\n    ", "  "]))
}

fn part_text_on_one_line(g: &mut G, p: &Part, plain: bool) -> String {
    match p {
        Part::Mod { name, .. } => {
            if plain || g.chance(1, 3) {
                return format!("modifier {name}() {{\n    _;\n}}");
            }
            let params = *g.pick(&["()", "(uint256 a)", "(address a, uint256 b)", "", "(uint256 a, bytes memory b, A.B c, function(uint256) external d, uint256[2][] memory e)"]);
            let attrs = *g.pick(&["", " virtual", " override", " virtual override"]);
            match g.below(4) {
                0 if attrs.contains("virtual") => format!("modifier {name}{params}{attrs};"),
                1 => format!("modifier {name}{params}{attrs} {{\n    require(msg.sender == owner, \"no\");\n    _;\n}}"),
                2 => format!("modifier {name}{params}{attrs} {{\n    _;\n    // after\n    x = 1;\n}}"),
                _ => format!("modifier {name}{params}{attrs} {{\n    _;\n}}"),
            }
        }
        Part::Test(t) => {
            let mut s = format!("function {}", t.name);
            if plain || g.chance(1, 3) {
                s.push_str("() external");
                for m in &t.mods {
                    s.push(' ');
                    s.push_str(m);
                }
                s.push_str(" {\n");
                for c in &t.comments {
                    s.push_str("    // ");
                    s.push_str(c);
                    s.push('\n');
                }
                s.push('}');
                return s;
            }
            s.push_str(*g.pick(&["()", "(uint256 a)", "(address a, bytes calldata b)", "(uint256)", "(uint256 a, bytes memory, A.B calldata c, mapping(address => uint256) storage d, uint256[2][] memory e)"]));
            s.push_str(*g.pick(&[" external", " public", " internal", " private", ""]));
            s.push_str(*g.pick(&["", " view", " pure", " payable"]));
            let virt = *g.pick(&["", " virtual", " override", " virtual override"]);
            s.push_str(virt);
            if g.chance(1, 3) {
                for m in &t.mods {
                    s.push(' ');
                    s.push_str(m);
                }
            }
            s.push_str(*g.pick(&["", " initializer", " only(1, \"a\")"]));
            s.push_str(*g.pick(&["", " returns (uint256)", " returns (bytes memory b, uint256 c)"]));
            if virt.contains("virtual") && g.chance(1, 3) {
                s.push(';');
            } else {
                s.push_str(" {");
                s.push_str(&stmts(g));
                s.push('}');
            }
            s
        }
    }
}

/// A member that isn't specified by the tree. `names` are specified names whose
/// construct kind is `is_mod`; they may only be used for another kind of thing.
pub fn noise_member(g: &mut G, m: &Model, n: usize, missing: &[usize]) -> Member {
    let text = match g.below(25) {
        // A semicolon too many.
        23 => ";".to_owned(),
        19 => format!(
            "{}",
            g.pick(&[
                "uint256 internal amount# = 1234_5678;",
                "string internal tabs# = \"\t \ta  b\";",
                "string internal links# = \"https://x.y//z /* a */ // b\";",
                "uint256 internal $money$# = 1 gwei;",
                "uint256[2][] public pairs# = [1, 2];",
                "mapping(address from => mapping(uint256 id => bool ok)) internal nested#;",
                "function(uint256) external returns (uint256) internal callback#;",
                "bytes32 internal immutable ID#;",
                "string public name# = 'it\"s';",
                "bytes internal data# = hex\"DEad\" hex\"00\";",
                "int256 internal constant LOW# = -1 ** 3;",
            ])
        )
        .replace('#', &n.to_string()),
        20 => format!(
            "{}",
            g.pick(&[
                "using {a, Lib.b} for Pair#;",
                "using Lib# for *;",
                "event Anon#(uint256 indexed a) anonymous;",
                "error NoArguments#();",
                "enum One# {\n    A\n}",
                "struct Deep# {\n    mapping(address => uint256[]) a;\n    function(uint256) external b;\n}",
            ])
        )
        .replace('#', &n.to_string()),
        21 => format!("function over{n}(uint256 a) public pure override(A, B) returns (uint256 b, bool) {{{}}}", stmts(g)),
        22 => format!("modifier guarded{n}(uint256 a) virtual {{\n    if (a > 0) {{\n        _;\n    }}\n}}"),
        0 => format!("uint256 internal v{n};"),
        1 => format!("address constant OWNER{n} = address(0x{:x});", 16 + n),
        2 => format!("mapping(address => uint256) public balances{n};"),
        3 => format!("event Moved{n}(address indexed a, uint256 b);"),
        4 => format!("error Bad{n}(uint256 x);"),
        5 => format!("struct Pair{n} {{\n    uint256 a;\n    address b;\n}}"),
        6 => format!("enum Kind{n} {{\n    A,\n    B\n}}"),
        7 => format!("using Lib{n} for uint256;"),
        8 => format!("constructor() {{{}}}", stmts(g)),
        9 => "receive() external payable {}".to_owned(),
        10 => format!("fallback() external payable {{{}}}", stmts(g)),
        11 => format!("function setUp{n}() public virtual {{{}}}", stmts(g)),
        12 => format!("function helper{n}(uint256 a) internal pure returns (uint256) {{{}}}", stmts(g)),
        13 => format!("function test_Extra{n}() external {{{}}}", stmts(g)),
        14 => format!("modifier extra{n}() {{\n    x = 1;\n    _;\n}}"),
        15 => format!("function abstractHelper{n}(uint256 a) external virtual returns (uint256);"),
        16 => format!("type Price{n} is uint256;"),
        17 => {
            // A string that mentions a specified construct.
            match missing.first() {
                Some(&i) => format!(
                    "string constant S{n} = \"{} {}() {{}}\";",
                    if m.parts[i].is_mod() { "modifier" } else { "function" },
                    m.parts[i].name()
                ),
                None => format!("string constant S{n} = \"}} /* \";"),
            }
        }
        18 => match missing.is_empty() {
            // Another kind of construct with the name of a missing one.
            false => {
                let p = &m.parts[*g.pick(missing)];
                match (p.is_mod(), g.below(4)) {
                    (true, 0) => format!("function {}() internal {{}}", p.name()),
                    (false, 0) => format!("modifier {}() {{\n    _;\n}}", p.name()),
                    (_, 1) => format!("event {}();", p.name()),
                    (_, 2) => format!("uint256 internal {};", p.name()),
                    _ => format!("struct {} {{\n    uint256 a;\n}}", p.name()),
                }
            }
            true => format!("bool internal flag{n} = true;"),
        },
        _ => {
            // A name that is almost a specified one.
            let all: Vec<&str> = m.parts.iter().map(|p| p.name()).collect();
            let base = *g.pick(&all);
            let near = match g.below(11) {
                5 => format!("{base}$"),
                6 => {
                    let at: Vec<usize> = base.char_indices().map(|(i, _)| i).collect();
                    let at = *g.pick(&at);
                    format!("{}{}{}", &base[..at], g.pick(&["$", "_", "é", "0"]), &base[at..])
                }
                7 => base.replace('_', ""),
                8 => base.strip_prefix("test_").unwrap_or(base).to_owned(),
                9 => format!("test{base}"),
                10 => {
                    let k = g.below(base.chars().count());
                    let swap = |c: char| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
                    base.chars().enumerate().map(|(i, c)| if i == k { swap(c) } else { c }).collect()
                }
                0 => format!("{base}x{n}"),
                1 => format!("{base}_"),
                2 => base.to_uppercase(),
                3 => base.chars().take(base.chars().count() - 1).collect(),
                _ => format!("_{base}"),
            };
            if all.contains(&near.as_str()) || crate::sol::is_keyword(&near) || !crate::sol::legal_identifier(&near) {
                format!("function nearly{n}() public {{}}")
            } else if g.chance(1, 3) {
                format!("modifier {near}() {{\n    _;\n}}")
            } else {
                format!("function {near}() public {{{}}}", stmts(g))
            }
        }
    };
    Member { lead: leads(g), text, trail: trail(g), part: None }
}

pub fn comment_about(g: &mut G, m: &Model, missing: &[usize]) -> String {
    match missing.is_empty() {
        false => {
            let p = &m.parts[*g.pick(missing)];
            match g.below(3) {
                0 => format!("// {} {}() external {{}}", if p.is_mod() { "modifier" } else { "function" }, p.name()),
                1 => format!("/* function {}() external {{ _; }} */", p.name()),
                _ => format!("/// function {}() external {{}}", p.name()),
            }
        }
        true => g.pick(LEADS).to_string(),
    }
}

fn pre_item(g: &mut G, m: &Model, n: usize) -> String {
    let any = &m.parts[g.below(m.parts.len())];
    match g.below(13) {
        0 => "// SPDX-License-Identifier: MIT".into(),
        1 => "pragma solidity ^0.8.0;".into(),
        2 => format!("import \"./Dep{n}.sol\";"),
        3 => format!("import {{Dep{n}}} from \"./Dep{n}.sol\";"),
        4 => format!("struct Outer{n} {{\n    uint256 a;\n}}"),
        5 => format!("error OuterError{n}();"),
        6 => format!("uint256 constant OUTER{n} = 1;"),
        7 => format!("function free{n}() pure {{}}"),
        // Not in the contract, so it doesn't count.
        8 if !any.is_mod() => format!("function {}() pure {{}}", any.name()),
        9 => format!("// contract {} {{", m.contract),
        10 => format!("/*\n * contract {} {{}}\n * é\n */", m.contract),
        11 => "// ñ 日本 🦀 // \"".into(),
        _ => format!("/// @title Docs {n}"),
    }
}

fn post_item(g: &mut G, m: &Model, n: usize) -> String {
    let any = &m.parts[g.below(m.parts.len())];
    let kw = if any.is_mod() { "modifier" } else { "function" };
    let vis = if any.is_mod() { "" } else { " external" };
    match g.below(9) {
        7 => ";".into(),
        0 => format!("contract Other{n} {{}}"),
        1 => format!("contract Other{n} {{\n    {kw} {}(){vis} {{\n        _;\n    }}\n}}", any.name()),
        2 => format!("interface IOther{n} {{\n    function go() external;\n}}"),
        3 => format!("library Lib{n} {{\n    function id(uint256 a) internal pure returns (uint256) {{\n        return a;\n    }}\n}}"),
        4 => format!("function freePost{n}() pure {{}}"),
        5 => format!("struct PostStruct{n} {{\n    uint256 a;\n}}"),
        6 => format!("abstract contract Base{n} is Other {{\n    uint256 internal z;\n\n    {kw} {}(){vis} {{\n        _;\n    }}\n}}", any.name()),
        _ => "// the end".into(),
    }
}

#[derive(Clone, Copy, Default)]
pub struct SolCfg {
    /// Percent chance of leaving a construct out.
    pub drop: usize,
    /// 0: in order; 1: maybe some swaps; 2: any permutation
    pub shuffle: usize,
    /// How many members of the user's own at most.
    pub noise: usize,
    pub rename: bool,
    pub plain: bool,
    /// Presentation only the formatter undoes.
    pub style: bool,
    pub outside: bool,
}

pub fn gen_sol(g: &mut G, m: &Model, cfg: SolCfg) -> SolFile {
    let n = m.parts.len();
    let mut order: Vec<usize> = (0..n).collect();
    if cfg.drop > 0 {
        let d = *g.pick(&[0, cfg.drop, cfg.drop, 100 - cfg.drop / 2, 100]);
        order.retain(|_| !g.chance(d.min(100), 100));
    }
    match cfg.shuffle {
        0 => {}
        _ if order.len() < 2 => {}
        k => match g.weighted(&[1, 2, if k > 1 { 2 } else { 0 }]) {
            0 => {}
            1 => {
                for _ in 0..g.range(1, 2) {
                    let a = g.below(order.len());
                    let x = order.remove(a);
                    let b = g.below(order.len() + 1);
                    order.insert(b, x);
                }
            }
            _ => {
                let p = g.permutation(order.len());
                order = p.iter().map(|&i| order[i]).collect();
            }
        },
    }
    let missing: Vec<usize> = (0..n).filter(|i| !order.contains(i)).collect();
    let mut members: Vec<Member> = vec![];
    for i in order {
        members.push(Member {
            lead: if cfg.plain { vec![] } else { leads(g) },
            text: part_text(g, &m.parts[i], cfg.plain),
            trail: if cfg.plain { None } else { trail(g) },
            part: Some(i),
        });
    }
    // Numbers of members that don't fit in a small counter.
    let max = if cfg.noise > 0 && g.chance(1, 50) { *g.pick(&[40, 70, 300]) } else { cfg.noise };
    add_noise(g, m, &mut members, max, &missing);
    if cfg.noise > 0 && g.chance(1, 5) {
        add_overloads(g, m, &mut members);
    }
    let mut f = SolFile {
        pre: vec!["// SPDX-License-Identifier: UNLICENSED".into(), "pragma solidity 0.8.0;".into(), String::new()],
        kw: "contract".into(),
        name: m.contract.clone(),
        bases: String::new(),
        members,
        last: None,
        post: vec![],
        spacing: 0,
        indent: 4,
        crlf: false,
        brace_nl: false,
        lead_blank: 0,
        final_nl: true,
        tight: false,
    };
    if cfg.noise > 0 {
        if g.chance(1, 4) {
            f.last = Some(comment_about(g, m, &missing));
        }
        f.kw = g.pick(&["contract", "contract", "contract", "abstract contract"]).to_string();
        f.bases = g
            .pick(&["", "", "", " is Test", " is Test, Base(1)", " is Base(S({a: 1, b: 2}))", " is Base(\"{\")",
                " is Test, Base(S({a: 1, b: 2})), Other(\"{\")", " is One, Two(S({a: 1, b: 2}))",
                " /* { */", " // a { comment", " is /* {} */ Test"])
            .to_string();
    }
    if cfg.rename && g.chance(1, 3) {
        f.name = match g.below(9) {
            4 => format!("{}$", m.contract),
            5 => format!("${}", m.contract),
            6 => m.contract.replace('_', ""),
            7 => m.contract.chars().take(m.contract.chars().count() - 1).collect(),
            8 => format!("{}Test", m.contract),
            0 => format!("{}2", m.contract),
            1 => "Wrong".into(),
            2 => m.contract.to_lowercase(),
            _ => format!("_{}", m.contract),
        };
        if !crate::sol::legal_identifier(&f.name) {
            f.name = "Wrong".into();
        }
    }
    if cfg.outside {
        // Nothing at all before the contract.
        if g.chance(1, 12) {
            f.pre.clear();
        }
        add_outside(g, m, &mut f);
    }
    if cfg.style {
        f.spacing = *g.pick(&[0, 1, 2, 3]);
        f.indent = *g.pick(&[4, 0, 1, 2, 8]);
        f.crlf = g.chance(1, 5);
        f.brace_nl = g.chance(1, 4);
        f.lead_blank = if g.chance(1, 40) { 300 } else { *g.pick(&[0, 0, 1, 3]) };
        f.final_nl = !g.chance(1, 4);
        f.tight = g.chance(1, 6);
        if g.chance(1, 10) {
            f.kw.push('\n');
        }
    }
    f
}

pub fn add_noise(g: &mut G, m: &Model, members: &mut Vec<Member>, max: usize, missing: &[usize]) {
    let k = g.below(max + 1);
    let mut names: Vec<String> = vec![];
    for i in 0..k {
        let mut x = noise_member(g, m, i, missing);
        if g.chance(1, 5) {
            let c = comment_about(g, m, missing);
            x.lead.push(c);
        }
        // At most one of each singleton, and no name twice.
        let key = x.text.split(['(', ';', '{', '=']).next().unwrap().split_whitespace().last().unwrap_or("").to_owned();
        if names.contains(&key) {
            continue;
        }
        names.push(key);
        let at = g.below(members.len() + 1);
        members.insert(at, x);
    }
}

/// Overloads of specified tests, each right after the test.
pub fn add_overloads(g: &mut G, m: &Model, members: &mut Vec<Member>) {
    let mut i = 0;
    while i < members.len() {
        if let Some(Part::Test(t)) = members[i].part.map(|p| &m.parts[p]) {
            if g.chance(1, 3) {
                let text = format!("function {}(bytes32 z, int8 y) public {{{}}}", t.name, stmts(g));
                members.insert(i + 1, Member { lead: leads(g), text, trail: trail(g), part: None });
                i += 1;
            }
        }
        i += 1;
    }
}

pub fn add_outside(g: &mut G, m: &Model, f: &mut SolFile) {
    for i in 0..g.range(0, 3) {
        let p = pre_item(g, m, i);
        if !f.pre.contains(&p) {
            let at = g.below(f.pre.len() + 1);
            f.pre.insert(at, p);
        }
    }
    for i in 0..g.range(0, 2) {
        f.post.push(post_item(g, m, i));
    }
}
