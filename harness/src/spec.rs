//! Abstract trees, their rendering as `.tree` text under many layouts, and the
//! reference model of what they specify.

use std::collections::HashSet;

use serde::{Deserialize, Serialize};
use unicode_xid::UnicodeXID;

use crate::engine::G;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Node {
    Cond(Cond),
    Act(Act),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cond {
    pub kw: String,
    pub words: Vec<String>,
    pub kids: Vec<Node>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Act {
    pub kw: String,
    pub words: Vec<String>,
    pub descs: Vec<Desc>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Desc {
    pub words: Vec<String>,
    pub kids: Vec<Desc>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tree {
    pub contract: String,
    pub func: Option<String>,
    pub kids: Vec<Node>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Spec {
    pub trees: Vec<Tree>,
}

impl Tree {
    pub fn root(&self) -> String {
        match &self.func {
            Some(f) => format!("{}::{f}", self.contract),
            None => self.contract.clone(),
        }
    }
}

impl Cond {
    pub fn title(&self) -> String {
        join(&self.kw, &self.words)
    }
    pub fn branching(&self) -> bool {
        self.kids.iter().any(|k| matches!(k, Node::Cond(_)))
    }
    pub fn has_actions(&self) -> bool {
        self.kids.iter().any(|k| matches!(k, Node::Act(_)))
    }
}

impl Act {
    pub fn title(&self) -> String {
        join(&self.kw, &self.words)
    }
}

fn join(kw: &str, words: &[String]) -> String {
    let mut s = kw.to_owned();
    for w in words {
        s.push(' ');
        s.push_str(w);
    }
    s
}

impl Spec {
    pub fn nodes(&self) -> usize {
        fn n(k: &[Node]) -> usize {
            k.iter()
                .map(|k| match k {
                    Node::Cond(c) => 1 + n(&c.kids),
                    Node::Act(a) => 1 + d(&a.descs),
                })
                .sum()
        }
        fn d(k: &[Desc]) -> usize {
            k.iter().map(|k| 1 + d(&k.kids)).sum()
        }
        self.trees.iter().map(|t| n(&t.kids)).sum()
    }
    pub fn depth(&self) -> usize {
        fn n(k: &[Node]) -> usize {
            k.iter()
                .map(|k| match k {
                    Node::Cond(c) => 1 + n(&c.kids),
                    Node::Act(_) => 1,
                })
                .max()
                .unwrap_or(0)
        }
        self.trees.iter().map(|t| n(&t.kids)).max().unwrap_or(0)
    }
    pub fn has_descs(&self) -> bool {
        fn n(k: &[Node]) -> bool {
            k.iter().any(|k| match k {
                Node::Cond(c) => n(&c.kids),
                Node::Act(a) => !a.descs.is_empty(),
            })
        }
        self.trees.iter().any(|t| n(&t.kids))
    }
    pub fn each_cond<'a>(&'a self, f: &mut dyn FnMut(&'a Cond)) {
        fn n<'a>(k: &'a [Node], f: &mut dyn FnMut(&'a Cond)) {
            for k in k {
                if let Node::Cond(c) = k {
                    f(c);
                    n(&c.kids, f);
                }
            }
        }
        for t in &self.trees {
            n(&t.kids, f);
        }
    }
}

// ------------------------------------------------------------ name mangling

pub fn upper_first(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}

pub fn lower_first(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_lowercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}

/// Hyphens become underscores, everything that cannot be part of an identifier
/// goes away; blanks stay.
pub fn sanitize(s: &str) -> String {
    s.chars()
        .map(|c| if c == '-' { '_' } else { c })
        .filter(|&c| c == ' ' || UnicodeXID::is_xid_continue(c))
        .collect()
}

pub fn pascal(s: &str) -> String {
    s.split_whitespace().map(upper_first).collect()
}

pub fn modifier_name(c: &Cond) -> String {
    lower_first(&pascal(&sanitize(&c.title())))
}

pub fn reverts(a: &Act) -> bool {
    sanitize(a.title().to_lowercase().trim()) == "it should revert"
}

/// Name of the test of a condition, given its first action.
pub fn cond_test_suffix(c: &Cond, first: &Act) -> String {
    let title = sanitize(&c.title());
    let mut words = title.split_whitespace();
    let kw = upper_first(words.next().unwrap_or(""));
    let rest: String = words.map(upper_first).collect();
    if reverts(first) {
        format!("Revert{kw}_{rest}")
    } else {
        format!("{kw}{rest}")
    }
}

pub fn action_test_suffix(a: &Act) -> String {
    sanitize(&a.words.iter().map(|w| upper_first(w)).collect::<String>())
}

// ------------------------------------------------------------------ layout

/// How a spec is written down. All zero/false is the plainest layout.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Layout {
    /// Column offset of the top-level branches.
    pub top: usize,
    /// How much further right children are, minus one, cycled by depth.
    pub steps: Vec<usize>,
    pub dashes: usize,
    /// Extra blanks between the branch and the keyword.
    pub pad: usize,
    pub no_bars: bool,
    pub crlf: bool,
    pub lead_blank: usize,
    /// Extra blank lines between trees.
    pub gap: usize,
    pub tail: usize,
    /// 0: no local noise; otherwise the seed of small local variations
    /// (comments, trailing blanks, extra blanks between words).
    pub noise: u64,
    /// Comment-only blocks before and between trees.
    pub comment_blocks: bool,
    pub root_indent: usize,
    /// Later siblings may start further left than earlier ones.
    #[serde(default)]
    pub ragged: bool,
    /// Other white space than blanks between words.
    #[serde(default)]
    pub odd_space: bool,
    /// Blank lines contain blanks.
    #[serde(default)]
    pub blank_ws: bool,
    /// Tabs instead of blanks wherever there is indentation.
    #[serde(default)]
    pub tabs: bool,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout { steps: vec![3], dashes: 2, pad: 1, tail: 1, ..Default::default() }
    }
}

pub fn gen_layout(g: &mut G) -> Layout {
    if g.chance(1, 4) {
        return Layout::plain();
    }
    let nsteps = g.range(1, 3);
    // Numbers that don't fit in a byte.
    let far = g.chance(1, 60);
    Layout {
        top: if far && g.chance(1, 2) { *g.pick(&[300, 300, 1100]) } else { *g.pick(&[0, 0, 1, 2, 4, 9]) },
        steps: (0..nsteps).map(|_| *g.pick(&[3, 2, 0, 1, 4, 7])).collect(),
        dashes: *g.pick(&[2, 1, 0, 3, 8]),
        pad: *g.pick(&[1, 0, 2, 5]),
        no_bars: g.chance(1, 4),
        crlf: g.chance(1, 4),
        lead_blank: if far { 300 } else { *g.pick(&[0, 0, 1, 2, 3]) },
        gap: *g.pick(&[0, 0, 1, 2, 3]),
        tail: *g.pick(&[1, 0, 2, 3]),
        noise: if g.chance(1, 2) { 1 + g.below(1_000_000) as u64 } else { 0 },
        comment_blocks: g.chance(1, 5),
        root_indent: *g.pick(&[0, 0, 0, 2]),
        ragged: g.chance(1, 6),
        odd_space: g.chance(1, 6),
        blank_ws: g.chance(1, 6),
        tabs: g.chance(1, 12),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub text: String,
    /// (line, column) of every node in pre-order: the root, then for every
    /// condition, action and description the position of its branch.
    pub pos: Vec<(usize, usize)>,
    /// (line, column) of the keyword / first word of the same nodes.
    pub word_pos: Vec<(usize, usize)>,
    /// Byte offsets of the same nodes: where they start, and where the last
    /// character of their own text is.
    pub offsets: Vec<(usize, usize)>,
}

struct Noise {
    seed: u64,
    n: u64,
}

impl Noise {
    fn below(&mut self, n: u64) -> u64 {
        if self.seed == 0 {
            return u64::MAX;
        }
        self.n += 1;
        crate::engine::hash_bytes(format!("{}:{}", self.seed, self.n).as_bytes()) % n
    }
}

const COMMENTS: &[&str] = &[
    "// a comment",
    "//",
    "//no blank",
    "// ├── when this is a comment",
    "// └── it is not a rule",
    "// Foo::bar",
    "// it's \"quoted\" // twice",
    "/// ünïcode 日本",
    "// {",
    "// Foo \u{2028} Bar",
    "// not a\u{85}line \u{b}\u{c} break",
    "// tab\tand /* block */ ├ │",
];

/// Whitespace that doesn't end a line.
const BLANKS: &[char] = &[
    '\t', '\u{a0}', '\u{3000}', '\u{2028}', '\u{2029}', '\u{b}', '\u{c}', '\u{85}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{2009}',
    '\u{202f}', '\u{205f}',
];

struct Out<'a> {
    lay: &'a Layout,
    noise: Noise,
    r: Rendered,
    line: usize,
    nl: &'static str,
}

impl Out<'_> {
    fn newline(&mut self) {
        self.r.text.push_str(self.nl);
        self.line += 1;
    }
    fn blank(&mut self) {
        if self.lay.blank_ws {
            self.r.text.push_str(["", "  ", "\t", " \t ", "\u{a0}"][self.line % 5]);
        }
        self.newline();
    }
    /// Text from the keyword on, with trailing noise.
    fn words(&mut self, first: &str, rest: &[String]) {
        if self.r.offsets.len() < self.r.pos.len() {
            // A root, which has no branch.
            self.r.offsets.push((self.r.text.len(), 0));
        }
        self.r.text.push_str(first);
        for w in rest {
            // Blanks of any kind separate words.
            if self.lay.odd_space && self.noise.below(6) == 0 {
                self.r.text.push(BLANKS[self.noise.below(BLANKS.len() as u64) as usize]);
            } else {
                self.r.text.push(' ');
            }
            for _ in 0..(if self.noise.below(9) == 0 { 1 + self.noise.below(3) } else { 0 }) {
                let c = if self.lay.odd_space && self.noise.below(2) == 0 {
                    BLANKS[self.noise.below(BLANKS.len() as u64) as usize]
                } else {
                    ' '
                };
                self.r.text.push(c);
            }
            self.r.text.push_str(w);
        }
        let end = self.r.text.char_indices().next_back().map_or(0, |c| c.0);
        self.r.offsets.last_mut().unwrap().1 = end;
        match self.noise.below(12) {
            0 => self.r.text.push_str("  "),
            1 => self.r.text.push('\t'),
            2 | 3 => {
                let c = COMMENTS[self.noise.below(COMMENTS.len() as u64) as usize];
                self.r.text.push(' ');
                self.r.text.push_str(c);
            }
            _ => {}
        }
    }
    fn comment_line(&mut self) {
        if self.noise.below(10) == 0 {
            for _ in 0..self.noise.below(6) {
                self.r.text.push(' ');
            }
            let c = COMMENTS[self.noise.below(COMMENTS.len() as u64) as usize];
            self.r.text.push_str(c);
            self.newline();
        }
    }
    /// One column of indentation. Like any other character, a tab takes one.
    fn indent(&mut self) {
        let tab = self.lay.tabs && self.noise.below(3) != 0;
        self.r.text.push(if tab { '\t' } else { ' ' });
    }
    /// `bars[i]`: column of an ancestor branch, and whether siblings follow it.
    fn branch(&mut self, bars: &[(usize, bool)], col: usize, last: bool) {
        let mut cur = 1;
        for &(c, more) in bars {
            while cur < c {
                self.indent();
                cur += 1;
            }
            if cur < col {
                match more && !self.lay.no_bars && (!self.lay.tabs || self.noise.below(2) == 0) {
                    true => self.r.text.push('│'),
                    false => self.indent(),
                }
                cur += 1;
            }
        }
        while cur < col {
            self.indent();
            cur += 1;
        }
        self.r.pos.push((self.line, col));
        self.r.offsets.push((self.r.text.len(), 0));
        self.r.text.push(if last { '└' } else { '├' });
        for _ in 0..self.lay.dashes {
            self.r.text.push('─');
        }
        for _ in 0..self.lay.pad {
            self.indent();
        }
        self.r.word_pos.push((self.line, col + 1 + self.lay.dashes + self.lay.pad));
    }
    fn step(&self, depth: usize) -> usize {
        let s = &self.lay.steps;
        1 + if s.is_empty() { 3 } else { s[depth % s.len()] }
    }
    /// Column of a sibling that follows one at `col`.
    fn ragged(&mut self, col: usize, bars: &[(usize, bool)], first: bool) -> usize {
        let min = bars.last().map_or(0, |b| b.0) + 1;
        if first || !self.lay.ragged || self.noise.below(3) != 0 {
            return col;
        }
        col - self.noise.below((col - min + 1) as u64) as usize
    }
    fn nodes(&mut self, kids: &[Node], mut col: usize, depth: usize, bars: &mut Vec<(usize, bool)>) {
        for (i, k) in kids.iter().enumerate() {
            col = self.ragged(col, bars, i == 0);
            let last = i + 1 == kids.len();
            self.newline();
            self.comment_line();
            self.branch(bars, col, last);
            match k {
                Node::Cond(c) => {
                    self.words(&c.kw, &c.words);
                    bars.push((col, !last));
                    let st = self.step(depth);
                    self.nodes(&c.kids, col + st, depth + 1, bars);
                    bars.pop();
                }
                Node::Act(a) => {
                    self.words(&a.kw, &a.words);
                    bars.push((col, !last));
                    let st = self.step(depth);
                    self.descs(&a.descs, col + st, depth + 1, bars);
                    bars.pop();
                }
            }
        }
    }
    fn descs(&mut self, kids: &[Desc], mut col: usize, depth: usize, bars: &mut Vec<(usize, bool)>) {
        for (i, d) in kids.iter().enumerate() {
            col = self.ragged(col, bars, i == 0);
            let last = i + 1 == kids.len();
            self.newline();
            self.comment_line();
            self.branch(bars, col, last);
            self.words(&d.words[0], &d.words[1..]);
            bars.push((col, !last));
            let st = self.step(depth);
            self.descs(&d.kids, col + st, depth + 1, bars);
            bars.pop();
        }
    }
}

pub fn render(spec: &Spec, lay: &Layout) -> Rendered {
    let mut o = Out {
        lay,
        noise: Noise { seed: lay.noise, n: 0 },
        r: Rendered::default(),
        line: 1,
        nl: if lay.crlf { "\r\n" } else { "\n" },
    };
    for _ in 0..lay.lead_blank {
        o.blank();
    }
    for (i, t) in spec.trees.iter().enumerate() {
        if i > 0 {
            o.newline();
            o.blank();
            for _ in 0..lay.gap {
                o.blank();
            }
        }
        if lay.comment_blocks {
            for n in 0..1 + o.noise.below(3).min(2) {
                let k = o.noise.below(COMMENTS.len() as u64 + 2);
                let c = match COMMENTS.get(k as usize) {
                    Some(c) => c,
                    None if n == 0 => "// a block of",
                    None => "  // comments",
                };
                o.r.text.push_str(c);
                o.newline();
            }
            o.blank();
        }
        o.comment_line();
        for _ in 0..lay.root_indent {
            o.r.text.push(' ');
        }
        o.r.pos.push((o.line, 1 + lay.root_indent));
        o.r.word_pos.push((o.line, 1 + lay.root_indent));
        o.words(&t.root(), &[]);
        o.nodes(&t.kids, 1 + lay.top, 0, &mut vec![]);
    }
    for _ in 0..lay.tail {
        o.blank();
    }
    o.r
}

// ------------------------------------------------------------------- model

#[derive(Clone, Debug, PartialEq)]
pub struct MTest {
    pub name: String,
    pub mods: Vec<String>,
    /// Texts of the comments, without `// `.
    pub comments: Vec<String>,
    pub line: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Mod { name: String, line: usize },
    Test(MTest),
}

impl Part {
    pub fn name(&self) -> &str {
        match self {
            Part::Mod { name, .. } => name,
            Part::Test(t) => &t.name,
        }
    }
    pub fn line(&self) -> usize {
        match self {
            Part::Mod { line, .. } => *line,
            Part::Test(t) => t.line,
        }
    }
    pub fn is_mod(&self) -> bool {
        matches!(self, Part::Mod { .. })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub contract: String,
    pub parts: Vec<Part>,
}

struct Walk<'a> {
    r: &'a Rendered,
    id: usize,
    parts: Vec<Part>,
    prefix: String,
}

impl Walk<'_> {
    fn act(&mut self, a: &Act) -> Vec<String> {
        let me = self.id;
        self.id += 1;
        let mut v = vec![a.title()];
        self.descs(&a.descs, self.r.pos[me].1, &mut v);
        v
    }
    fn descs(&mut self, ds: &[Desc], col: usize, v: &mut Vec<String>) {
        for d in ds {
            let me = self.id;
            self.id += 1;
            let delta = self.r.pos[me].1 - col;
            v.push(format!("{}{}", " ".repeat(delta), d.words.join(" ")));
            self.descs(&d.kids, col, v);
        }
    }
    fn cond(&mut self, c: &Cond, stack: &mut Vec<String>) {
        let line = self.r.pos[self.id].0;
        self.id += 1;
        let branching = c.branching();
        if branching {
            let name = modifier_name(c);
            self.parts.push(Part::Mod { name: name.clone(), line });
            stack.push(name);
        }
        // Reserve the place of this condition's own test before the nested
        // conditions, which may come first in the text.
        let at = self.parts.len();
        let mut comments = vec![];
        let mut first: Option<&Act> = None;
        for k in &c.kids {
            match k {
                Node::Act(a) => {
                    first.get_or_insert(a);
                    comments.extend(self.act(a));
                }
                Node::Cond(n) => self.cond(n, stack),
            }
        }
        if let Some(f) = first {
            self.parts.insert(
                at,
                Part::Test(MTest {
                    name: format!("test_{}{}", self.prefix, cond_test_suffix(c, f)),
                    mods: stack.clone(),
                    comments,
                    line,
                }),
            );
        }
        if branching {
            stack.pop();
        }
    }
}

/// What the trees specify: the reference model of the whole front end.
pub fn model(spec: &Spec, r: &Rendered) -> Model {
    let multi = spec.trees.len() > 1;
    let mut w = Walk { r, id: 0, parts: vec![], prefix: String::new() };
    for t in &spec.trees {
        w.prefix = match (&t.func, multi) {
            (Some(f), true) => upper_first(&sanitize(f)),
            _ => String::new(),
        };
        w.id += 1;
        for k in &t.kids {
            match k {
                Node::Cond(c) => w.cond(c, &mut vec![]),
                Node::Act(a) => {
                    let line = w.r.pos[w.id].0;
                    let comments = w.act(a);
                    let name = format!("test_{}{}", w.prefix, action_test_suffix(a));
                    w.parts.push(Part::Test(MTest { name, mods: vec![], comments, line }));
                }
            }
        }
    }
    // A modifier shared by several trees is defined once.
    let mut seen = HashSet::new();
    w.parts.retain(|p| !p.is_mod() || seen.insert(p.name().to_owned()));
    let root = if multi { spec.trees[0].contract.clone() } else { spec.trees[0].root() };
    Model { contract: sanitize(&root), parts: w.parts }
}

impl Model {
    /// The names of the contract's functions and modifiers are all different.
    pub fn unique(&self) -> bool {
        let mut s = HashSet::new();
        self.parts.iter().all(|p| s.insert(p.name()))
    }
    /// The first test that has the name of an earlier one.
    pub fn repeated(&self) -> Option<&MTest> {
        let mut s = HashSet::new();
        self.tests().find(|t| !s.insert(&t.name))
    }
    pub fn tests(&self) -> impl Iterator<Item = &MTest> {
        self.parts.iter().filter_map(|p| match p {
            Part::Test(t) => Some(t),
            _ => None,
        })
    }
    pub fn mods(&self) -> impl Iterator<Item = &str> {
        self.parts.iter().filter(|p| p.is_mod()).map(|p| p.name())
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Opts {
    pub vm_skip: bool,
    pub skip_mods: bool,
    pub version: Option<String>,
}

impl Opts {
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if self.vm_skip {
            v.push("-S".to_owned());
        }
        if self.skip_mods {
            v.push("-m".to_owned());
        }
        if let Some(s) = &self.version {
            v.push("-s".to_owned());
            v.push(s.clone());
        }
        v
    }
}

pub const DEFAULT_VERSION: &str = "0.8.0";

pub fn source_of_part(p: &Part, vm_skip: bool) -> String {
    match p {
        Part::Mod { name, .. } => format!("    modifier {name}() {{\n        _;\n    }}\n"),
        Part::Test(t) => {
            let mut s = format!("    function {}() external", t.name);
            for m in &t.mods {
                s.push(' ');
                s.push_str(m);
            }
            s.push_str(" {\n");
            for c in &t.comments {
                s.push_str("        // ");
                s.push_str(c);
                s.push('\n');
            }
            if vm_skip {
                s.push_str("        vm.skip(true);\n");
            }
            s.push_str("    }\n");
            s
        }
    }
}

/// The Solidity text the model prescribes, up to white space.
pub fn source_of(m: &Model, o: &Opts) -> String {
    let mut s = format!(
        "// SPDX-License-Identifier: UNLICENSED\npragma solidity {};\n",
        o.version.as_deref().unwrap_or(DEFAULT_VERSION)
    );
    if o.vm_skip {
        s.push_str("import {Test} from \"forge-std/Test.sol\";\n");
    }
    s.push_str(&format!("contract {}{} {{\n", m.contract, if o.vm_skip { " is Test" } else { "" }));
    for p in &m.parts {
        if o.skip_mods && p.is_mod() {
            continue;
        }
        s.push_str(&source_of_part(p, o.vm_skip));
    }
    s.push_str("}\n");
    s
}

// -------------------------------------------------------------- generators

const PLAIN: &[&str] = &[
    "a", "foo", "bar", "the", "sender", "stream", "is", "not", "called", "owner", "transfers", "value",
    "x", "y", "zero", "caller", "status", "id", "does", "exist",
];
const COND_ODD: &[&str] = &[
    "don't", "it's", "\"quoted\"", "foo-bar", "snake_case", "camelCase", "ALLCAPS", "UPPERlower", "1", "42nd",
    "2-fold", "-", "--", "_", "'", "a'b\"c", "when", "given", "it", "IT", "When", "test_", "test", "revert",
    "Revert", "été", "naïve", "ßtraße", "λ", "Ωmega", "日本", "x1", "-lead", "trail-", "_lead", "ETH", "i18n",
    "ǆ", "²", "Éa", "𝒳y", "𐐨a", "mapping", "contract", "function",
];
const ACT_ODD: &[&str] = &[
    "don't", "it's", "\"quoted\"", "foo-bar", "snake_case", "camelCase", "ALLCAPS", "1", "42nd", "-", "_", "'",
    "`keccak256(abi.encodePacked(a,b))`.", "\"", "\\", "back\\slash", "\\n", "\\\"", "*/", "/*", "/", "a//b",
    "http://x.y/z", "{", "}", "};", ";", "(", ")", "()", "$1", "${1}", "$0", "%s", "{}", "#", "when", "given",
    "it", "It", "WHEN", "été", "日本", "🦀", "—", "…", "<b>", "&amp;", "@dev", "@param", "string",
    "__bulloak_comment__", "=", "\";", "\"x\";", "vm.skip(true);", "_;", "function", "modifier", "revert",
    "should", "Should", "x,y", "a.", "a:", "a!", "a?", "[x]", "a├b", "a└", "x│", "~", "^", "|", "unicode\"é\"",
    "hex\"00\"", "0x1234", "1e18", "a\u{301}", "test_", "λ", "ßx", "===", "->", "=>", "'a", "(b", "SPDX-License-Identifier:",
];

/// Text that would mean something if it were code.
const PHRASES: &[&str] = &[
    "pragma solidity 0.8.0;", "pragma solidity ^0.7.0", "// SPDX-License-Identifier: MIT", "import {Test} from \"forge-std/Test.sol\";",
    "contract Foo is Test {", "contract Foo {}", "is Test", "modifier whenSomething() { _; }", "modifier onlyOwner()", "vm.skip(true);",
    "function test_Something() external {}", "external whenSomething", "function setUp() public virtual override", "_;", "} // end",
    "string __bulloak_comment__ = \"x\";", "string __bulloak_comment__", "BULLOAK AUTOGENERATED SEPARATOR",
    "==================== BULLOAK AUTOGENERATED SEPARATOR ====================", "assembly { revert(0, 0) }", "unchecked { x++; }",
    "TODO: write this test", "FIXME", "Foo::bar", "see Foo.t.sol or Foo.tree", "line 3, column 4", "warn: this", "--force-write",
];

/// A text made of one of the phrases.
fn phrase(g: &mut G) -> Vec<String> {
    g.pick(PHRASES).split(' ').map(str::to_owned).collect()
}

pub fn gen_kw(g: &mut G, base: &str) -> String {
    match g.weighted(&[10, 6, 1, 1]) {
        0 => base.to_owned(),
        1 => upper_first(base),
        2 => base.to_uppercase(),
        _ => base
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c })
            .collect(),
    }
}

fn gen_ident_word(g: &mut G) -> String {
    let n = g.range(1, 8);
    let cs: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-'\"éλñ".chars().collect();
    (0..n).map(|_| *g.pick(&cs)).collect()
}

fn gen_any_word(g: &mut G) -> String {
    let n = g.range(1, 8);
    let cs: Vec<char> =
        "abcxyzABC019_-'\"\\/*{}()[];:,.!?@#$%^&=+<>~`|éλñ日🦀├│─".chars().collect();
    let s: String = (0..n).map(|_| *g.pick(&cs)).collect();
    if ok_text_word(&s) {
        s
    } else {
        format!("w{s}")
    }
}

/// Whether a word of free text reaches the parser as it is.
pub fn ok_text_word(s: &str) -> bool {
    !(s.is_empty() || s.starts_with("//") || s.starts_with(['├', '└', '│', '─']))
}

/// A word with a meaning somewhere, in any case.
fn known_word(g: &mut G) -> String {
    let w = *g.pick(&[
        "when", "given", "it", "should", "revert", "reverts", "test", "then", "and", "not", "the", "because", "skip", "contract", "modifier",
        "function", "external", "sender", "true",
    ]);
    gen_kw(g, w)
}

fn cond_word(g: &mut G, odd: usize) -> String {
    match g.weighted(&[100 - odd, odd * 2 / 3, odd / 3, odd / 4]) {
        3 => known_word(g),
        0 => g.pick(PLAIN).to_string(),
        1 => g.pick(COND_ODD).to_string(),
        _ => gen_ident_word(g),
    }
}

fn text_word(g: &mut G, odd: usize) -> String {
    match g.weighted(&[100 - odd, odd * 2 / 3, odd / 3, odd / 4]) {
        3 => known_word(g),
        0 => g.pick(PLAIN).to_string(),
        1 => g.pick(ACT_ODD).to_string(),
        _ => gen_any_word(g),
    }
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    pub max_depth: usize,
    pub max_kids: usize,
    /// Percentage of odd words.
    pub odd: usize,
    pub descs: bool,
    pub max_trees: usize,
    pub min_trees: usize,
}

impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { max_depth: 4, max_kids: 4, odd: 25, descs: true, max_trees: 3, min_trees: 1 }
    }
}

pub struct SpecGen<'g> {
    pub g: &'g mut G,
    pub cfg: GenCfg,
    /// Modifier names and action names of the current tree.
    used: HashSet<String>,
    counter: usize,
    /// Condition titles of earlier trees, to be shared.
    titles: Vec<(String, Vec<String>)>,
    budget: usize,
    big: Big,
}

/// A spec with `n` conditions that follow each other, whose tree file takes
/// more than `200 * n` bytes.
pub fn giant(n: usize) -> Spec {
    let words = |s: &str| s.split(' ').map(str::to_owned).collect::<Vec<_>>();
    let kids = (0..n)
        .map(|i| {
            let mut w = words("something out of the ordinary happens to the account of the sender");
            w.push(format!("no{i}"));
            let act = |s: &str| Node::Act(Act { kw: "it".into(), words: words(s), descs: vec![] });
            let mut kids = vec![act("does whatever has to be done about it in this case"), act("emits an event that says as much")];
            if i % 3 == 0 {
                let deeper = words("another thing happens as well");
                let kids2 = vec![act("should revert")];
                kids.push(Node::Cond(Cond { kw: "given".into(), words: [deeper, vec![format!("no{i}")]].concat(), kids: kids2 }));
            }
            Node::Cond(Cond { kw: "when".into(), words: w, kids })
        })
        .collect();
    Spec { trees: vec![Tree { contract: "Giant".into(), func: None, kids }] }
}

/// A spec whose texts and names are longer than `n` bytes.
pub fn verbose(n: usize) -> Spec {
    let w = |s: &str| s.to_owned();
    let sentence = |last: &str| {
        let mut v: Vec<String> = (0..n / 12).map(|i| format!("word{i}")).collect();
        v.push(w(last));
        v
    };
    let act = |words: Vec<String>, descs: Vec<Vec<String>>| {
        Node::Act(Act { kw: "it".into(), words, descs: descs.into_iter().map(|words| Desc { words, kids: vec![] }).collect() })
    };
    let cond = |words: Vec<String>, kids| Node::Cond(Cond { kw: "when".into(), words, kids });
    let inner = cond(
        sentence("inner"),
        vec![act(vec!["é".repeat(n)], vec![sentence("description"), vec!["x".repeat(n)]]), act(vec![w("should"), w("revert")], vec![])],
    );
    let kids = vec![
        act(vec!["y".repeat(n), w("once")], vec![]),
        act(vec!["y".repeat(n), w("twice")], vec![]),
        cond(sentence("outer"), vec![act(vec![w("works")], vec![]), inner]),
        act(sentence("last"), vec![]),
    ];
    Spec { trees: vec![Tree { contract: "Verbose".repeat(n / 7), func: None, kids }] }
}

/// Layouts that start where numbers of 8, 10, 12 or 16 bits don't reach.
pub fn far_layouts() -> Vec<Layout> {
    let p = Layout::plain();
    vec![
        Layout { lead_blank: 70_000, ..p.clone() },
        Layout { lead_blank: 70_000, noise: 7, crlf: true, ..p.clone() },
        Layout { top: 1100, ..p.clone() },
        Layout { top: 5000, lead_blank: 5000, ..p.clone() },
        Layout { top: 70_000, ..p.clone() },
        Layout { steps: vec![300], dashes: 270, pad: 260, ..p },
    ]
}

/// One dimension in which a spec is much larger than usual.
#[derive(Clone, Copy, PartialEq)]
enum Big {
    No,
    Deep,
    Wide,
    Trees,
    Titles,
    Descs,
    Huge,
    HugeCond,
}

impl<'g> SpecGen<'g> {
    pub fn new(g: &'g mut G, cfg: GenCfg) -> Self {
        SpecGen { g, cfg, used: HashSet::new(), counter: 0, titles: vec![], budget: 60, big: Big::No }
    }

    pub fn act(&mut self) -> Act {
        let kw = gen_kw(self.g, "it");
        if self.g.chance(1, 6) {
            let ws: &[&[&str]] = &[
                &["should", "revert"],
                &["should", "revert."],
                &["SHOULD", "Revert"],
                &["should", "revert!!"],
                &["should", "not", "revert"],
                &["should", "revert", "too"],
                &["should-revert"],
                &["should", "'revert'"],
                &["shouldrevert"],
                &["should", "revert", "-"],
                &["should", "revert", "."],
            ];
            let words = self.g.pick(ws).iter().map(|s| s.to_string()).collect();
            return Act { kw, words, descs: vec![] };
        }
        let long = self.big == Big::Titles && self.g.chance(1, 4);
        let n = if long { self.g.range(20, 120) } else { self.g.range(1, 5) };
        let odd = self.cfg.odd;
        let mut words: Vec<String> = (0..n).map(|_| text_word(self.g, odd)).collect();
        if long && self.g.chance(1, 2) {
            words.truncate(2);
            words.push("é".repeat(self.g.range(120, 400)));
        }
        if self.g.chance(odd, 1200) {
            words = phrase(self.g);
            words.retain(|w| ok_text_word(w));
        }
        let many = self.big == Big::Descs && self.g.chance(1, 3);
        let descs = match (self.cfg.descs, many) {
            (false, _) => vec![],
            (true, true) => self.descs(6),
            (true, false) if self.g.chance(1, 5) => self.descs(2),
            _ => vec![],
        };
        Act { kw, words, descs }
    }

    fn descs(&mut self, depth: usize) -> Vec<Desc> {
        let n = match (self.big == Big::Descs, depth) {
            (true, 6) => self.g.range(1, 40),
            (true, _) => self.g.range(1, 2),
            _ => self.g.range(1, 3),
        };
        (0..n)
            .map(|_| {
                let long = self.big == Big::Titles && self.g.chance(1, 4);
                let k = if long { self.g.range(20, 120) } else { self.g.range(1, 4) };
                let odd = self.cfg.odd;
                let mut words: Vec<String> = (0..k).map(|_| text_word(self.g, odd)).collect();
                // A description starts with a plain word.
                if matches!(words[0].to_lowercase().as_str(), "when" | "given" | "it") {
                    words[0] = format!("{}x", words[0]);
                }
                if self.g.chance(odd, 1200) {
                    words = phrase(self.g);
                    words.retain(|w| ok_text_word(w));
                }
                // A directive of the formatter, which must have no effect.
                if self.g.chance(odd, 1500) {
                    let d = ["start", "end", "line", "next-line", "next-item"];
                    words = vec!["forgefmt:".into(), format!("disable-{}", self.g.pick(&d))];
                }
                let kids = if depth > 0 && self.g.chance(1, 4) { self.descs(depth - 1) } else { vec![] };
                Desc { words, kids }
            })
            .collect()
    }

    fn top_act(&mut self) -> Act {
        let mut a = self.act();
        let empty = action_test_suffix(&a).is_empty();
        if empty {
            a.words.push("thing".into());
        }
        while !self.used.insert(format!("it {}", action_test_suffix(&a))) {
            self.counter += 1;
            a.words.push(format!("n{}", self.counter));
        }
        a
    }

    fn cond(&mut self, depth: usize) -> Cond {
        let (kw, words) = if !self.titles.is_empty() && self.g.chance(1, 2) {
            self.g.pick(&self.titles).clone()
        } else {
            let base = *self.g.pick(&["when", "given"]);
            let kw = gen_kw(self.g, base);
            let long = self.big == Big::Titles && self.g.chance(1, 4);
            let n = if long { self.g.range(10, 60) } else { self.g.range(1, 4) };
            let odd = self.cfg.odd;
            (kw, (0..n).map(|_| cond_word(self.g, odd)).collect())
        };
        let mut c = Cond { kw, words, kids: vec![] };
        while !self.used.insert(modifier_name(&c)) {
            self.counter += 1;
            c.words.push(format!("n{}", self.counter));
        }
        self.titles.push((c.kw.clone(), c.words.clone()));
        let n = match self.big {
            Big::Deep => self.g.range(1, 2),
            Big::Wide if self.g.chance(1, 3) => self.g.range(1, 40),
            Big::HugeCond if self.budget > 150 => self.g.range(60, 300),
            _ => self.g.range(1, self.cfg.max_kids),
        };
        let deeper = if self.big == Big::Deep { (9, 10) } else { (2, 5) };
        for _ in 0..n {
            if self.budget == 0 && !c.kids.is_empty() {
                break;
            }
            self.budget = self.budget.saturating_sub(1);
            if depth > 1 && self.budget > 0 && self.g.chance(deeper.0, deeper.1) {
                let k = self.cond(depth - 1);
                c.kids.push(Node::Cond(k));
            } else {
                let a = self.act();
                c.kids.push(Node::Act(a));
            }
        }
        c
    }

    pub fn kids(&mut self) -> Vec<Node> {
        self.used.clear();
        let n = match self.big {
            Big::Wide => self.g.range(10, 60),
            Big::Huge => self.g.range(60, 300),
            _ => self.g.range(1, self.cfg.max_kids),
        };
        let mut v = vec![];
        for _ in 0..n {
            if self.budget == 0 && !v.is_empty() {
                break;
            }
            self.budget = self.budget.saturating_sub(1);
            if self.budget > 0 && self.g.chance(if self.big == Big::Huge { 1 } else { 3 }, 5) {
                let d = self.cfg.max_depth;
                v.push(Node::Cond(self.cond(d)));
            } else {
                v.push(Node::Act(self.top_act()));
            }
        }
        v
    }

    pub fn spec(&mut self) -> Spec {
        self.big = match self.g.weighted(&[300, 2, 2, 2, 2, 2, 1, 1]) {
            0 => Big::No,
            1 => Big::Deep,
            2 => Big::Wide,
            3 => Big::Trees,
            4 => Big::Titles,
            5 => Big::Descs,
            6 => Big::Huge,
            _ => Big::HugeCond,
        };
        if self.big == Big::Deep {
            self.cfg.max_depth = self.g.range(6, 40);
        }
        let n = if self.big == Big::Trees && self.cfg.max_trees > 1 {
            *self.g.pick(&[5, 9, 12, 20, 33, 70])
        } else if self.cfg.max_trees > 1 && (self.cfg.min_trees > 1 || self.g.chance(1, 4)) {
            self.g.range(self.cfg.min_trees.max(2), self.cfg.max_trees)
        } else {
            1
        };
        self.budget = match self.big {
            Big::No => *self.g.pick(&[12, 25, 60]),
            Big::Huge | Big::HugeCond => 400,
            _ => 150,
        };
        let contract = gen_root(self.g);
        let mut trees = vec![];
        for i in 0..n {
            let func = if n > 1 { Some(gen_func(self.g, i)) } else { None };
            let kids = self.kids();
            trees.push(Tree { contract: contract.clone(), func, kids });
        }
        Spec { trees }
    }
}

pub fn gen_root(g: &mut G) -> String {
    const R: &[&str] = &[
        "Foo", "FooTest", "Foo_Test", "HashPairTest", "A", "Foo.t.sol", "Foo-Bar", "MyContract1", "_Test", "fooTest",
        "Foo'Bar", "T\"x", "Été", "Foo!", "Unit_Concrete_Test", "F🦀o", "Größe🦀Test", "日本",
    ];
    g.pick(R).to_string()
}

pub fn gen_func(g: &mut G, i: usize) -> String {
    const F: &[&str] = &["bar", "baz", "hash_pair", "Qux", "transfer", "x", "deposit-all", "test_it", "éa", "f1"];
    let f = g.pick(F);
    match g.weighted(&[6, 1, 1]) {
        0 => format!("{f}{i}"),
        1 => format!("{f}{i}()"),
        _ => format!("{f}{}", ["A", "B", "C", "D", "E", "F", "G", "H"][i % 8]),
    }
}

/// A valid spec file whose specified names are all different.
pub fn gen_spec(g: &mut G, cfg: GenCfg) -> Option<Spec> {
    let s = SpecGen::new(g, cfg).spec();
    let r = render(&s, &Layout::plain());
    model(&s, &r).unique().then_some(s)
}
