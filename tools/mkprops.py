#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = state
    P.append(d)

SC="crates/bulloak/src/scaffold.rs"; CK="crates/bulloak/src/check.rs"
TOK="crates/syntax/src/tokenizer.rs"; PAR="crates/syntax/src/parser.rs"; SEM="crates/syntax/src/semantics.rs"
SPL="crates/syntax/src/splitter.rs"; ERR="crates/syntax/src/error.rs"; UT="crates/syntax/src/utils.rs"
TR="crates/foundry/src/hir/translator.rs"; CO="crates/foundry/src/hir/combiner.rs"; MO="crates/foundry/src/scaffold/modifiers.rs"
ST="crates/foundry/src/sol/translator.rs"; SF="crates/foundry/src/sol/fmt.rs"; EM="crates/foundry/src/scaffold/emitter.rs"
SM="crates/foundry/src/check/rules/structural_match.rs"; VI="crates/foundry/src/check/violation.rs"; CX="crates/foundry/src/check/context.rs"
CLI="crates/bulloak/src/cli.rs"; SOL="crates/foundry/src/sol/mod.rs"; LOC="crates/foundry/src/check/location.rs"; CU="crates/foundry/src/check/utils.rs"

p("C01","Any input is processed or rejected cleanly: no crash, no hang, no silent failure",
  "Whatever bytes the tree file and the Solidity file contain, `scaffold`, `check` and `check --fix` terminate with exit status 0 or 1 (never a panic, abort or endless loop). A non-zero exit comes with an explanation on standard error that names the offending file, and `scaffold` prints no Solidity for a file it rejects.",
  ["inputs","configurations"],"every tree file content (valid, mutated, token soup, arbitrary Unicode, invalid UTF-8), every Solidity file content, every combination of subcommand options",
  "The tests feed about 25 hand-written well-formed trees and a dozen malformed ones; they cannot sample the space of malformed, Unicode-heavy or deeply nested inputs on which indexing, `unwrap` and `expect` go wrong.",
  [TOK,PAR,SEM,SPL,ERR,TR,CO,SF,VI,CX,CK,SC],
  [("tokenizer cursor by byte offsets",TOK),("token-stream parser with typed errors",PAR),("Result propagation to the CLI",SC),("violations for unreadable files","Context::new in "+CX)],
  ["exit status and signal","standard error"])
p("C02","Layout and comments of a tree file never change what it means",
  "Two tree files that differ only in presentation (indentation widths, number of dashes, vertical bars, spaces between words, trailing blanks, `//` comment lines and trailing comments, LF or CRLF line endings, leading and trailing blank lines, number of blank lines between trees) are accepted or rejected alike and scaffold to the same Solidity, except that description comments are indented by the distance of the description from its action. Nesting is decided only by which branch is further right, so a deeper tree keeps its shape under every such layout.",
  ["inputs"],"every abstract tree and every pair of layouts of it",
  "Each test fixes one layout (mostly 3-space indentation, LF); only one fixture has spurious comments.",
  [TOK,PAR,SPL],[("blank/bar/dash skipping and comment scanning",TOK),("column comparison decides nesting",PAR),("splitting and trimming of trees, comment-only blocks dropped",SPL)],
  ["scaffold stdout and exit status for both layouts"])
p("C03","Scaffolding emits exactly the tests and modifiers the tree specifies, in order",
  "For a valid tree the scaffolded contract is named after the root and contains, in depth-first order of the tree: one modifier per condition that has nested conditions, one test function per condition that has actions of its own (before the functions of its nested conditions), one test function per top-level action, and nothing else. Test names are `test_` followed by the title in PascalCase with hyphens as underscores and characters that cannot occur in identifiers removed; a condition whose first action is `it should revert` is named `test_RevertWhen_…` / `test_RevertGiven_…` instead; modifier names are the condition title in camelCase.",
  ["inputs"],"every valid tree: any nesting, any mix of when/given/it in any letter case, any titles including punctuation and Unicode",
  "Tests compare about ten fixture outputs; name mangling, revert detection, ordering and nesting interact in ways that fixtures sample once each.",
  [TR,MO,UT,PAR,ST],[("depth-first translation to functions and modifiers",TR),("modifier discovery",MO),("sanitize / PascalCase / camelCase",UT),("condition titles are sanitized when parsed",PAR)],
  ["list of parts of the emitted contract"])
p("C04","Every test carries exactly the modifiers of its enclosing branching conditions",
  "Each emitted test function applies, outermost first and exactly once each, the modifiers of the conditions on its path from the root that have nested conditions (its own condition included when it has nested conditions), and no others; top-level actions apply none. Unless modifiers are being skipped, every applied modifier is defined exactly once in the contract, before the functions that use it, with the body `_;` and no parameters.",
  ["inputs"],"every valid tree, of any depth and branching, with siblings after nested conditions",
  "The modifier stack is a history property of the traversal: a push/pop mismatch only shows on particular shapes (actions after nested conditions, several levels closing at once), which fixtures cover sparsely.",
  [TR,MO,ST],[("modifier stack push/pop",TR),("modifier map keyed by title",MO),("attributes of emitted functions",ST)],["attribute lists of emitted functions","modifier definitions"])
p("C05","Action and description text is reproduced verbatim as inert comments",
  "The body of each emitted test consists of one line comment per action of that condition, in order, each followed by one comment per description (depth-first, indented by its distance from the action), with the exact words of the tree separated by single spaces. Whatever characters the text contains (quotes, backslashes, `*/`, `//` inside words, braces, semicolons, Unicode), it never becomes code, never alters a neighbouring comment, and never influences anything but the comment itself and the test name derived from it.",
  ["inputs"],"every action and description text that the tree language admits",
  "Comments travel through a fake string literal and a regular expression on their way out; only benign texts appear in the fixtures.",
  [TR,ST,SF,TOK,PAR,EM],[("comments encoded as string variable definitions",ST),("cleanup_comments regular expression",SF),("words joined by single spaces, descriptions indented by column delta",PAR)],["comment tokens of emitted function bodies"])
p("C06","Scaffolded output is valid, collision-free and already formatted Solidity",
  "Whatever valid tree it is given, the output of `scaffold` is one pragma and one contract that parse as Solidity, in which every declared name is a legal identifier, no two functions or modifiers share a name, and test bodies contain no statements (other than the skip call when requested). Formatting it again changes nothing: `check --fix` on it leaves it byte for byte the same.",
  ["inputs","configurations"],"every valid tree file (single or multiple trees) and every option combination",
  "Validity of generated code for every title needs many titles; the tests pin a few outputs.",
  [ST,SF,UT,SC,"crates/foundry/src/scaffold/mod.rs",CO],[("parse tree construction instead of text templates",ST),("forge-fmt pass over the emitted source","crates/foundry/src/scaffold/mod.rs"),("identifier sanitizing",UT)],["scaffold stdout","check --fix --stdout on it"])
p("C07","Each scaffold option changes exactly what it documents",
  "`--vm-skip` adds only a `vm.skip(true);` statement as the last element of every test body, the forge-std `Test` import and the `Test` base; `--skip-modifiers` removes only the modifier definitions; `--solidity-version` changes only the pragma's version; `--write-files` changes only where the text goes. The options are independent of each other and have the same meaning for every input file of the command.",
  ["configurations","inputs"],"every valid tree and every subset of the options with any version text",
  "Tests cover -S and -m on one or two fixtures each, never their combinations on arbitrary trees.",
  [SC,"crates/foundry/src/config.rs","crates/bulloak/src/cli.rs",ST,TR],[("Config built from the CLI","crates/bulloak/src/cli.rs"),("vm.skip statement added per function",TR),("import, base and modifier filtering",ST)],["differences between outputs under different options"])
p("C08","Trees in one file combine into one contract without losing or mixing tests",
  "A file with several trees whose roots are `Contract::function` yields one contract holding the parts of every tree in file order, each test being the one its tree would yield alone with the function name in PascalCase inserted after `test_`, and each modifier shared by several trees defined once, at its first occurrence. If any root lacks `::`, lacks a contract name or names another contract, the file is rejected with an error that identifies the root or the two names, and if two tests of the file would have the same name, with an error that names it; trees do not otherwise influence each other.",
  ["inputs"],"every sequence of two or more trees, with any sharing of conditions between them",
  "Fixtures have two or three fixed trees; which modifiers collide, in which order and at which nesting, is a combinatorial space.",
  [CO,"crates/foundry/src/hir/mod.rs",SPL],[("contract-name checks and test prefixing",CO),("deduplication of modifiers across roots","collect_modifier in "+CO),("splitting at blank lines",SPL)],["emitted contract compared with the per-tree outputs","error text"])
p("C09","Malformed trees are rejected with the right diagnosis and no output",
  "A tree that breaks one of the grammar rules (no content, no root, no rules, text where a branch is required, a branch without a keyword, a condition without title or without children, something nested under an action other than a description, an illegal character in a condition title, a top-level `├` that ends the tree or `└` that does not, a dangling branch at the end) is rejected by `scaffold` and by `check` with exit status 1 and the diagnosis of that rule. No Solidity is printed or written for it.",
  ["inputs"],"every valid tree with any one rule broken at any position",
  "The unit tests break each rule in one place of one small tree.",
  [PAR,TOK,SEM,VI,SC],[("typed parser errors",PAR),("identifier mode",TOK),("semantic errors",SEM),("tree errors shown by check","format_frontend_error in "+VI)],["exit status","diagnosis line"])
p("C10","Duplicate specifications are always detected and never reported spuriously",
  "A tree is rejected for duplication exactly when two of its conditions yield the same modifier name or two of its top-level actions yield the same test name (however their spelling, letter case of the keyword or punctuation differs). Each group of clashing items is reported once, listing the line of every member in ascending order. Otherwise a file is rejected, naming the test and the place of its second occurrence, when two of its tests would have the same name. Repeated actions inside conditions, repeated descriptions, and conditions shared between different trees of a file are not duplicates.",
  ["inputs"],"every tree, every placement and spelling of clashing and nearly clashing titles",
  "Tests contain one three-way condition clash and one two-way action clash.",
  [SEM,UT],[("identifier map built while visiting conditions and top-level actions",SEM),("name mangling shared with code generation",UT)],["error list: kind and line numbers"])
p("C11","Error locations point at the offending line and column of the file",
  "When a tree is rejected with a position, the reported line and column are those of the offending element in the file the user wrote (1-based, counted in characters, whatever precedes it: other trees, comments, blank lines, non-ASCII text, CRLF line ends), the quoted source line is that line of the file, and the carets start under that column. For several errors in a file each has its own position.",
  ["inputs"],"every rejected tree and every prefix of other trees and comments before the fault",
  "Unit tests assert spans of single-tree strings that start at offset 0.",
  [ERR,TOK,PAR,SEM,"crates/syntax/src/span.rs","crates/syntax/src/lib.rs"],[("spans carried by every token",TOK),("notate()",ERR)],["`--- (line L, column C) ---`, quoted line and carets"])
p("C12","What scaffold writes, check accepts",
  "For every valid tree file, running `check` (with or without --skip-modifiers) right after `scaffold -w` reports no issue and exits 0, also when scaffolded with --vm-skip or any valid pragma version; a file scaffolded with --skip-modifiers passes `check --skip-modifiers` and, without that option, yields exactly one missing-modifier report per modifier. `check --fix` then reports 0 fixed issues and leaves the file unchanged.",
  ["inputs","histories"],"every valid tree file and option combination of the two commands",
  "No test runs the two commands in sequence; the generator and the checker derive names independently of each other's output.",
  [SC,CK,SM,TR],[("both commands share the intermediate representation",TR),("matching by name and kind",SOL)],["exit status and reports of check after scaffold"])
p("C13","check reports exactly the specified constructs that are missing",
  "For a tree and a Solidity file whose first contract is the test contract, `check` reports one `missing` violation for each specified test or modifier for which that contract has no function, respectively modifier, of exactly that name, in specification order, and none for the others. Bodies, parameters, visibility and attributes of present constructs do not matter; a name that occurs only in a comment, a string, a different kind of construct or another contract does not count; with --skip-modifiers missing modifiers (and nothing else) go unreported.",
  ["inputs","configurations"],"every tree and every Solidity file obtained by deleting, renaming, changing kind, hiding or moving any subset of constructs",
  "Tests have a handful of fixed tree/Solidity pairs.",
  [SM,SOL],[("find_matching_fn: name and type match",SOL),("check_fns_structure",SM)],["list of missing violations"])
p("C14","check reports exactly the constructs that are out of order",
  "With every specified construct present in a contract, `check` reports no order violation if the constructs appear in specification order, and otherwise reports a construct as misplaced exactly when some construct that the specification puts after it appears before it in the contract. When some constructs are missing, the same holds for those present; other members of the contract in between, and missing constructs, never cause or hide an order violation.",
  ["inputs"],"every permutation of the specified constructs of every tree, with any missing ones and any interleaving of other members",
  "Order depends on permutations; tests use two fixed ones.",
  [SM],[("inversion search over (spec index, file index) pairs",SM)],["list of order violations"])
p("C15","User code beyond the specification never affects check's verdict",
  "Adding to a Solidity file things the tree does not mention (state variables, helper functions, constructors, receive/fallback, events, errors, structs, enums, using directives, extra tests or modifiers, parameters, attributes, statements, comments, strings with misleading contents, imports, free functions, further contracts after the test contract) leaves the verdict and the reported constructs unchanged. Only reported line numbers may shift, by the lines inserted above.",
  ["inputs"],"every checked pair of files and every set of insertions",
  "One test has an extra function; the variety of Solidity members and comment/string contents is unsampled.",
  [SM,SOL,CX],[("matching restricted to functions and modifiers by name",SOL),("solang parse tree rather than text search",CX)],["violations before and after the insertion"])
p("C16","The contract must exist and carry the root's name",
  "`check` reports a missing contract exactly when the Solidity file defines no contract, a missing Solidity file exactly when there is none next to the tree, and a contract-name mismatch (quoting both names) exactly when the name of the first contract differs from the identifier derived from the root; the constructs inside a misnamed contract are still checked as usual. An unparsable Solidity file or an unparsable tree is reported as such, never as success.",
  ["inputs"],"every root name and contract name (equal, differing in case, prefix, separator or sanitized characters), every kind of file content without a contract",
  "Tests have one mismatch and one empty file.",
  [SM,CX,VI],[("check_contract_names",SM),("contract lookup","find_contract in "+SOL),("unreadable/unparsable files","Context::new in "+CX)],["contract violations and exit status"])
p("C17","check's report is accurate: locations, advice, totals and exit status",
  "Each missing-construct report carries the tree file and the line of the condition or top-level action that specifies it; each order or contract-name report carries the Solidity file and the line where that function or contract starts, whatever the files contain (other trees, comments, non-ASCII text, CRLF). The fix advice appears on exactly the fixable reports and names the tree file; the summary states the exact number of failed checks and of available fixes; the exit status is 0 with the success message exactly when there are no reports.",
  ["inputs"],"every checked pair of files",
  "Existing tests filter on message prefixes and do not look at lines or totals.",
  [VI,LOC,CU,SM,CK],[("Location",LOC),("byte offset to line",CU),("span lines of tree nodes",SM),("summary",CK)],["every line of check's standard error"])
p("C18","check --fix makes check pass, in one run and idempotently",
  "After `check --fix` succeeds on a valid tree and a parsable Solidity file, `check` on the result reports no issue: every specified construct is present once, in specification order, in a contract of the right name; running `check --fix` again reports 0 issues fixed and changes nothing (but for the formatter's treatment of blanks around the user's own comments). The number of issues it claims to have fixed equals the number of fixable issues `check` reported before, and constructs it adds are those `scaffold` would emit (same signature, modifiers and comments). With --skip-modifiers the same holds with respect to `check --skip-modifiers`, and no modifier definitions are added to an existing contract.",
  ["inputs","histories"],"every tree and every Solidity file with any combination of missing, misplaced, misnamed and extra parts",
  "The tests fix about seven fixed files and look at substrings of the output; permutations with several misplaced functions or members without a name are not covered.",
  [VI,CK,CX],[("per-violation fixes","ViolationKind::fix in "+VI),("reordering","fix_order in "+VI),("insertion after the preceding construct",VI)],["fixed file, second check, second fix"])
p("C19","check --fix never loses, duplicates or alters what the user wrote",
  "Every function, modifier, member, statement and comment of the Solidity file that `check --fix` is run on is still there exactly once afterwards, with the same content apart from whitespace, and code outside the test contract is unchanged and in the same order; the only additions are the missing specified constructs, the separator comment, and the corrected contract name at its declaration. When there is nothing to fix, only formatting may change.",
  ["inputs"],"every Solidity file with any bodies, comments, strings and members, in any order relative to the tree",
  "This is about arbitrary user code; the fixtures contain only scaffolded functions with simple comments.",
  [VI,CX,CK],[("text splicing by source ranges","fix_order, insert_function_at in "+VI+" and "+CX),("forge-fmt formatting",CX)],["token and comment multiset before and after"])
p("C20","Commands touch only the files they are asked to write",
  "Over any history of commands and edits in a directory: tree files are never modified; only `scaffold -w` creates a file, only `scaffold -w -f` and `check --fix` (without --stdout) replace one, each only the `.t.sol` sibling of a tree named on the command line; an existing file is left untouched, with a warning, by `scaffold -w` without -f. What is written is exactly what the stdout variant of the same command prints, a rejected or unreadable input leaves its output untouched, and a write that fails is reported with a non-zero exit status.",
  ["histories","fault_sequences"],"every sequence of scaffold/check invocations with any options interleaved with edits, deletions, read-only files and directories in the way",
  "No test writes files at all.",
  [SC,CK],[("exists / force-write guard","write_file in "+SC),("--stdout switch","write in "+CK)],["directory snapshot after every step","exit status"])
p("C21","Files given together are processed as if each were given alone",
  "For any list of tree files, `scaffold` prints and writes for each valid file exactly what it would alone, in the given order, and reports each invalid one with its name and the right total, regardless of the other files; `check` reports the union of what it reports for each alone, and `check --fix` fixes each as it would alone and totals the fixes. The exit status is non-zero exactly when it is for at least one of the files alone.",
  ["inputs","configurations"],"every list of valid, invalid, missing and violating files in every order",
  "All tests pass a single file.",
  [SC,CK],[("per-file loop with collected errors",SC),("contexts and violations collected per file",CK)],["outputs of the joint run against the single runs"])
p("C22","Output is a deterministic function of the inputs and options",
  "Running any command repeatedly on the same files gives byte-identical standard output, standard error, exit status and written files. The working directory, the spelling of the path and the rest of the environment have no influence, except that messages show the path as it was given.",
  ["inputs","schedules"],"every input, including those with many errors or many shared names; every run",
  "A single run per test cannot expose dependence on hash-map iteration order, which varies per process.",
  [SEM,MO,CO,VI],[("IndexMap for modifiers",MO),("ordered traversal of identifiers",SEM),("BTreeSet of unsorted constructs",SM)],["bytes of repeated runs"])

p("C23","A command line that isn't one of the documented forms does nothing",
  "A command line with an unknown or misspelt command or option, an option of the other command, a missing value, a value for a flag, an option given twice, an option before the command, `--force-write` without `--write-files` or `--stdout` without `--fix` is refused: non-zero exit status, a message on standard error, nothing on standard output, no file touched. Asking for help or the version answers on standard output (help names every command, or every option of the command), exits with 0 and touches nothing. The documented spellings (long and short options, clustered letters, values attached or separate, options before, between or after the files, `--` before files) all mean the same: same exit status, output and files.",
  ["inputs","configurations"],"every combination, order and spelling of commands, options and files",
  "The tests use half a dozen command lines, none of them wrong.",
  [CLI,SC,CK],[("commands",CLI),("scaffold's options and what they require",SC),("check's options and what they require",CK)],["exit status, both outputs and the directory after the command"])

p("C24","The library's syntax tree mirrors the text, with exact positions",
  "For every valid text, `bulloak_syntax::parse` returns one tree per tree of the text, in order, with exactly the conditions, actions and descriptions it has, nested as they are, each with its own title or text; each node's span starts at its branch (the root's at its name) and ends at the last character of what belongs to it, and offset, line and column of a position agree and count from the start of the text, whatever precedes it. `parse_one` of a text with a single tree gives the same tree. For any other text there are errors whose positions lie in the text, consistently; whatever is accepted has properly nested, disjoint spans.",
  ["inputs"],"every text: valid trees in every layout, broken ones, and token soups",
  "The parser's tests compare about a dozen small trees, nearly all of them ASCII, alone in the text and evenly indented.",
  ["crates/syntax/src/lib.rs",TOK,PAR,SPL,"crates/syntax/src/ast.rs","crates/syntax/src/span.rs"],[("positions","scan and position_at in "+TOK),("spans of nodes",PAR),("places of the trees in the text",SPL)],["the tree and the errors that the library's functions return"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
