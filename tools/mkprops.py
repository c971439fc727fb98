#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the wording is reviewable in one place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=hook)))
MK="every makefile text"
p("C01","Variable assignments take effect in order, with the semantics of their operator",
 "After reading any makefile, each variable has the value obtained by applying its assignments in textual order: `=` stores text that is expanded at each use, `:=` and `::=` store the expansion at that point, `?=` acts only if the variable is undefined, and `+=` appends after a single space (or acts like `=` if undefined), expanding the new text at once exactly if the variable is simple. The variable name may itself be computed from references, blanks around name and operator are not significant, and trailing blanks of the value are kept. Other variables are unaffected.",
 ["programs","inputs"],"every finite sequence of assignment lines with any operators, names, values and spacing, and any later use",
 "The tests assign one or two variables once each with a single operator; the result depends on the whole history of assignments to a name (flavor, definedness, what references meant at the time).",
 ["src/parsers/variable/mod.rs","src/lib.rs","src/eval/mod.rs"],
 [("parse_variable_assignment / parse_assignment_operator","src/parsers/variable/mod.rs"),("handle_global_variable_action","src/parsers/variable/mod.rs"),("Database::set_variable, append_to_variable","src/lib.rs")],
 ["Database::get_variable + Variable::expand","verif_hooks::flavor"],
 [("Database.variables","unexpanded value and flavor per name","src/lib.rs")],"flavor accessor")
p("C02","Expansion replaces every variable reference and keeps all other text",
 "Expanding a text replaces `$$` by `$`, and `$c`, `$(name)` and `${name}` (with balanced delimiters of the same kind, the name itself expanded first) by the expansion of the named variable's current value, or by nothing if it is undefined; a `$` at the very end stays. All other text is kept unchanged and in order, including text before, between and after references and calls. Expansion by itself never changes the database unless an eval is involved.",
 ["inputs","programs"],"every text and every database without self-referential variables",
 "The tests expand a few fixed shapes one or two levels deep; nesting, adjacency, both bracket kinds and chains of variables are unbounded.",
 ["src/parsers/ast/mod.rs","src/ast/mod.rs"],
 [("parse_ast / parse_var_ref / advanced_var","src/parsers/ast/mod.rs"),("AstNode::eval_internal","src/ast/mod.rs")],
 ["Variable::expand","AstNode::eval"])
p("C03","Substitution references rewrite exactly the matching words",
 "`$(name:key=replacement)` takes the blank-separated words of the variable's expansion and yields them joined by single spaces, where a word matching the key is rewritten and any other word is kept: a key without unescaped `%` matches as a suffix and only that suffix is replaced; with `%`, the word must start and end with the parts around it without overlap, and the replacement has its first `%` replaced by the stem, or is used as it is if it has none. `\\%` stands for a literal `%`. The text in the brackets is expanded first and then split at its first `:` and the last `=` after that.",
 ["inputs"],"every variable value, key and replacement",
 "The tests cover six key shapes on one- or two-word values; matching depends on overlaps, repeats of the key, empty stems and escapes.",
 ["src/ast/text_functions.rs","src/ast/mod.rs"],
 [("do_subref / do_replacement","src/ast/text_functions.rs"),("colon_find","src/ast/mod.rs")],
 ["Variable::expand"])
p("C04","Only the selected branches of conditionals have any effect",
 "For any nesting of `ifeq`/`ifneq` … `else` … `endif`, in any of the quoting styles, a line takes effect exactly if every enclosing conditional selects its branch, where the arguments are expanded at the point of the conditional and compared without surrounding whitespace. Lines in branches not selected change nothing: no variables, rules, recipe lines, includes or evals, not even from the arguments of conditionals nested in them, and the body of a define among them is skipped as a whole, whatever it contains. After the last `endif` reading continues as before, and a rule that is open stays open across conditional lines.",
 ["programs"],"every properly nested arrangement of conditionals of any depth, with any argument texts and any lines between them",
 "The tests parse single conditional lines; none reads a makefile with nested or consecutive conditionals.",
 ["src/parsers/conditional/mod.rs","src/parsers/mod.rs"],
 [("handle_conditional","src/parsers/conditional/mod.rs"),("update_ignoring, ignoring","src/parsers/mod.rs")],
 ["database after Engine::read_makefile"],
 [("ParserState.conditionals","stack of open conditionals","src/parsers/mod.rs"),("ParserState.ignoring","whether lines are skipped","src/parsers/mod.rs")])
p("C05","define captures its body verbatim up to the matching endef",
 "`define name` … `endef` gives the variable exactly the lines in between, including `#`, backslashes, tabs, blank lines and nested `define`/`endef` pairs, each line with its line break. An operator after the name means what it means in an assignment, with the whole body as the value, applied at the matching `endef`; a comment after the name is no part of the body, and a reference may extend over several lines of it. Otherwise nothing in the body is interpreted until the variable is expanded. Reading resumes normally after the matching `endef`.",
 ["programs","inputs"],"every body text and nesting depth of define/endef inside it",
 "The tests define one variable with a one-line body and one nested pair.",
 ["src/parsers/variable/mod.rs","src/parsers/mod.rs"],
 [("parse_define_line, handle_define_line","src/parsers/variable/mod.rs")],
 ["Variable::expand of the defined name"],
 [("ParserState.current_define","name and nesting of the open define","src/parsers/mod.rs")])
p("C06","Rules for a target accumulate prerequisites; a recipe replaces the rule",
 "After reading, the database has one rule per distinct target that occurred: reading rules in textual order, a rule without recipe adds its prerequisites (in order, duplicates kept) after those already known for each of its targets, and a rule with a recipe replaces whatever was known for each of its targets. A rule ends where a line that is not one of its recipe lines, a comment, blank or a conditional begins, or at the end of the input; none is lost. Whether it is a single- or double-colon rule is that of the rule that created the entry.",
 ["programs"],"every sequence of rules over any targets, with and without recipes, mixed with other lines",
 "The tests read at most two rules; the outcome depends on the whole history of rules per target.",
 ["src/lib.rs","src/parsers/mod.rs"],
 [("Database::from_protorule","src/lib.rs"),("ParserState::close_rule","src/parsers/mod.rs")],
 ["Database::rules, get_rule; Rule::target, dependencies, recipe"],
 [("ParserState.current_rule","the open rule","src/parsers/mod.rs"),("Database.rules","rule per target","src/lib.rs")],"rule type accessor")
p("C07","Recipe lines belong, unexpanded and in order, to the rule before them",
 "The commands of a rule are the text after `;` on its target line, if any, followed by the lines after it that begin with the engine's configured command character, each without that character, with `#` comments removed, and with backslash-newline continuations (whose next line starts with the command character, which is removed) kept inside the command. Commands are stored as unexpanded expressions: reading does not expand them, and expanding them later uses the variables' values at that time. A recipe line is never read as an assignment, directive or rule, and it never belongs to any other rule.",
 ["programs","inputs","configurations"],"every rule with any recipe lines and any command character",
 "The tests attach one command to one rule with the default command character.",
 ["src/parsers/recipe_line.rs","src/parsers/mod.rs","src/parsers/targets/mod.rs"],
 [("recipe_line","src/parsers/recipe_line.rs"),("push_command_line","src/parsers/mod.rs"),("post_semi_content","src/parsers/targets/mod.rs")],
 ["Rule::recipe().commands()"],(),"command AST accessor")
p("C08","Logical lines: comments, continuations and line endings do not change meaning",
 "Outside recipes and defines, text from `#` to the end of its line is dropped (a comment line ending in an odd number of backslashes also continues onto the next line), unless an odd number of backslashes before the `#` makes it literal, where backslashes right before a `#` stand for half as many; a line ending in one backslash is joined to the next with a single space replacing the backslash, the line break and the blanks on both sides, while an even number of trailing backslashes ends the line and is kept. `\\r\\n` is equivalent to `\\n`, a leading byte order mark, blank lines and leading blanks are ignored, and a missing final newline makes no difference. No line's text ever leaks into another logical line.",
 ["inputs"],"every makefile text, in any combination of these features",
 "The tests cover single comments and continuations in isolation, through internal functions.",
 ["src/parsers/mod.rs","src/parsers/comment.rs","src/lib.rs"],
 [("makefile_grab_line, makefile_line, clean_line_end","src/parsers/mod.rs"),("parse_comment","src/parsers/comment.rs"),("BOM","src/lib.rs process_block")],
 ["database after Engine::read_makefile"])
p("C09","Target lines split into the right targets, prerequisites and recipe",
 "For a rule line, the targets are the words before the first unescaped `:` that is not part of a drive letter path, found after expanding the text up to it, the prerequisites are the words of the expansion of what follows up to the first unescaped `;`, and `::` makes it a double-colon rule. References may contribute any part of this, including the separators and several words, or nothing. A single backslash directly before a `:` or a blank makes that character part of the name and is removed; backslashes before other characters of a name are kept.",
 ["inputs"],"every rule line with any mix of literal text, references, escapes and separators",
 "The tests have about a dozen fixed lines, and the project's own property test of this is disabled.",
 ["src/parsers/targets/mod.rs","src/parsers/file_sequence.rs","src/parsers/mod.rs"],
 [("parse_line, next_mword, find_non_drivespec_colon","src/parsers/targets/mod.rs"),("parse_file_seq","src/parsers/file_sequence.rs"),("makefile_take_until_unquote","src/parsers/mod.rs")],
 ["Database::rules"])
p("C10","$(eval text) is equivalent to reading the expanded text at that point",
 "Expanding `$(eval text)` anywhere has the same effect on variables and rules as reading the expansion of its argument as a makefile of its own at that moment, before the rest of the surrounding line is processed, and itself expands to nothing. This holds for multi-line texts, assignments, rules with recipes, conditionals and evals inside evals. Conditionals and rules of the evaluated text and of the surrounding makefile do not affect each other.",
 ["programs"],"every evaluated text and every place a reference can occur",
 "The tests evaluate one assignment and one rule.",
 ["src/ast/mod.rs","src/lib.rs"],
 [("AstChildren::Eval","src/ast/mod.rs"),("Engine::process_block","src/lib.rs")],
 ["database after Engine::read_makefile"])
p("C11","include is equivalent to reading the named files in place",
 "`include` expands its argument, splits it into file names and reads each existing file, relative to the engine's working directory, in order and at that point, with the same effect on variables and rules as reading it as a makefile of its own; `-include` and `sinclude` do the same but skip files that cannot be opened, whereas `include` then reports an error naming the file and stops. Conditionals, defines and rules do not extend across file boundaries. Reading several makefiles one after another with the same engine accumulates their effects in order.",
 ["programs","inputs"],"every set of files, include graph without cycles, and directive variant",
 "One test includes one file that exists.",
 ["src/parsers/directives/mod.rs","src/lib.rs","src/parsers/file_sequence.rs"],
 [("handle_include","src/parsers/directives/mod.rs"),("Engine::read_makefile","src/lib.rs")],
 ["database after Engine::read_makefile","MakefileError"])
p("C12","The sensitivity of expanded text is the set of variables it depends on",
 "The sensitivity of an expanded text contains every variable consulted to produce it, defined or not, directly, in computed names, through the values of other variables, and when the value of a simple variable was expanded at its assignment, and no variable that was not consulted. Changing variables outside the sensitivity therefore never changes the text. The prerequisites and targets of rules carry at least the sensitivity of the expansion they come from.",
 ["inputs","programs"],"every expression and database",
 "The tests check sensitivity for about five one-level expressions.",
 ["src/ast/mod.rs","src/evaluated/mod.rs","src/ast/text_functions.rs"],
 [("merge_sensitivity, deref_variable","src/ast/mod.rs"),("push_all_contents","src/evaluated/mod.rs")],
 ["Block::sensitivity of AstNode::eval, Rule::dependencies, Rule::target"])
p("C13","Every piece of expanded text knows where in the source it came from",
 "For every character of an expanded value, prerequisite or target, the reported location is the file, line and character position (both from 1, counting characters) at which that character was written, however often it was stored, sliced, substituted, joined, passed through eval or included in between; only characters no source contains (the space joining lines or appended text or words) are synthetic. Locations of expression nodes are those of the `$` or text they start with. Concatenating the located segments yields exactly the text.",
 ["inputs","programs"],"every makefile and every character of every observable text",
 "The tests compare segments of a few lines.",
 ["src/source_location.rs","src/evaluated/content_reference.rs","src/evaluated/block_span.rs","src/parsers/ast/mod.rs"],
 [("Located::slice","src/source_location.rs"),("segments iterators","src/evaluated"),("ContentReference::simplify","src/evaluated/content_reference.rs")],
 ["BlockSpan::segments, AstNode::location"])
p("C14","Databases are persistent values: updates never affect other copies",
 "Every database operation (setting or appending to a global or target-specific variable, adding a rule) returns a new database that differs from the old one exactly in the named entry, and the old one and all clones keep answering as before. Variables of a target, of other targets and global ones of the same name are independent. Appending keeps the flavor and the old value in front, with a single space in between exactly if requested.",
 ["histories"],"every history of operations on any number of database copies",
 "The tests never look at an old database after an update, nor at target-specific variables.",
 ["src/lib.rs"],
 [("Database methods","src/lib.rs")],
 ["Database::get_variable, get_variable_for_target, get_rule, rules"],
 [("Database","variables, target_variables, rules","src/lib.rs")],"constructor for variable parameters")
p("C15","Interned names are stable, unique per text and kept apart by kind",
 "Interning the same text twice gives the same name and different texts give different names, for all texts including empty and non-ASCII ones and across clones; looking a text up finds exactly the names interned so far and does not intern, and resolving a file name gives back its text. File names and variable names are independent of each other.",
 ["histories"],"every history of intern, look-up, resolve and clone operations",
 "No test exercises the name cache directly.",
 ["src/lib.rs"],[("NameCache","src/lib.rs")],["NameCache methods"])
p("C16","Blocks of text behave like the string they stand for",
 "However a block is built (constants, nested blocks, references, slices, pushes of spans, at any nesting), its length, characters, character indices, string, segments and slices are those of the flat UTF-8 string it stands for, and comparing, searching, splitting, taking and measuring offsets on its spans give the same results as on that string. Slicing or copying never changes the original. This includes multi-byte characters and empty pieces.",
 ["histories","inputs"],"every sequence of construction and slicing operations",
 "The tests use blocks of one or two constants with hand-picked slices.",
 ["src/evaluated/mod.rs","src/evaluated/block_span.rs","src/evaluated/content_reference.rs","src/evaluated/nodes.rs","src/evaluated/nom/mod.rs"],
 [("BlockSpan slicing and iterators","src/evaluated/block_span.rs"),("nom traits","src/evaluated/nom/mod.rs"),("Block::push_all_contents, simplify","src/evaluated/mod.rs")],
 ["Block, BlockSpan, ContentReference public methods and nom traits"],(),"constructors for located strings and blocks")
p("C17","Malformed input is reported as an error and keeps earlier effects",
 "Reading a makefile always ends with success or with a parse error describing the first malformed line: `else` or `endif` without a conditional, a second `else`, text after `endif` or `endef` or after `else`, a malformed `ifeq`, a recipe line outside a rule, text that is neither assignment, directive nor rule, `;` without a rule, an unterminated reference, or an include of a file that is missing or not text (with its name, and which of the two); well-formed lines are never rejected. Everything before that line, including a rule ended by it, has taken effect as usual and nothing after it has. A makefile that cannot be read as text gives an I/O error and has no effect. The engine can go on to read further makefiles as usual. Reading never panics on such input (directives and functions the library declares unimplemented are outside of this).",
 ["inputs","fault_sequences"],"every makefile text with an error at any position",
 "The tests check error values of internal parsers; none reads a malformed makefile through the public interface.",
 ["src/lib.rs","src/parsers/mod.rs","src/parsers/error_utils.rs","src/parsers/conditional/mod.rs"],
 [("process_block, into_parse_error_kind","src/lib.rs"),("run_line_parser","src/parsers/mod.rs")],
 ["Result of Engine::read_makefile","database after it"])
p("C18","AST visitors reach every node exactly once, in source order",
 "Walking any expression with a visitor that overrides nothing but records what it is shown reaches every node and every leaf exactly once, parents before children and children in source order, calling the method for that kind of node with its own parts; the mutable visitor does the same and edits made through it, and only those, show up in the expression.",
 ["inputs"],"every expression tree",
 "No test uses a visitor.",
 ["src/ast/visit.rs"],[("make_ast_visitor","src/ast/visit.rs")],["ast::visit::Visitor, MutVisitor"])
p("C19","Source locations are partially ordered by position within one origin",
 "Two locations in the same file are ordered by line, then by character; locations in different files, of different kinds, or in the output of different evals are unordered, and synthetic locations are all equal. The order is reflexive, antisymmetric and transitive, and located values compare by their location only. A part of a located text is located where its first character is.",
 ["inputs"],"all pairs and triples of locations",
 "No test compares locations.",
 ["src/source_location.rs"],[("PartialOrd for Location, Located","src/source_location.rs")],["partial_cmp"],(),"constructor for located strings")
p("C20","Parsed expressions mirror the source text, including function calls",
 "The expression stored for a value or command has, in source order, one node for each reference and function call in the text and constants for exactly the text between them. A name followed by blanks is a call only for `eval`, `strip`, `words` and `word`, whose arguments are split at the commas outside of nested brackets (`eval` takes all of it) with leading blanks of each argument dropped; everything else in brackets is a reference whose name is parsed the same way. `strip` and `words` with more than one argument and `word` with other than two are rejected.",
 ["inputs"],"every text",
 "The tests parse about ten fixed texts, and the project's generated test only checks that parsing a generated tree's text gives back that tree for a restricted alphabet.",
 ["src/parsers/ast/mod.rs","src/ast/mod.rs"],
 [("parse_ast, function_call, function_argument","src/parsers/ast/mod.rs"),("collapsing_concat","src/ast/mod.rs")],
 ["Variable::ast, AstNode::children"])
p("C21","Engines are independent; only the database outlives a makefile",
 "Several engines that share a name cache are independent: what an engine does depends only on what was done with it, in order, and on the files as they are at that time; using another engine, or interning names, changes nothing. Between one makefile and the next an engine carries over its variables and rules (also those that took effect before an error) and nothing else: no open conditional, `define`, rule or continued line, and no text of a file read before. Each makefile is read with the command character and working directory the engine has then, and `include` reads what the named file, relative to that directory, contains then. Expanding variables and commands changes the database only by the `eval`s in them. After replace_database the engine knows exactly what the given database knows, and the two engines that share a database do not affect each other through it.",
 ["histories","schedules"],"every interleaving of reading, expanding, inspecting, copying databases, reconfiguring and changing files, with two engines",
 "No test uses an engine twice, two engines, or a file that changes.",
 ["src/lib.rs","src/eval/mod.rs","src/parsers/mod.rs","src/parsers/directives/mod.rs"],
 [("Engine::read_makefile, process_block, replace_database","src/lib.rs"),("handle_include","src/parsers/directives/mod.rs"),("Variable::expand","src/eval/mod.rs")],
 ["Engine::read_makefile, replace_database, command_char, working_directory, database","Variable::expand"],("C17","C11"),"expansion of recipe commands")
p("C22","Expressions evaluate part by part, however they were put together",
 "For every expression, whether it was parsed or put together with the constructors of `ast`, evaluating a concatenation gives the texts of its parts one after another, each evaluated in the state of the database the parts before left (also if parts are equal, empty, nested concatenations or content that was evaluated before); a reference gives the variable (or substitution) its part evaluates to; an eval gives nothing and reads what its part evaluates to as a makefile. The result depends on the parts only and not on how they are grouped, and is that of the makefile text one would write for it, if there is one. It is sensitive to what its parts are sensitive to, and each of its characters is located where the constant it comes from is. Evaluating changes the database only by evals, and never the expression. (Functions the library declares unimplemented are outside of this.)",
 ["inputs","histories"],"every expression tree over references, evals, concatenations, constants and evaluated content, in every database",
 "The tests evaluate about ten parsed expressions; none evaluates a constructed one.",
 ["src/ast/mod.rs","src/ast/text_functions.rs"],
 [("AstNode::eval_internal","src/ast/mod.rs"),("collapsing_concat","src/ast/mod.rs")],
 ["AstNode::eval","Engine::database afterwards"],(),"constructor for located strings")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
