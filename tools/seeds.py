"""The planted bugs: (file, text, replacement) edits and the body of a demonstration (see mkseeded.py)"""
P = 'src/parsers/'
SEEDS = [
    dict(id='append-flavor', property='C01',
         needs='+= on a simple variable, twice, with a variable used by the second one changed afterwards',
         breaks='Appending makes a simple variable recursive, so the next += is not expanded at once',
         edits=[('src/lib.rs', """                    vec![old.unexpanded_value, new.unexpanded_value]
                },
            );

            old
""", """                    vec![old.unexpanded_value, new.unexpanded_value]
                },
            );

            VariableParameters { flavor: new.flavor, ..old }
""")],
         demo='''
    let mut w = World::read("a := 1\\nb = 2\\na += $(b)\\na += $(b)\\nb = 3\\n");
    assert_eq!(w.val("a"), "1 2 2");
'''),
    dict(id='eval-comma', property='C10',
         needs='an eval whose text has a comma outside of brackets',
         breaks='The text to evaluate ends at the first comma',
         edits=[(P + 'ast/mod.rs', '''    let (i, args) = parse_ast(i)?;

    Ok((i, ast::eval(start_location, args)))
''', '''    let (i, args) = function_argument(i)?;
    let (_, args) = parse_ast(args)?;

    Ok((i, ast::eval(start_location, args)))
''')],
         demo='''
    let mut w = World::read("$(eval a := x(1,2),y)\\nb = 1\\n");
    assert_eq!(w.val("a"), "x(1,2),y");
'''),
    dict(id='merged-sensitivity', property='C12',
         needs='a text with two references where the second one depends on at least as many variables as were seen before, and different ones',
         breaks='The variables consulted earlier are dropped from the sensitivity',
         edits=[('src/ast/mod.rs', """                sensitivity = if new_sens.len() < sensitivity.len() {
                    sensitivity.union(new_sens)
                } else {
                    new_sens.union(sensitivity)
                };
""", """                // Don't bother to rebuild the set if there is nothing to add
                if new_sens.iter().any(|name| !sensitivity.contains(name)) {
                    sensitivity = if new_sens.len() <= sensitivity.len() {
                        sensitivity.union(new_sens)
                    } else {
                        new_sens
                    };
                }
""")],
         demo='''
    let mut w = World::read("a = 1\\nb = $(c)\\nx = $(a)$(b)\\n");
    assert_eq!(w.val("x"), "1");
    assert_eq!(w.sens("x", &["a", "b", "c"]), ["a", "b", "c"]);
'''),
    dict(id='location-bytes', property='C13',
         needs='a reference after a character outside ASCII on the same line',
         breaks='Characters are counted as bytes when a piece of text is taken out of a line',
         edits=[('src/source_location.rs', """        for c in self.contents[0..bytes].chars() {
            if c == '\\n' {
""", """        for c in self.contents.as_bytes()[0..bytes].iter() {
            if *c == b'\\n' {
""")],
         demo='''
    let mut w = World::read("a = 1\\nb = \\u{e9}$(a)x\\n");
    assert_eq!(w.segments("b"), [
        ("\\u{e9}".to_string(), Some((2, 5))), ("1".to_string(), Some((1, 5))), ("x".to_string(), Some((2, 10)))]);
'''),
    dict(id='comment-even-backslashes', property='C08',
         needs='a comment line that ends in two backslashes',
         breaks='The line after the comment is swallowed',
         edits=[(P + 'comment.rs', 'ends_with_backslash(line_parse.0) & 1 == 1', 'ends_with_backslash(line_parse.0) > 0')],
         demo='''
    let w = World::read("# C:\\\\temp\\\\\\\\\\na = 1\\nb = 2\\n");
    assert!(w.defined("a"));
    assert!(w.defined("b"));
'''),
    dict(id='innermost-conditional', property='C04',
         needs='a conditional with an else inside of a branch that is not selected',
         breaks='Only the innermost conditional decides, so the else branch of a conditional in ignored text takes effect',
         edits=[(P + 'mod.rs', """        // If any conditional is suppressing interpretation, we must be ignoring
        for conditional in &self.conditionals {
            if conditional""", """        // If the conditional is suppressing interpretation, we must be ignoring
        if let Some(conditional) = self.conditionals.last() {
            if conditional""")],
         demo='''
    let w = World::read("ifeq (a,b)\\nifeq (a,a)\\nx = 1\\nelse\\ny = 2\\nendif\\nz = 3\\nendif\\nv = 4\\n");
    assert!(!w.defined("x"));
    assert!(!w.defined("y"));
    assert!(!w.defined("z"));
    assert!(w.defined("v"));
'''),
    dict(id='define-three-deep', property='C05',
         needs='three nested defines',
         breaks='The depth of nested defines is not counted beyond two',
         edits=[(P + 'variable/mod.rs', "                define.nesting += 1;\n", "                define.nesting = 2;\n")],
         demo='''
    let w = World::read("define a\\ndefine b\\ndefine c\\nx = 1\\nendef\\nendef\\ny = 2\\nendef\\nz = 3\\n");
    assert!(!w.defined("y"));
    assert!(w.defined("z"));
'''),
    dict(id='soft-include-stops', property='C11',
         needs='-include of several files of which one that is not the last is missing',
         breaks='The files after the missing one are not read',
         edits=[(P + 'directives/mod.rs', """                        // TODO: Route this through a warnings system
                        continue;""", """                        // TODO: Route this through a warnings system
                        break;""")],
         demo='''
    std::fs::write("present.mk", "a = 1\\n").unwrap();
    let w = World::read("-include missing.mk present.mk\\nb = 2\\n");
    assert!(w.defined("a"));
    assert!(w.defined("b"));
'''),
    dict(id='second-else-while-true', property='C17',
         needs='a second else in a conditional whose first branch is selected',
         breaks='The second else is only reported if the branch before it is the selected one',
         edits=[(P + 'conditional/mod.rs', "                    if top_conditional.seen_else {\n", """                    if top_conditional.seen_else
                        && top_conditional.interpretation
                            == super::ConditionalInterpretation::Executing
                    {
""")],
         demo='''
    let mut w = World::new();
    assert!(w.more("ifeq (a,a)\\nelse\\nelse\\nx = 1\\nendif\\n").is_err());
    assert!(!w.defined("x"));
    assert!(World::new().more("ifeq (a,b)\\nelse\\nelse\\nendif\\n").is_err());
'''),
    dict(id='slice-of-slice', property='C16',
         needs='text that came out of a reference and is sliced, copied into another block, and sliced again',
         breaks='Copying a slice forgets where the piece it starts with was already cut',
         edits=[('src/evaluated/block_span.rs', "        to_push.offset += self.offset;\n", "        to_push.offset = self.offset;\n")],
         demo='''
    let mut w = World::read("a = x1.c x2.c x3.c\\nb := $(a:.c=.o)\\nc = $(b:x%=%) $(b:x%.o=<%>)\\n$(a:x%=y%): p\\n$(a): q\\n");
    assert_eq!(w.val("c"), "1.o 2.o 3.o <1> <2> <3>");
    assert_eq!(w.deps("y2.c"), ["p"]);
    assert_eq!(w.deps("x2.c"), ["q"]);
    assert_eq!(w.deps("x3.c"), ["q"]);
'''),
    dict(id='nested-target-reference', property='C09',
         needs='a target given by a reference with a nested reference in its name and a colon or blank after the inner one',
         breaks='The word ends at the first closing bracket',
         edits=[(P + 'targets/mod.rs', """                    if chr2 == chr {
                        count += 1;
                    } else if chr2 == brace_end {""", """                    if chr2 == '$' {
                        // The name of a nested reference doesn't end this one
                        char_iter.next();
                    } else if chr2 == brace_end {""")],
         demo='''
    let w = World::read("a = b\\nb = t.c\\n$($(a):.c=.o) u: d\\n");
    assert_eq!(w.deps("t.o"), ["d"]);
    assert_eq!(w.deps("u"), ["d"]);
'''),
    dict(id='recipe-even-backslashes', property='C07',
         needs='a recipe line that ends in two backslashes, followed by another recipe line',
         breaks='The next recipe line becomes part of the command',
         edits=[(P + 'recipe_line.rs', "while ends_with_backslash(line.span()) & 1 == 1 {", "while ends_with_backslash(line.span()) > 0 {")],
         demo='''
    let w = World::read("a:\\n\\techo x\\\\\\\\\\n\\techo y\\n");
    assert_eq!(w.rule("a").unwrap().1, 2);
'''),
    dict(id='replaced-rule-type', property='C06',
         needs='a rule with a recipe that replaces one of the other kind',
         breaks='The new rule is reported as single- or double-colon like the one it replaced',
         edits=[('src/lib.rs', """                        o.insert(new_rule);""", """                        let rule_type = o.get().rule_type;
                        o.insert(Rule { rule_type, ..new_rule });""")],
         demo='''
    let w = World::read("a: b\\n\\tone\\na:: c\\n\\ttwo\\n");
    let (deps, commands, debug) = w.rule("a").unwrap();
    assert_eq!(deps, ["c"]);
    assert_eq!(commands, 1);
    assert!(debug.contains("DoubleColon"));
'''),
    dict(id='directory-names', property='C15',
         needs='a file name that ends in a slash',
         breaks='A name and the same name with a trailing slash are interned as one',
         edits=[('src/lib.rs', "        let trid = self.file_names.get_or_intern(file_name);", "        let trid = self.file_names.get_or_intern(file_name.trim_end_matches('/'));")],
         demo='''
    let mut n = NameCache::default();
    let a = n.intern_file_name("out".to_string());
    let b = n.intern_file_name("out/".to_string());
    assert!(a != b);
    assert_eq!(n.resolve_file_name(b), Some("out/"));
'''),
    dict(id='located-order', property='C19',
         needs='comparing located text of equal content from different files or of different kinds',
         breaks='Located values that cannot be ordered are reported as equal if their contents are',
         edits=[('src/source_location.rs', "        self.location.inner.partial_cmp(&o.location.inner)", """        self.location.inner.partial_cmp(&o.location.inner).or_else(|| {
            // The same thing is as good as at the same place
            if self.contents == o.contents {
                Some(std::cmp::Ordering::Equal)
            } else {
                None
            }
        })""")],
         demo='''
    let mut w = World::read("a = x\\n");
    w.engine.read_makefile(&mut w.names, &mut "b = x\\n".as_bytes(), "other").unwrap();
    let mut texts = Vec::new();
    for v in &["a", "b"] {
        let n = w.names.intern_variable_name(v.to_string());
        let ast = w.engine.database.get_variable(n).unwrap().ast().clone();
        texts.push(ast.eval(&mut w.names, &mut w.engine));
    }
    let (a, b) = (texts[0].span().segments().next().unwrap(), texts[1].span().segments().next().unwrap());
    assert_eq!(a.partial_cmp(&b), None);
    assert_eq!(a.partial_cmp(&a), Some(std::cmp::Ordering::Equal));
'''),
    dict(id='one-bracket-count', property='C20',
         needs='a comma in an argument after an unmatched bracket of the other kind closed it, or brackets of both kinds nested around a comma',
         breaks='Opening brackets are only counted outside of the other kind, so a comma is found inside nested brackets',
         edits=[(P + 'ast/mod.rs', "            '{' => curly_count += 1,", "            '{' => curly_count = 1,")],
         demo='''
    // {{a} , b} c is one argument
    let mut w = World::read("x = $(word 1,{{a} , b} c)\\n");
    assert!(w.defined("x"));
    let _ = &mut w;
'''),
    dict(id='bracket-kinds', property='C02',
         needs='a variable name with an unbalanced bracket of the kind that does not delimit the reference',
         breaks='Brackets of both kinds are balanced together, so the reference ends too late',
         edits=[(P + 'ast/mod.rs', '''        if c == start_char {
            count += 1;
        } else if c == term_char {
            count -= 1;
        };''', '''        if c == '(' || c == '{' {
            count += 1;
        } else if c == ')' || c == '}' {
            count -= 1;
        };''')],
         demo='''
    let mut w = World::read("a{ = 1\\nb = <$(a{)>}\\nc = ${a(} $(a) ) $(a{}b)\\n");
    assert_eq!(w.val("b"), "<1>}");
    assert_eq!(w.val("c"), "  ) ");
'''),
    dict(id='tab-separated-words', property='C03',
         needs='a substitution reference to a value whose words are separated by a tab',
         breaks='Words are only split at spaces',
         edits=[(P + 'mod.rs', "            pe_fix!(take_while!(|c| c != ' ' && c != '\\t')),", "            pe_fix!(take_while!(|c| c != ' ')),")],
         demo='''
    let mut w = World::read("a = x.c\\ty.c\\nb = $(a:.c=.o)\\n");
    assert_eq!(w.val("b"), "x.o y.o");
'''),
    dict(id='word-visit-order', property='C18',
         needs='a visitor that depends on the order, on an expression with a word call',
         breaks='Visitors are shown the words of a word call before its index',
         edits=[('src/ast/visit.rs', """                self.visit_ast(index);
                self.visit_ast(words);""", """                self.visit_ast(words);
                self.visit_ast(index);""")],
         demo='''
    use hastur::ast::{visit::Visitor, AstNode};
    struct Names(Vec<String>);
    impl<'n> Visitor<'n> for Names {
        fn visit_constant(&mut self, content: &'n hastur::source_location::LocatedString) {
            self.0.push(content.to_string());
        }
    }
    let mut w = World::read("x = $(word 1,a b)\\n");
    let n = w.names.intern_variable_name("x".to_string());
    let ast: AstNode = w.engine.database.get_variable(n).unwrap().ast().clone();
    let mut v = Names(Vec::new());
    v.visit_ast(&ast);
    assert_eq!(v.0, ["1", "a b"]);
'''),
    dict(id='target-variables-shared', property='C14', cfg=True,
         needs='setting a variable for a second target',
         breaks='A target that has no variables yet starts with those of another one',
         edits=[('src/lib.rs', """            .entry(target)
            .or_default()""", """            .entry(target)
            .or_insert_with(|| {
                self.target_variables
                    .values()
                    .find(|known| known.contains_key(&name))
                    .cloned()
                    .unwrap_or_default()
            })""")],
         demo='''
    let mut w = World::read("a = 1\\nb = 2\\n");
    let (a, b) = (w.names.intern_variable_name("a".to_string()), w.names.intern_variable_name("b".to_string()));
    let (s, t) = (w.names.intern_file_name("s".to_string()), w.names.intern_file_name("t".to_string()));
    let db = w.engine.database.clone();
    let value = |n| hastur::verif_hooks::variable_parameters(db.get_variable(n).unwrap().ast().clone(), hastur::Flavor::Recursive, hastur::Origin::File);
    let db2 = db.set_variable_for_target(s, a, value(a)).set_variable_for_target(s, b, value(b)).set_variable_for_target(t, a, value(a));
    assert!(db2.get_variable_for_target(t, a).is_some());
    assert!(db2.get_variable_for_target(t, b).is_none());
'''),
    dict(id='added-rule-kept', property='C14',
         needs='adding a rule for a target that has one already, from another database',
         breaks='Adding a rule leaves the rule that is there alone',
         edits=[('src/lib.rs', "        tr.rules.insert(rule.target_fname, rule);\n", "        tr.rules.entry(rule.target_fname).or_insert(rule);\n")],
         demo='''
    let mut w = World::read("t: a\\n");
    let old = w.engine.database.clone();
    w.more("t: b\\n").unwrap();
    let t = w.names.file_name("t").unwrap();
    let rule = w.engine.database.get_rule(t).unwrap().clone();
    let new = old.add_rule(rule);
    assert_eq!(new.get_rule(t).unwrap().dependencies().len(), 2);
    assert_eq!(old.get_rule(t).unwrap().dependencies().len(), 1);
'''),
    dict(id='undefined-sensitivity', property='C12',
         needs='a reference to a variable that is not defined',
         breaks='Only variables that are defined are part of the sensitivity',
         edits=[('src/ast/mod.rs', '''                    eval_subexpr!(var_ast)
                } else {
                    Block::empty()
                };
                sensitivity.insert(interned_variable_name);
''', '''                    sensitivity.insert(interned_variable_name);
                    eval_subexpr!(var_ast)
                } else {
                    Block::empty()
                };
''')],
         demo='''
    let mut w = World::read("a = $(b)$(c)\\nc = 1\\n");
    w.engine.read_makefile(&mut w.names, &mut "x := $(b)".as_bytes(), "m").unwrap();
    assert_eq!(w.sens("a", &["b", "c", "x"]), ["b", "c"]);
'''),
    dict(id='byte-order-marks', property='C08',
         needs='a byte order mark at the start of a line that is not the first one',
         breaks='A byte order mark is skipped before every line',
         edits=[('src/lib.rs', '''            i = new_i;
        }
''', '''            i = match opt!(new_i, char!('\\u{feff}')) {
                Ok((without_mark, _)) => without_mark,
                Err(_) => new_i,
            };
        }
''')],
         demo='''
    let w = World::read("a = 1\\n\\u{feff}b = 2\\n");
    assert!(!w.defined("b"));
    assert!(w.defined("\\u{feff}b"));
'''),
    dict(id='drive-letter-backslash', property='C09',
         needs='a drive letter path with backslashes that comes out of a reference, among targets',
         breaks='Only `:/` marks a drive letter path',
         edits=[(P + 'targets/mod.rs', '''                    if ch != '/' && ch != '\\\\' {''', '''                    if ch != '/' {''')],
         demo='''
    let w = World::read("p = c:\\\\x\\n$(p) k: b\\n");
    assert_eq!(w.deps("k"), ["b"]);
    assert_eq!(w.deps("c:\\\\x"), ["b"]);
'''),
    dict(id='continued-recipe-tab', property='C07',
         needs='a command character other than tab, and a recipe line that is continued',
         breaks='The line that continues a command loses a leading tab instead of the command character',
         edits=[(P + 'recipe_line.rs', '''        let next_line_result = grab_command_line!(i);
''', '''        let next_line_result = preceded!(
            i,
            fix_error!(ParseErrorKind, opt!(char!('\\t'))),
            makefile_grab_line
        );
''')],
         demo='''
    let mut w = World::new();
    w.engine.command_char = '>';
    w.more("k:\\n>a\\\\\\n>b\\n>c\\n").unwrap();
    assert_eq!(w.rule("k").unwrap().1, 2);
    assert!(!w.rule("k").unwrap().2.contains(">b"));
'''),
    dict(id='repeated-prerequisites', property='C06',
         needs='a prerequisite that is added again by a later rule without recipe',
         breaks='A prerequisite that is already known is not added again',
         edits=[('src/lib.rs', '''                        for dep in deps {
                            existing_rule.deps.push(Arc::clone(dep));
                        }
''', '''                        for dep in deps {
                            let name = names.file_name(&dep.into_string());
                            if name.map_or(true, |name| !existing_rule.dep_names.contains(&name)) {
                                existing_rule.deps.push(Arc::clone(dep));
                            }
                        }
''')],
         demo='''
    let w = World::read("k: a b\\nk: b c\\n");
    assert_eq!(w.deps("k"), ["a", "b", "b", "c"]);
'''),
    dict(id='nested-endif', property='C04',
         needs='a conditional that is not selected, inside of one that is, with lines after it',
         breaks='Lines after an inner endif are read only when they were before',
         edits=[(P + 'conditional/mod.rs', '''                self.conditionals.pop();
''', '''                if self.conditionals.pop().map_or(false, |_| self.conditionals.len() > 1) {
                    return Ok(());
                }
''')],
         demo='''
    let w = World::read("ifeq (1,1)\\nifeq (1,1)\\nifeq (1,2)\\na = 1\\nendif\\nb = 1\\nendif\\nendif\\n");
    assert!(w.defined("b") && !w.defined("a"));
'''),
    dict(id='include-all-or-none', property='C11',
         needs='include of several files of which one that is not the first is missing',
         breaks='No file is read when one of them is missing',
         edits=[(P + 'directives/mod.rs', '''        let files = parse_file_seq(contents.span(), seq_parse_options);
''', '''        let mut files = parse_file_seq(contents.span(), seq_parse_options);
        let missing = |file: &std::sync::Arc<crate::evaluated::Block>| !engine.working_directory.join(file.into_string()).exists();
        if let (false, Some(first)) = (soft, files.iter().position(missing)) {
            files.drain(..first);
        }
''')],
         demo='''
    std::fs::write("one.mk", "a = 1\\n").unwrap();
    let mut w = World::new();
    w.engine.working_directory = std::env::current_dir().unwrap();
    match w.more("include one.mk missing.mk\\n") {
        Err(e) => assert!(format!("{:?}", e).contains("missing.mk")),
        Ok(_) => panic!("missing.mk does not exist"),
    }
    assert!(w.defined("a"));
'''),
    dict(id='append-to-empty', property='C01',
         needs='+= on a variable that is defined as empty',
         breaks='Appending to an empty value adds no space',
         edits=[('src/lib.rs', "                if implicit_space {\n", "                if implicit_space && old.unexpanded_value.children() != &ast::AstChildren::Empty {\n")],
         demo='''
    let mut w = World::read("a =\\na += x\\n");
    assert_eq!(w.val("a"), " x");
'''),
    dict(id='included-twice', property='C11',
         needs='a file that is named twice in one include line',
         breaks='A file named twice in an include line is read once',
         edits=[(P + 'directives/mod.rs', """        let files = parse_file_seq(contents.span(), seq_parse_options);
""", """        let mut files = parse_file_seq(contents.span(), seq_parse_options);
        let mut seen = std::collections::HashSet::new();
        files.retain(|file| seen.insert(file.into_string()));
""")],
         demo="""
    std::fs::write("one.mk", "a += x\\n").unwrap();
    let mut w = World::new();
    w.engine.working_directory = std::env::current_dir().unwrap();
    w.more("include one.mk one.mk\\n").unwrap();
    assert_eq!(w.val("a"), "x x");
"""),
    dict(id='include-rolls-back', property='C17',
         needs='an error in an included file, after lines of it that took effect',
         breaks='An included file with an error has no effect at all',
         edits=[(P + 'directives/mod.rs', """            engine
                .read_makefile(names, &mut br, &file)
                .map_err(|e| match e {
                    MakefileError::IOError(e) => ParseErrorKind::IncludeFailure(e.kind(), file),
                    MakefileError::ParseError(p) => p,
                })?;
""", """            let before = engine.database.clone();
            engine
                .read_makefile(names, &mut br, &file)
                .map_err(|e| match e {
                    MakefileError::IOError(e) => ParseErrorKind::IncludeFailure(e.kind(), file),
                    MakefileError::ParseError(p) => {
                        engine.replace_database(before);
                        p
                    }
                })?;
""")],
         demo="""
    std::fs::write("one.mk", "a = x\\nendif\\nb = x\\n").unwrap();
    let mut w = World::new();
    w.engine.working_directory = std::env::current_dir().unwrap();
    assert!(w.more("c = x\\ninclude one.mk\\n").is_err());
    assert!(w.defined("c") && w.defined("a") && !w.defined("b"));
"""),
    dict(id='carriage-return-column', property='C13',
         needs='a carriage return in the middle of a line, and a reference after it',
         breaks='A carriage return does not count as a character of its line',
         edits=[('src/source_location.rs', """            if c == '\\n' {
                new_location = new_location.advance_line();
            } else {
                new_location = new_location.advance_character();
            }
        }
""", """            if c == '\\n' {
                new_location = new_location.advance_line();
            } else if c != '\\r' {
                new_location = new_location.advance_character();
            }
        }
""")],
         demo="""
    let mut w = World::read("b = x\\na = p\\rq$(b)r\\n");
    assert_eq!(w.segments("a").last().unwrap(), &("r".to_string(), Some((2, 12))));
"""),
    dict(id='reference-name-trim', property='C02',
         needs='a reference with a blank at an end of its name',
         breaks='Blanks around the name in a reference do not matter',
         edits=[('src/ast/mod.rs', """                        // If we fail to recognize a replacement, just treat it as a regular reference
                        let value = deref_variable!(name.into_string());
""", """                        // If we fail to recognize a replacement, just treat it as a regular reference
                        let value = deref_variable!(name.into_string().trim().to_string());
""")],
         demo="""
    let mut w = World::read("b = x\\nc =\\na = [$(b$(c)) $( b) $(b )]\\n");
    assert_eq!(w.val("a"), "[x  ]");
"""),
    dict(id='dot-slash-names', property='C15',
         needs='two file names that differ in a leading ./ only',
         breaks='A leading ./ is not part of a file name',
         edits=[('src/lib.rs', "        let trid = self.file_names.get_or_intern(file_name);\n", """        let trid = match file_name.strip_prefix("./") {
            Some(rest) if rest.len() > 0 => self.file_names.get_or_intern(rest),
            _ => self.file_names.get_or_intern(file_name),
        };
""")],
         demo="""
    let mut names = NameCache::default();
    let a = names.intern_file_name("a.c".to_string());
    let b = names.intern_file_name("./a.c".to_string());
    assert!(a != b);
    assert_eq!(names.resolve_file_name(b), Some("./a.c"));
"""),
    dict(id='recipe-keeps-prerequisites', property='C06',
         needs='a rule with prerequisites, then a rule for the same target that has a recipe and no prerequisites',
         breaks='A rule with a recipe and no prerequisites keeps the known prerequisites',
         edits=[('src/lib.rs', """                        warn!("Overwriting existing rule for target {:?}", target_as_fname);
                        o.insert(new_rule);
""", """                        warn!("Overwriting existing rule for target {:?}", target_as_fname);
                        let known = o.get().deps.clone();
                        let keep = new_rule.deps.is_empty() && o.get().recipe.0.is_empty();
                        o.insert(Rule { deps: if keep { known } else { new_rule.deps.clone() }, ..new_rule });
""")],
         demo="""
    let w = World::read("k: a\\nk:\\n\\tc\\n");
    assert_eq!(w.deps("k"), Vec::<String>::new());
    assert_eq!(w.rule("k").unwrap().1, 1);
"""),
    dict(id='value-before-name', property='C10',
         needs='an eval in the name of a simple assignment that changes a variable its value uses',
         breaks='The value of an assignment is expanded before its name',
         edits=[(P + 'variable/mod.rs', """    let variable_name = name_ast.eval(names, context);
    let variable_name = variable_name.into_string().trim().into();
    let variable_name = names.intern_variable_name(variable_name);

    // Appending""", """    let early_value = match assignment_type {
        AssignmentType::Simple => Some(value_ast.eval(names, context)),
        _ => None,
    };
    let variable_name = name_ast.eval(names, context).into_string();
    let variable_name = variable_name.trim().into();
    let variable_name = names.intern_variable_name(variable_name);

    // Appending"""), (P + 'variable/mod.rs', """        let contents = value_ast.eval(names, context);
        // An empty""", """        let contents = match early_value {
            Some(contents) => contents,
            None => value_ast.eval(names, context),
        };
        // An empty""")],
         demo="""
    let mut w = World::read("b = 1\\n$(eval b = 2)a := $(b)\\n");
    assert_eq!(w.val("a"), "2");
"""),
    dict(id='conditional-closes-rule', property='C04',
         needs='a conditional between a rule and its recipe that leaves out the first recipe lines',
         breaks='The end of the outermost conditional ends a rule that has no recipe line yet',
         edits=[(P + 'conditional/mod.rs', """                self.conditionals.pop();
                self.update_ignoring();
""", """                let _ended = self.conditionals.pop();
                self.update_ignoring();
                if self.conditionals.is_empty() && !self.current_rule.as_ref().map_or(true, |rule| rule.recipe.commands().len() > 0) {
                    self.close_rule(names, engine);
                }
""")],
         demo="""
    let w = World::read("k: x\\nifeq (1,2)\\n\\ta\\nendif\\n\\tb\\n");
    assert_eq!(w.rule("k").unwrap().1, 1);
"""),
    dict(id='include-contents-kept', property='C21',
         needs='a file that is included, changes, and is included again',
         breaks='The contents of included files are kept for the next time',
         edits=[('src/parsers/directives/mod.rs', """            let mut br = std::io::BufReader::new(f);

            engine
                .read_makefile(names, &mut br, &file)
""", """            let contents = match KNOWN.with(|known| known.borrow().get(&path).cloned()) {
                Some(contents) => contents,
                None => {
                    let mut contents = Vec::new();
                    std::io::Read::read_to_end(&mut std::io::BufReader::new(f), &mut contents)
                        .map_err(|e| ParseErrorKind::IncludeFailure(e.kind(), file.clone()))?;
                    KNOWN.with(|known| known.borrow_mut().insert(path.clone(), contents.clone()));
                    contents
                }
            };

            engine
                .read_makefile(names, &mut &contents[..], &file)
"""), ('src/parsers/directives/mod.rs', """fn keyword<'a>(
    i: BlockSpan<'a>,
    keyword: &'static str,
""", """thread_local! {
    static KNOWN: std::cell::RefCell<std::collections::HashMap<std::path::PathBuf, Vec<u8>>> = Default::default();
}

fn keyword<'a>(
    i: BlockSpan<'a>,
    keyword: &'static str,
""")],
         demo="""
    let mut w = World::new();
    w.engine.working_directory = std::env::current_dir().unwrap();
    std::fs::write("one.mk", "a = 1\\n").unwrap();
    w.more("include one.mk\\n").unwrap();
    std::fs::write("one.mk", "a = 2\\n").unwrap();
    w.more("include one.mk\\n").unwrap();
    assert_eq!(w.val("a"), "2");
"""),
    dict(id='include-missing-kept', property='C21',
         needs='an optional include of a file that does not exist, which exists when it is included again',
         breaks='A file that was missing once is missing forever',
         edits=[('src/parsers/directives/mod.rs', """            let f = match File::open(&path) {
                Ok(f) => f,
                Err(e) => {
                    warn!("Failed to include file {:?}", &file);
                    if soft {
""", """            if soft && MISSING.with(|missing| missing.borrow().contains(&path)) {
                continue;
            }

            let f = match File::open(&path) {
                Ok(f) => f,
                Err(e) => {
                    warn!("Failed to include file {:?}; not trying again", &file);
                    if soft {
                        MISSING.with(|missing| missing.borrow_mut().insert(path));
"""), ('src/parsers/directives/mod.rs', """fn keyword<'a>(
    i: BlockSpan<'a>,
    keyword: &'static str,
""", """thread_local! {
    /// Files there is no need to look for again
    static MISSING: std::cell::RefCell<std::collections::HashSet<std::path::PathBuf>> = Default::default();
}

fn keyword<'a>(
    i: BlockSpan<'a>,
    keyword: &'static str,
""")],
         demo="""
    let mut w = World::new();
    w.engine.working_directory = std::env::current_dir().unwrap();
    w.more("-include one.mk\\n").unwrap();
    std::fs::write("one.mk", "a = 1\\n").unwrap();
    w.more("-include one.mk\\n").unwrap();
    assert!(w.defined("a"));
"""),
    dict(id='replace-merges', property='C21',
         needs='replacing the database of an engine that knows a variable the new one does not',
         breaks='Replacing the database keeps variables that the new one lacks',
         edits=[('src/lib.rs', """        self.database = db;
""", """        let variables = db.variables.clone().union(self.database.variables.clone());
        self.database = Database { variables, ..db };
""")],
         demo="""
    let mut w = World::read("a = 1\\n");
    let other = World::read("").engine.database.clone();
    w.engine.replace_database(other);
    assert!(!w.defined("a"));
"""),
    dict(id='equal-parts-once', property='C22',
         needs='the same expression twice in a row in a concatenation, with an eval inside of it',
         breaks='Equal neighbours in a concatenation are evaluated once',
         edits=[('src/ast/mod.rs', """                for child in children {
                    contents.extend(eval_child!(child));
                }
                contents
""", """                let mut last: Option<(&AstNode, Vec<ContentReference>)> = None;
                for child in children.iter() {
                    let content = match last {
                        Some((node, ref content)) if node == child => content.clone(),
                        _ => eval_child!(child),
                    };
                    contents.extend(content.iter().cloned());
                    last = Some((child, content));
                }
                contents
""")],
         demo="""
    use hastur::ast;
    use hastur::source_location::{LocatedString, Location};
    let mut w = World::read("u=$(eval a+=x)\\n");
    let u = ast::variable_reference(Location::Synthetic, ast::constant(LocatedString::synthetic_new("u")));
    let twice = ast::collapsing_concat(Location::Synthetic, vec![u.clone(), u]);
    twice.eval(&mut w.names, &mut w.engine);
    assert_eq!(w.val("a"), "x x");
"""),
    dict(id='eval-of-expanded', property='C22',
         needs='an eval node whose part is content that was evaluated before',
         breaks='An eval of content that was evaluated before does nothing',
         edits=[('src/ast/mod.rs', """            AstChildren::Eval(content) => {
                let content = eval_subexpr!(content);
                let contentref""", """            AstChildren::Eval(content) => {
                let evaluated = match content.children() {
                    AstChildren::PreEvaluated(_) => true,
                    _ => false,
                };
                let content = if evaluated { Block::empty() } else { eval_subexpr!(content) };
                let contentref""")],
         demo="""
    use hastur::ast;
    use hastur::evaluated::{constant, Block};
    use hastur::source_location::{LocatedString, Location};
    let mut w = World::new();
    let mut text = Block::default();
    text.push(constant(LocatedString::synthetic_new("a=1")));
    let text = std::sync::Arc::new(text);
    ast::eval(Location::Synthetic, ast::preevaluated(Location::Synthetic, text)).eval(&mut w.names, &mut w.engine);
    assert_eq!(w.val("a"), "1");
"""),
    dict(id='include-not-text-missing', property='C17',
         needs='an include of a file that exists and is not text',
         breaks='A file that cannot be read as text is reported as missing',
         edits=[('src/parsers/directives/mod.rs', """                    MakefileError::IOError(e) => ParseErrorKind::IncludeFailure(e.kind(), file),
""", """                    MakefileError::IOError(_) => ParseErrorKind::IncludeFailure(std::io::ErrorKind::NotFound, file),
""")],
         demo="""
    std::fs::write("one.mk", b"a = \\xff\\n").unwrap();
    let mut w = World::new();
    w.engine.working_directory = std::env::current_dir().unwrap();
    match w.more("include one.mk\\n") {
        Err(MakefileError::ParseError(hastur::ParseErrorKind::IncludeFailure(kind, _))) => assert_eq!(kind, std::io::ErrorKind::InvalidData),
        _ => panic!("not reported"),
    }
"""),
]
