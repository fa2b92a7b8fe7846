"""Which Verus units decide which property, which functions of a unit carry it, and how the bounded
validation (harness/vh) of the same property is described."""
# units: unit name -> functions whose obligations the property depends on (regexes on the function key)
RULES = {u: "marked" for u in ("ops", "valid", "naming", "strings", "dups", "ending", "breaks", "indent")}
VT = "deductive verification (Verus): contracts on the real functions, extracted mechanically from the source on every run"
PT = ["std: Vec, slice iterators, Option, mem::replace (stubs in core_prelude.rs and vstd)",
      "rowan: GreenNodeBuilder start_node/token/finish_node/finish append in call order; TextRange new/start/end",
      "vx: macro expansion of T!/SyntaxKind tables and the source rewrites listed under `rewrites`"]
PA = ["the logos-generated lexer returns consecutive non-empty slices until the end of the input (stub VxLexer)",
      "inputs of at most 0x3fff_ffff characters and 4 GiB, so positions and marker indices do not overflow"]
LT = ["std: Vec, String::replace_range, sort_by_key (stable), HashSet, fs::read_to_string/write (stubs in the unit file)",
      "codespan_reporting: rendering has no effect on the file system and succeeds; mpsc::Sender::send succeeds",
      "vx: iterator chains rewritten to loops, `continue` to nesting, ghost state parameters (listed under `rewrites` and `notes`)"]
LA = ["parse and the rules are functions of their input"]
RT = ["rowan: the tree accessors (children, parent, siblings, tokens, text, ranges) behave as the tree model of tree_prelude.rs says",
      "rowan::ast::support child/children/token (stubs in tree_prelude.rs)",
      "vx: item macro ast_node! expanded, iterator chains rewritten to loops over vectors, string comparison as vx_str_eq (listed under `rewrites` and `notes`)"]
RA = ["trees are finite and parents and children fit together (ax_child, ax_parent)"]
PROPS = {
    "C01": dict(units={"core": [r".*"], "whole": [r".*"]}, technique=VT,
        note="Proved end to end: parse(text).green_node.text() == text, from lex over root (which reaches the end of the token list) to Sink::finish. Assumed: logos hands out consecutive slices (stub VxLexer), rowan's builder concatenates what it is given.",
        trusted=PT, assumptions=PA),
    "C02": dict(units={"core": [r".*"], "parser": [r".*"], "whole": [r"lex", r"parse", r"Parser::parse", r"root.*", r"parse_many__root__0"]}, technique=VT,
        note="Every unwrap, index, panic!, assert!, unreachable! and arithmetic operation reachable from the grammar's root is an obligation discharged for all token lists; drop-bomb markers are proved completed. The regexes in html.rs/expression helpers and rowan are external.",
        trusted=PT, assumptions=PA + ["recursion depth does not exhaust the stack (excepted by the property)"]),
    "C03": dict(units={"core": [r".*"], "parser": [r".*"], "whole": [r"lex", r"parse", r"Parser::parse", r"root.*", r"parse_many__root__0"]}, technique=VT,
        note="Every loop and every recursive grammar function has a termination measure (remaining tokens, then a static rank of the function), discharged by Verus for all token lists.",
        trusted=PT, assumptions=PA),
    "C04": dict(units={"core": [r".*"], "whole": [r".*"]}, technique=VT,
        note="The parser invariant says of every recorded error that its range is the range of one token and the found kind is that token's kind, or no kind is named and the range is the last token's; add_error and everything that calls it is proved to keep it.",
        trusted=PT, assumptions=PA),
    "C17": dict(units={"expr": [r"SyntaxKind::(binary|unary)_binding_power", r"parse_twig_expression.*", r"parse_unary_expression", r"parse_twig_literal", r"parse_twig_name"]}, technique=VT,
        note="The two binding power functions equal the operator table; each expression parse is proved to leave no operator behind that binds at least as tight as its context asks for, and to give each operator its right operand by the table, unless an operand is missing. That these facts make the tree group by the table is the Pratt argument of DESIGN.md, on paper; the oracle compares whole trees.",
        trusted=PT, assumptions=PA),
    "C05": dict(units={"fix": [r"apply_suggestions_to_text", r"iteratively_apply_suggestions", r"get_rule_context_suggestions", r"lemma_.*"], **RULES}, technique=VT,
        note="apply_suggestions_to_text is proved to equal the simultaneous splice of the ranges for every sorted disjoint list; iteratively_apply_suggestions is proved to pass only disjoint suggestions taken from the rules' results, in the order of the text, for every set of suggestions. That the ranges of all suggestions lie in the text on character boundaries is a type invariant of CheckSuggestion, proved in the units of the rules wherever one is made.",
        trusted=LT, assumptions=LA),
    "C06": dict(units={"fix": [r"iteratively_apply_suggestions", r"get_rule_context_suggestions", r"run_analysis", r"vx_task"]}, technique=VT,
        note="Ok implies: at most ten rounds, each a fixing round of the previous text, tree and syntax errors those of the new text, results those of the rules on it and no suggestion left; dirty exactly when a round ran.",
        trusted=LT, assumptions=LA),
    "C07": dict(units={"fix": [r"run_analysis", r"process_file", r"iteratively_apply_suggestions", r"vx_task"]}, technique=VT,
        note="A ghost log of file writes is threaded through process_file: it grows by at most one entry, only with --fix, only after a successful fix with at least one round, with the file's own path and exactly the fixed text.",
        trusted=LT, assumptions=LA + ["fs::write is the only call in process.rs that writes files (every other call there is a function under contract or a stub without file access)"]),
    "C16": dict(units={"output": [r".*"], "fix": [r"produce_diagnostics", r".*send_processing_output", r"process_file", r"run_analysis", r"vx_task"], "paths": [r"vx_visit", r".*send_processing_output"], "main": [r"app", r"vx_main", r"handle_config_or_exit"], **RULES}, technique=VT,
        note="A ghost log of sent events shows that each file sends one FileProcessed and one Report per diagnostic rendered, with its severity; the receiving loop is proved to count every event of any sequence once, to print exactly these counts and to return 1 exactly when an error, warning or help was counted. The closures of main.rs's directory walk (lifted mechanically to functions vx_visit and vx_task) are proved to report every unreadable entry and every failed file as one error and to hand every other entry that is no directory to exactly one task; app and main are proved to exit with the code the receiving loop returned. The places of all notes (type invariant of CheckNote in the units of the rules), suggestions and syntax errors are proved to lie in the text on character boundaries, which the renderer requires. The channel, the renderer and the walker themselves are assumed.",
        trusted=LT, assumptions=LA + ["fewer than 2^31 events", "mpsc delivers every sent event exactly once; the receiver outlives the senders"]),
    "C18": dict(units={"kinds": [r".*"], "core": "marked"}, technique=VT,
        note="kind_to_raw and kind_from_raw under contract with the discriminants of the enum taken from its declaration; round trip proved for every kind, every other raw value refused, validity of the transmute an obligation. The parser's calls (bump, bump_as, bump_next_n_as, start, complete, precede) are proved to add exactly the event with the kind they name, and Sink::finish is proved to tell the tree builder exactly the kinds and texts that the event list stands for (items), in order, each node once.",
        trusted=["vx: discriminants follow the declaration order of a repr(u16) enum", "rowan stores and returns raw kinds unchanged and builds the tree it was told"], assumptions=[]),
    "C21": dict(units={"ops": [r"Rule.*", r"chain_contains_json_encode", r"TwigBinaryExpression::.*", r"TwigFilter::.*", r"separator_.*", r"CheckResult::.*"]}, technique=VT,
        note="check_node of the six rules is proved to return exactly one result with the specified range and replacement text when the node is such a use, and none otherwise, for every tree; json_encode is searched in the whole filter chain. That the rules are called for every node is C08's part.",
        trusted=RT, assumptions=RA + ["trim removes white space at both ends only (function trimmed)"]),
    "C19": dict(units={"valid": [r"Rule.*", r"extract_test_name", r"TwigBinaryExpression::.*", r"TwigFilter::.*", r"TwigFunctionCall::.*", r"TwigLiteralName::.*"]}, technique=VT,
        note="check_node of the three rules is proved to report exactly when the node is a use with a plain name that is not in the configured list, for every tree and configuration; the place of a call (filter, test, or neither) is decided by its parent and grandparent.",
        trusted=RT, assumptions=RA),
    "C11": dict(units={"naming": [r"is_.*", r"try_make.*", r"check_literal_names", r"Rule.*", r"essence.*", r"Html(Attribute|StartingTag)::.*", r"TwigStartingBlock::.*", r"TwigLiteralName::.*"]}, technique=VT,
        note="The three predicates are proved equal to the conventions for every string; each rename returned is proved accepted, not empty and equal to the original apart from case and separators; the three rules are proved to report exactly the names their predicate rejects.",
        trusted=RT + ["char::is_ascii_*, to_ascii_*, str::chars().enumerate().peekable(), trim_start_matches(char), contains(char) (stubs in naming.unit)"], assumptions=RA),
    "C13": dict(units={"strings": [r"Rule(Html|Twig)StringQuotation::.*", r".*make_changed_quotes.*", r"(Html|Twig)(Literal)?String.*::.*"]}, technique=VT,
        note="check_node of both rules is proved to report exactly the misquoted strings and to suggest exactly the two quotes' ranges (empty ranges at the ends of the content where a quote is missing), or nothing where the content contains the quote or would become an interpolation, for every tree and configuration.",
        trusted=RT + ["str::starts_with(char), str::contains(str), SyntaxText::contains_char (stubs)"], assumptions=RA),
    "C15": dict(units={"main": [r".*"]}, technique=VT,
        note="Every call of process::exit is an obligation: with -C the program may end only with a failure and nothing written if the path existed, and otherwise only with success after exactly one write of the default configuration (version replaced) to that path, no file processed; handle_config_or_exit is proved to return only without -C.",
        trusted=["std::path::Path::exists, fs::write, str::replace, process::exit (stubs in main.unit)", "vx: thread::spawn/join and the channel as stubs; print macros have no effect on files (listed under `rewrites` and `notes`)"],
        assumptions=["nothing else creates the file between the test and the write", "what exists is what Path::exists sees (a dangling symbolic link counts as nothing)"]),
    "C09": dict(units={"active": [r"get_.*active.*", r"keep_.*", r"exactly_the_rules", r"kept_known", r"rule_name.*", r"Ludtwig.*"], "fix": [r"process_file", r"run_analysis"], "main": [r"app", r"vx_main", r"handle_config_or_exit"]}, technique=VT,
        note="get_config_active_rule_definitions and get_file_active_rule_definitions are proved to return exactly the rules named and known, minus those named by the top-level file directives, each once, or an error naming an unknown rule, for every configuration and tree; process_file is proved to run run_analysis with these rules; app is proved to end with a failure without processing any file if a name is unknown, and main to exit with app's code.",
        trusted=RT, assumptions=RA),
    "C22": dict(units={"strings": [r"RuleTwigHashKeyNoQuotes::.*", r"TwigLiteralString.*::.*"]}, technique=VT,
        note="check_node is proved to report exactly the keys whose content is one element that matches the pattern in the source, and to suggest removing exactly the two quotes.",
        trusted=RT + ["the regex library matches the pattern ^[a-zA-Z_\\x7f-\\xff][a-zA-Z0-9_\\x7f-\\xff]*$ as documented (ax_name_pattern); the pattern itself is read from the source"], assumptions=RA),
    "C08": dict(units={"walk": [r".*"], "dups": [r".*ignore.*", r"line_any", r"LudtwigDirective.*"], "indent": [r"RuleIndentation::.*ignore.*", r"line_any"]}, technique=VT,
        note="run_rules is proved to return exactly, in order, what each active rule that is not named by a directive in scope says about each element outside subtrees muted by a blanket directive and outside erroneous subtrees, for every tree and rule list; the scope of a directive is proved to be the element behind it and everything inside (scope_exactly). A rule's own answer is a function of the element and the context. The helpers of the rules that walk the tree themselves (check_for_rule_ignore_enter/leave) are proved to keep the flag equal to 'named by a directive in front of this node or of one around it' and to skip exactly the subtrees behind a blanket directive.",
        trusted=RT + ["rowan: PreorderWithTokens next/skip_subtree follow the events of rowan 0.16.1 cursor.rs (VxPreorder in walk.unit)"], assumptions=RA + ["the root handed to run_rules has no parent"]),
    "C10": dict(units={"walk": [r"run_rules", r"is_trivia_sensitive_node", r"inside_exactly", r"line_inside", r"step_.*", r"Html(StartingTag|Tag)::.*"], "breaks": [r"RuleTwigBlockLineBreaks::check_node", r"RuleRunContext::.*"], "indent": [r"RuleIndentation::(check_root|handle_first.*|check_for_trivia.*|is_trivia.*)", r"line_any", r"track_.*"]}, technique=VT,
        note="run_rules is proved to hand each rule a context whose flag is set exactly inside the sensitive elements (pre, textarea, script, style, strings), at any depth and after nested ones have ended; the block line break rule is proved to answer nothing when the flag is set; every result of the indentation rule's own walk is proved to stand at a token outside the sensitive tags.",
        trusted=RT + ["rowan: PreorderWithTokens next/skip_subtree follow the events of rowan 0.16.1 cursor.rs (VxPreorder in walk.unit)"], assumptions=RA + ["the root handed to run_rules has no parent"]),
    "C23": dict(units={"breaks": [r"Rule.*", r"TwigBlock::.*", r"lemma_.*", r"CheckResult::.*"]}, technique=VT,
        note="check_token of the empty-line rule is proved to report exactly white space whose neighbours on both sides are line breaks and to suggest removing exactly it; check_node of the block line break rule is proved to give exactly the fixes specified for the two places of a block (none where the line break is right, a replacement where it is wrong, an insertion where it is missing), for every tree and configuration.",
        trusted=RT + ["rowan: first_token, last_token, prev_sibling, next_sibling; str::repeat (stubs)"], assumptions=RA),
    "C20": dict(units={"dups": [r".*"]}, technique=VT,
        note="check_root of both rules is proved to report exactly the occurrences of a name that are not its first, in order, each once with the range of the first occurrence, where occurrences are the named blocks / static id values outside of ignored and erroneous parts in document order, for every tree.",
        trusted=RT + ["rowan: Preorder next/skip_subtree follow the events of rowan 0.16.1 cursor.rs (VxPreorder in dups.unit)", "std HashMap with String keys: new, get, insert (VxMap)"], assumptions=RA + ["the root handed to check_root has no parent"]),
    "C12": dict(units={"ending": [r".*"]}, technique=VT,
        note="check_token is proved to report, for every token and both styles, exactly the line endings inside a line break token whose text is not the configured one, each once, with its byte range and the configured style as replacement. That it is called for every token outside ignored parts is C08's proof, that applying the fix changes nothing else C05's.",
        trusted=RT + ["regex: find_iter returns the leftmost non-overlapping matches of (\\r\\n) and (\\r?\\n) (ax_patterns; the pattern itself is computed by the code under contract)", "UTF-8 length is monotone in prefixes (ax_utf8_prefix)", "OnceLock::get_or_init returns the value of the first call"], assumptions=RA + ["the configured style is the same in every call of a process"]),
    "C14": dict(units={"indent": [r".*"]}, technique=VT,
        note="check_root is proved to give exactly, in order, the fix judge() asks for at the first token of every line outside ignored, erroneous and white space sensitive parts, where the expected text is a function of the enclosing nodes and the configuration (steps, extra, expected), for every tree and configuration; no arithmetic overflows or underflows.",
        trusted=RT + ["rowan: PreorderWithTokens (VxPreorder in preorder.unit)", "std: repeat_n, chain, repeat, chars, collect into String (stubs)"],
        assumptions=RA + ["the root handed to check_root has no parent", "files shorter than 4 GiB (ax_bounded)", "the grammar puts no body, argument list or attribute list directly behind an ignore directive (ax_place)", "usize has 64 bits"]),
    "C24": dict(units={"config": [r".*"], "main": [r"handle_config_or_exit", r"app"]}, technique=VT,
        note="Config::new is proved to return exactly the configuration made of layered(path) - for every setting the environment's value, otherwise the one of the file at exactly that path, otherwise the built-in one - or an error if there is no such configuration, for all contents of the three; the name mapping of environment variables (prefix LUDTWIG_, __ between table and name, _ for -) is proved; handle_config_or_exit is proved to load the path given (or the default one) and app to use the loaded configuration for all files.",
        trusted=["figment: merge, join, extract, Toml::string/file_exact, Env::prefixed/split/map behave as their documentation says (stubs in config.unit)", "serde builds the configuration from the values as the derive attributes of Config say"],
        assumptions=["nothing changes the file or the environment while the program starts"]),
    "C25": dict(units={"paths": [r".*"], "fix": [r"vx_task", r"process_file"], "main": [r"app"]}, technique=VT,
        note="handle_input_paths is proved to start exactly one walk over exactly the given paths, for the types twig and html, with .ludtwig-ignore files and otherwise unchanged options; the visitor (the closures are lifted mechanically to functions) is proved to hand each entry that is no directory and whose file was not seen before to exactly one task and to go on; lemma_exactly_once concludes, for every sequence of entries, that each file among them gets exactly one task and nothing else does; a task is proved to process its file once; app is proved to process the files of the command line. That ignore's walker yields each entry of each path once and that rayon runs each task once before the scope ends is assumed.",
        trusted=["ignore: WalkBuilder/WalkParallel visit exactly the entries their options ask for, each once per given path (stubs in paths.unit)", "rayon: a scope runs each spawned task exactly once before it returns", "std: Mutex<HashSet>::insert is atomic; canonicalize gives one path per directory"],
        assumptions=["the tree does not change during the run", "at least one path is given (clap)", "vx: each closure of handle_input_paths becomes a function; its call site a stub with the contract of what runs it"]),
}
NOT_APPLICABLE = {
}
