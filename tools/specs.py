"""What each property's check runs: harness module, entries, bounds."""

COMMON_ASSUMPTIONS = [
    "the LLVM IR rustc emits for /repo's current tree (opt-level 1 pipeline, overflow and debug assertions on) is what is encoded; "
    "std and dependency code is included from its own bitcode",
    "undefined (poison/undef) bits read as 0; allocation never fails; allocation addresses are concrete and never reused while live",
    "hash functions are replaced by the constant 0 (hash containers stay exact, their iteration order is one fixed order)",
    "text built with format!() for messages is replaced by an empty string unless the harness asks for the real one",
    "z3 4.8.12 and the symex executor are trusted; a sample of explored paths is replayed natively and compared",
]

SPECS = {}

SPECS["K07"] = {"harness": "k07", "entries": [
    {"name": "k07_total", "bounds": "two terms: an atom, or a head with up to 2 atom arguments; any module and constant ids, 4 variables"},
    {"name": "k07_trans", "bounds": "three terms: an atom, a built-in symbol, or a head with 1 atom argument; any ids"},
    {"name": "k07_stable", "bounds": "two terms with up to 2 atom arguments over 2 variables; each variable replaced by a variable, a constant or a head with 1 argument"},
    {"name": "k07_rename", "bounds": "two terms with up to 2 atom arguments, any injective renaming of 2 variables into 4"},
    {"name": "k07_binder", "bounds": "lambda/forall/exists terms with body of depth 1, also under one application"},
    {"name": "k07_heavy", "bounds": "one variable occurring 250 to 259 times"},
]}
SPECS["K08"] = {"harness": "k08", "entries": [
    {"name": "k08_meaning", "bounds": "2 literals with terms up to depth 1 over 14 constants and 4 variables, every interpretation with |T| = 2", "reach": [0, 1]},
    {"name": "k08_order", "bounds": "2 literals, both literal orders, one literal flipped"},
    {"name": "k08_three", "bounds": {"quick": "3 positive literals over 4 variables of one type", "thorough": "3 positive literals, each a binary atom or a variable equality, over 4 variables"}},
    {"name": "k08_bool", "bounds": "1 literal with not/and/or/eq structure of depth 2, every interpretation with |T| = 2"},
]}
SPECS["K10"] = {"harness": "k10", "entries": [
    {"name": n, "bounds": {"quick": "terms of depth 2 with nested quantifiers and lambda redexes, replacement of depth 1, %s; every interpretation with |T| = 2" % b,
                           "thorough": "terms of depth 3, otherwise as quick: %s" % b}} for n, b in [
        ("k10_open", "two dangling bound variables"), ("k10_subst", "two dangling bound variables, index 0 and 1"),
        ("k10_shift", "cutoff 0..2, amount 1 and 2"), ("k10_free", "two variables, closed replacements"),
        ("k10_bind", "1 or 2 variables, one outer bound variable"), ("k10_subterm", "a constant replaced by a term"),
        ("k10_path", "every position of a binder-free term"), ("k10_queries", "two dangling bound variables")]]}
SPECS["K09"] = {"harness": "k09", "entries": [
    {"name": "k09_bool", "bounds": {"quick": "depth 2 over not/and/or/eq/forall/exists, |T| = 2, every interpretation", "thorough": "depth 3, as quick"}},
    {"name": "k09_redex", "bounds": "nested lambda redexes of depth 2, redexes with two arguments, function-valued redexes; every interpretation"},
    {"name": "k09_lambda", "bounds": "one- and two-argument lambdas, function equalities, also under a quantifier; every interpretation"},
    {"name": "k09_polarity", "bounds": {"quick": "depth 2 over not/and/or/eq/forall/exists, both polarities", "thorough": "depth 3, both polarities"}},
    {"name": "k09_clause", "bounds": "2 literals of depth 1"},
]}
SPECS["K05"] = {"harness": "k05", "entries": [
    {"name": "k05_sound", "bounds": "two propositions of depth 2 over binary atoms, equalities and boolean variables; shared or separate variables", "reach": [0, 1]},
    {"name": "k05_complete", "bounds": "two propositions of depth 2 and an instantiation of two variables on each side by ground terms of depth 1"},
    {"name": "k05_occurs", "bounds": {"quick": "4 variables, three argument positions of depth 1", "thorough": "4 variables, three argument positions, one more of depth 1"}},
    {"name": "k05_function", "bounds": "function variables T->T and T->Bool against applications of depth 2"},
    {"name": "k05_poly", "bounds": "one type variable, values of variable type, a polymorphic predicate at 4 types"},
    {"name": "k05_binder", "bounds": "forall/exists terms with bodies of depth 1, boolean variables"},
]}
SPECS["K06"] = {"harness": "k06", "entries": [
    {"name": "k06_sound", "bounds": "pattern and target of depth 2: binary atoms, equalities, connectives", "reach": [0, 1]},
    {"name": "k06_complete", "bounds": "pattern of depth 2 and any substitution of 2 variables by terms of depth 1; the target is the instance"},
    {"name": "k06_function", "bounds": "function variables T->T and T->Bool, depth 2"},
    {"name": "k06_binder", "bounds": "forall/exists, bodies of depth 1"},
    {"name": "k06_poly", "bounds": "one type variable and values of it, a polymorphic predicate at 4 types"},
    {"name": "k06_literal", "bounds": "literals with sides of depth 1, straight and flipped"},
]}
SPECS["K01"] = {"harness": "k01", "entries": [
    {"name": "k01_logic", "bounds": {"quick": "one literal of depth 2 over not/and/or/eq, with no or one further literal", "thorough": "depth 3"}, "reach": [0, 1]},
    {"name": "k01_quant", "bounds": {"quick": "up to two nested quantifiers over three types, atomic body below two", "thorough": "connectives below both quantifiers"}, "reach": [0, 1]},
    {"name": "k01_pair", "bounds": "two literals of depth 1 that both reduce", "reach": [0, 1]},
    {"name": "k01_equal", "bounds": "equality or inequality of two propositions of depth 1", "reach": [0, 1]},
    {"name": "k01_ite", "bounds": "if-then-else on either side of an equality, under a predicate, between propositions", "reach": [0, 1]},
    {"name": "k01_redex", "bounds": {"quick": "depth 1 with lambda redexes and if-then-else", "thorough": "depth 2"}, "reach": [0]},
    {"name": "k01_function", "bounds": "function equalities and inequalities at 4 types, function variables", "reach": [0, 1]},
    {"name": "k01_exists", "bounds": "a single closed existential with body of depth 2", "reach": [0]},
    {"name": "k01_single", "bounds": "every reduction kind at every literal position of a clause of depth 1", "reach": [0, 1]},
], "assumptions": ["T has two elements, the type without a known element has none or two; every interpretation of the symbols"]}
SPECS["K02"] = {"harness": "k02", "entries": [
    {"name": "k02_resolve", "bounds": {"quick": "one inequality of terms of depth 1, no or one further literal", "thorough": "depth 2 on one side"}, "reach": [0]},
    {"name": "k02_resolve_bool", "bounds": "inequalities of boolean variables and of variables of a possibly empty type, up to two further literals", "reach": [0]},
    {"name": "k02_resolve_two", "bounds": "two inequalities sharing two variables", "reach": [0]},
    {"name": "k02_factor", "bounds": "two positive equalities with sides of depth 0 and 1", "reach": [1]},
    {"name": "k02_inject", "bounds": "inequalities of applications with up to 2 arguments of depth 1, full and partial", "reach": [2]},
    {"name": "k02_extend", "bounds": "equalities of applications with up to two arguments, function variables, one further literal", "reach": [3]},
    {"name": "k02_extend_two", "bounds": "equalities of binary applications and propositions, one further literal", "reach": [3]},
    {"name": "k02_poly", "bounds": "a polymorphic predicate over one type variable, which ranges over Bool, T and the possibly empty type", "reach": [0]},
], "assumptions": ["T has two elements, the type without a known element has none or two; every interpretation of the symbols"]}
SPECS["K04"] = {"harness": "k04", "entries": [
    {"name": "k04_flat", "bounds": {"quick": "4 facts over 3 constants, at most one inequality, any query", "thorough": "5 facts over 4 constants"}, "reach": [0, 1, 2]},
    {"name": "k04_apply", "bounds": "3 facts over 3 constants and one function at depth 1", "reach": [0, 1, 2]},
    {"name": "k04_nested", "bounds": {"quick": "3 facts between towers of up to 4 applications", "thorough": "up to 5 applications"}, "reach": [0, 1, 2]},
    {"name": "k04_binary", "bounds": "3 facts over 3 constants and a binary function at depth 2", "reach": [0, 1, 2]},
    {"name": "k04_heads", "bounds": "function equalities and partial applications, 3 facts", "reach": [0, 1, 2]},
    {"name": "k04_eq_terms", "bounds": "2 facts, equality propositions over 3 constants", "reach": [0, 1]},
    {"name": "k04_binders", "bounds": "2 facts, opaque terms with bodies of depth 1", "reach": [1, 2]},
    {"name": "k04_order", "bounds": "3 facts over 2 constants and one function, every order", "reach": [0, 1]},
    {"name": "k04_several", "bounds": {"quick": "three constants with one or two of three functions applied to them, classes of three sizes, two equalities between any of the constants", "thorough": "up to three functions"}, "reach": [1, 2]},
    {"name": "k04_clauses", "bounds": "two clauses of 2 literals and one unit over 3 constants, three insertion orders", "reach": [0, 1, 2]},
]}
SPECS["K03"] = {"harness": "k03", "entries": [
    {"name": "k03_ground", "bounds": "two ground clauses of 1 and 2 literals over 2 propositions, a predicate and 2 constants, in both orders; a question of 1 or 2 literals", "reach": [0, 1, 2]},
    {"name": "k03_congruence", "bounds": "two ground clauses over terms of depth 1, one question", "reach": [0, 1, 2]},
    {"name": "k03_logic", "bounds": "one proposition of depth 2 over connectives, quantifiers and if-then-else, three questions", "reach": [1, 2]},
    {"name": "k03_vars", "bounds": {"quick": "one clause with variables and up to 2 literals, one ground unit, three questions", "thorough": "any two literals"}, "reach": [0, 1, 2]},
    {"name": "k03_empty", "bounds": "clauses of up to two literals over a type that may be empty, twelve literal shapes (thorough: more second clauses); four questions", "reach": [0, 1, 2]},
    {"name": "k03_inhabit", "bounds": "an existential of up to two literals and another clause in both orders; four questions", "reach": [0, 1, 2]},
    {"name": "k03_exists_free", "bounds": "exists x:E. x = y with y:E free, and the claim that E is empty, both orders, E empty"},
    {"name": "k03_functions", "bounds": "function equalities and inequalities with one further fact; four questions", "reach": [0, 1, 2]},
    {"name": "k03_poly", "bounds": "clauses with one type variable and a polymorphic predicate; three questions", "reach": [0, 1, 2]},
    {"name": "k03_negation", "bounds": {"quick": "a ground literal of depth 1 and its negation, both orders", "thorough": "depth 2"}, "reach": [0]},
], "assumptions": ["T has two elements, the type without a known element has none or two; every interpretation of the symbols"]}
SPECS["K12"] = {"harness": "k12", "entries": [
    {"name": "k12_renumber", "bounds": {"quick": "two literals of six shapes over two variables each of T, Bool and E; compacting and index numbering", "thorough": "up to three literals"}},
    {"name": "k12_renumber_poly", "bounds": {"quick": "two literals over a type variable, two variables of that type, and T, Bool, T -> T", "thorough": "up to three literals"}},
    {"name": "k12_trace", "bounds": "two literals; normalization with its variable record, none or two variables pinned; every value of the variables and symbols"},
    {"name": "k12_trace_poly", "bounds": "the same over a type variable"},
    {"name": "k12_specialize", "bounds": "two literals; substitutions of up to three variables over the same variables"},
    {"name": "k12_replacement", "bounds": "two literals; substitutions of all six variables by terms over another context"},
    {"name": "k12_compose", "bounds": "two substitutions of six variables each"},
    {"name": "k12_combine", "bounds": "two clauses of up to two literals combined in either order, monomorphic and polymorphic"},
], "assumptions": ["T and E have two elements; variables a substitution leaves unmapped keep their number, so a replacement may mention that number only for the same variable"]}
SPECS["C04"] = {"harness": "c04", "entries": [
    {"name": "c04_order", "bounds": "4 claims of one or two literals over 2 propositions, any signs", "reach": [0, 1]},
    {"name": "c04_wide", "bounds": {"quick": "3 claims of one or two literals over 3 propositions", "thorough": "up to three literals"}, "reach": [0, 1]},
    {"name": "c04_equalities", "bounds": "3 claims of one or two equations over 3 constants", "reach": [0, 1]},
    {"name": "c04_long", "bounds": {"quick": "5 claims of five shapes that support each other in chains", "thorough": "six shapes, with cycles"}, "reach": [0, 1]},
    {"name": "c04_three", "bounds": {"quick": "three claims, one of three propositions, the others single, over three propositions", "thorough": "one of four propositions"}, "reach": [0, 1]},
]}
SPECS["B03"] = {"harness": "b03", "entries": [
    {"name": "b03_text", "bounds": {"quick": "texts of up to 4 characters: digits, dash, comma, blank, plus, any ASCII character", "thorough": "up to 5 characters"}, "reach": [0, 1]},
    {"name": "b03_ranges", "bounds": {"quick": "2 entries with numbers of up to three digits, any bucket", "thorough": "3 entries"}, "reach": [0, 1]},
    {"name": "b03_print", "bounds": "2 entries with numbers of up to two digits, any bucket", "reach": [0]},
    {"name": "b03_single", "bounds": "any two buckets", "reach": [0]},
    {"name": "b03_bucket", "bounds": "module texts of up to 2 and goal texts of up to 3 ASCII characters", "reach": [0]},
], "redirect": ["sha2__compress256"], "assumptions": ["SHA-256's block function is replaced by a linear mixing; only the hash input and the reduction to a bucket are decided"]}
SPECS["K14"] = {"harness": "k14", "entries": [
    {"name": "k14_clause", "bounds": {"quick": "up to 3 literals over 4 groups, any values of the groups", "thorough": "up to 4 literals"}, "reach": [0, 1, 2]},
    {"name": "k14_order", "bounds": "3 literals over 3 groups, four permutations with sides swapped", "reach": [0]},
    {"name": "k14_set", "bounds": {"quick": "2 clauses of up to 2 literals over 3 groups", "thorough": "3 clauses"}, "reach": [0]},
    {"name": "k14_remove", "bounds": "3 clauses of up to 2 literals over 3 groups, one removal, one insertion", "reach": [0]},
    {"name": "k14_rename", "bounds": "2 clauses of up to 2 literals over 3 groups, one merge", "reach": [0]},
    {"name": "k14_graph", "bounds": {"quick": "2 clauses of 2 literals over 4 constants, then one merge; renamings of each clause, every literal", "thorough": "5 constants"}, "reach": [0, 1]},
    {"name": "k14_graph_after", "bounds": {"quick": "the same with the merge first", "thorough": "5 constants"}, "reach": [0, 1]},
    {"name": "k14_units", "bounds": "a clause of 2 literals, the negation of one, one merge, five orders", "reach": [0, 1]},
]}
SPECS["S04"] = {"harness": "s04", "entries": [
    {"name": "s04_lookup", "bounds": "3 disjoint ranges with lines, starts and lengths below 2^30, inserted in any order, any position below 2^31", "reach": [0, 1]},
    {"name": "s04_four", "bounds": {"quick": "4 disjoint ranges with lines, starts and lengths below 8", "thorough": "5 ranges"}, "reach": [0, 1]},
    {"name": "s04_iter", "bounds": "3 disjoint ranges", "reach": [0]},
], "assumptions": ["recorded ranges are non-empty and do not overlap; positions stay below 2^31 (the limit of the language server protocol)"]}
SPECS["S03"] = {"harness": "s03", "entries": [
    {"name": "s03_edit", "bounds": {"quick": "documents of up to 3 pieces (letters of 1, 2 and 4 bytes, both line endings), any range, up to 2 inserted pieces", "thorough": "4 pieces"}, "reach": [0]},
    {"name": "s03_two", "bounds": {"quick": "3 documents, two edits with any range and up to 1 piece each", "thorough": "2 pieces each"}, "reach": [0]},
    {"name": "s03_saved", "bounds": "2 documents, an edit, a save, an edit", "reach": [0]},
    {"name": "s03_whole", "bounds": "documents of up to 2 pieces replaced by up to 3 pieces, then one edit", "reach": [0]},
    {"name": "s03_prefix", "bounds": {"quick": "documents of up to 4 pieces, every position", "thorough": "5 pieces"}, "reach": [0]},
], "assumptions": ["columns count UTF-16 code units and never point into a surrogate pair (the protocol's default; the server negotiates nothing else)", "no carriage return without a newline"]}
SPECS["P01"] = {"harness": "p01", "entries": [
    {"name": "p01_order", "bounds": "3 scores of any 32-bit float pattern, contradiction or not, two statuses, with and without the order by status", "reach": [0, 1]},
    {"name": "p01_queue", "bounds": {"quick": "4 steps of any float scores in two batches with a step taken in between", "thorough": "5 steps"}, "reach": [0]},
    {"name": "p01_mixed", "bounds": {"quick": "3 steps of any float scores, statuses and contradictions", "thorough": "4 steps"}, "reach": [0]},
    {"name": "p01_shallow", "bounds": {"quick": "3 steps of any float scores and statuses, three pops of either kind", "thorough": "4 steps"}, "reach": [0]},
    {"name": "p01_interleave", "bounds": "4 steps of any float scores and two statuses, the interleaving policy", "reach": [0, 1]},
    {"name": "p01_simplify", "bounds": "one waiting clause of 2 literals and one activated literal over T and Bool, in every interpretation with two elements", "reach": [0, 1, 2]},
    {"name": "p01_simplify_empty", "bounds": "the same with variables of a possibly empty type, up to 2 waiting clauses", "reach": [0, 1, 2]},
    {"name": "p01_contradiction", "bounds": "two waiting clauses of one literal each", "reach": [0, 1]},
]}
SPECS["E01"] = {"harness": "e01", "entries": [
    {"name": "e01_calls", "bounds": {"quick": "functions of 1 and 2 arguments, one use of any form below one construct, any variables", "thorough": "below two constructs"}, "reach": [0, 1]},
    {"name": "e01_nested", "bounds": "calls in the arguments of calls below a match, any variables", "reach": [0, 1]},
    {"name": "e01_match", "bounds": {"quick": "one call with any variables below two constructs", "thorough": "below three constructs"}, "reach": [0, 1]},
    {"name": "e01_two", "bounds": "two calls with any variables in branches and nested matches", "reach": [0, 1]},
    {"name": "e01_hidden", "bounds": "calls in the value arguments of family constants and of types", "reach": [0, 1]},
    {"name": "e01_three", "bounds": "three arguments, two nested matches, any variables", "reach": [0, 1]},
]}
SPECS["S01"] = {"harness": "s01", "entries": [
    {"name": "s01_ascii", "bounds": {"quick": "every ASCII text of up to 3 characters", "thorough": "up to 4 characters"}, "reach": [0]},
    {"name": "s01_lines", "bounds": {"quick": "4 characters out of line endings, slashes, spaces and a letter", "thorough": "5 characters"}, "reach": [0]},
    {"name": "s01_keyword", "bounds": "every keyword with its first or last character replaced by, or followed by, any ASCII character", "reach": [0]},
    {"name": "s01_word", "bounds": {"quick": "4 characters out of two letters, two digits, underscore, dot and U+00C0 to U+00FF", "thorough": "5 characters"}, "reach": [0]},
    {"name": "s01_comment", "bounds": {"quick": "up to 2 ASCII characters, two slashes, up to 2 ASCII characters or 4 slashes, spaces and letters", "thorough": "up to 3 after the slashes"}, "reach": [0]},
    {"name": "s01_unicode", "bounds": "any sign from U+2200 to U+22FF with any ASCII character before and after", "reach": [0]},
    {"name": "s01_mixed", "bounds": "a word after two pieces of 1, 2, 3 and 4 byte characters", "reach": [0]},
]}
SPECS["B01"] = {"harness": "b01", "vfs": True, "entries": [
    {"name": "b01_record", "bounds": {"quick": "5 modules in up to 3 packages, 3 records with any hash in two bytes, any query", "thorough": "4 records"}, "reach": [0]},
    {"name": "b01_merge", "bounds": "2 old records and up to 2 new ones on 3 modules, any hashes", "reach": [0]},
    {"name": "b01_updates", "bounds": {"quick": "three fragments with 1, 2 and 1 records, any hashes", "thorough": "2, 2 and 1"}, "reach": [0]},
    {"name": "b01_dependencies", "bounds": "one module with 2 dependencies recorded at once, in fragments or in two builds, any hashes", "reach": [0, 1]},
    {"name": "b01_save", "bounds": "one old and one new record saved and loaded again, full and partial builds, any hashes", "reach": [0]},
]}
SPECS["N03"] = {"harness": "n03", "vfs": True, "entries": [
    {"name": "n03_crash", "bounds": {"quick": "4 modules in 2 packages, 3 earlier and 5 new builds of some of them with any hashes, full and partial, a crash after any number of effects", "thorough": "16 earlier builds"}, "reach": [0]},
    {"name": "n03_fault", "bounds": "the same, with any one effect failing, alone or with all that follow", "reach": [0, 1]},
    {"name": "n03_certificates", "bounds": "one file of up to 2 certificates replaced by one of up to 2, a crash or a failure at any effect", "reach": [0]},
    {"name": "n03_manifest", "bounds": "one manifest replaced, any hashes, a crash or a failure at any effect", "reach": [0]},
], "assumptions": ["a crash is the death of the process: effects on the file system happen in order and those that happened stay (no reordering by a power failure)", "the file system calls are open, read, write, rename, unlink, mkdir, lseek, statx and readdir, as harness/vfs.rs defines them"]}
SPECS["C02"] = {"harness": "c02", "vfs": True, "entries": [
    {"name": "c02_text", "bounds": {"quick": "goals of up to 1 and claims of up to 2 characters: any ASCII character, U+2000 to U+203F, one outside the basic plane", "thorough": "goals of up to 2 characters"}, "reach": [0]},
    {"name": "c02_steps", "bounds": "a step with any rule and flag, a literal index or up to 2 premises below 10, alone or after another step", "reach": [0]},
    {"name": "c02_kinds", "bounds": {"quick": "every kind of boolean reduction, any literal index below 256", "thorough": "below 4096"}, "reach": [0]},
    {"name": "c02_file", "bounds": {"quick": "up to 3 certificates with any printable goals, with and without a step", "thorough": "up to 4"}, "reach": [0]},
    {"name": "c02_worklist", "bounds": {"quick": "3 certificates with any goals out of 95, two removals, any query after each", "thorough": "4 certificates"}, "reach": [0]},
    {"name": "c02_append", "bounds": {"quick": "3 certificates with any goals, any of them used", "thorough": "4 certificates"}, "reach": [0]},
]}
SPECS["B02"] = {"harness": "b02", "vfs": True, "entries": [
    {"name": "b02_path", "bounds": "files of any ASCII name of 2 and 3 characters, with and without the extension", "reach": [0, 1]},
    {"name": "b02_nested", "bounds": {"quick": "a directory of any 1-character name, a file of any name of up to 2", "thorough": "a directory of any 2-character name"}, "reach": [0, 1]},
    {"name": "b02_dots", "bounds": "files of any 2-character name outside the source directory", "reach": [0]},
    {"name": "b02_name", "bounds": {"quick": "any ASCII text of 3 characters as a module name", "thorough": "4 characters"}, "reach": [0, 1]},
    {"name": "b02_names", "bounds": "any two names of 3 characters out of letters, underscore and dot", "reach": [0]},
    {"name": "b02_package", "bounds": "any subset of 7 files in packages, nested packages and the root; 8 names", "reach": [0, 1]},
    {"name": "b02_layout", "bounds": "a file (in the root or in a directory) and a package interface (or none) of any one-letter names; any one- or two-part module name of one-letter parts", "reach": [0, 1, 2]},
]}
SPECS["C03"] = {"harness": "c03", "entries": [
    {"name": "c03_spec", "bounds": "pairs of one-literal clauses in 8 families, which variables and constants symbolic", "reach": [0, 1]},
    {"name": "c03_spec_two", "bounds": {"quick": "pairs of clauses of two literals that share variables", "thorough": "pairs with one and two literals"}, "reach": [0, 1]},
    {"name": "c03_contra", "bounds": {"quick": "a clause of up to two literals and a unit clause", "thorough": "more second literals"}, "reach": [0, 1]},
    {"name": "c03_rules", "bounds": {"quick": "a clause of up to two equalities of terms of depth 1; a claimed result of up to one literal", "thorough": "more terms in the second literal"}, "reach": [0, 1, 2, 3]},
    {"name": "c03_direct", "bounds": "two recorded clauses, one of up to two literals, and a unit claim", "reach": [0, 1, 2]},
    {"name": "c03_eq", "bounds": {"quick": "a unit fact, a clause of two literals, a claimed result of up to two", "thorough": "clauses of three literals"}, "reach": [0, 1]},
    {"name": "c03_closes", "bounds": "unit clauses with formulas of depth 2", "reach": [0, 1]},
    {"name": "c03_br", "bounds": {"quick": "all 25 named reductions at every position of clauses of up to two literals, formulas of depth 1", "thorough": "depth 2"}, "reach": [1]},
    {"name": "c03_same", "bounds": "pairs of clauses of two literals, normalized or not", "reach": [0, 1]},
], "assumptions": ["T has two elements, the type without a known element has none or two; every interpretation of the symbols"]}
SPECS["K13"] = {"harness": "k13", "entries": [
    {"name": "k13_resolve", "bounds": "a clause of two literals and a unit clause, activated in both orders", "reach": [0]},
    {"name": "k13_two", "bounds": "two unit clauses with variables", "reach": []},
    {"name": "k13_long", "bounds": {"quick": "two concrete clauses of two literals", "thorough": "up to three literals"}, "reach": [0]},
    {"name": "k13_rewrite", "bounds": "8 rewrite rules and concrete literals of depth up to 3", "reach": [1, 4]},
    {"name": "k13_rewrite_back", "bounds": {"quick": "a concrete literal, a rewrite rule, another rule", "thorough": "any second rule"}, "reach": [1]},
    {"name": "k13_single", "bounds": {"quick": "a clause of up to two literals, formulas of depth 1", "thorough": "depth 2"}, "reach": [3]},
    {"name": "k13_simplify", "bounds": "a unit clause and a clause of up to two literals that it may simplify", "reach": [5, 6]},
    {"name": "k13_empty", "bounds": "the same over a type that may be empty", "reach": [5]},
    {"name": "k13_exists", "bounds": "an existential over either type, with or without a free variable, and a clause that loses a variable", "reach": [2, 3]},
    {"name": "k13_exists_free", "bounds": "an existential with a free variable of its own type", "reach": [2]},
], "assumptions": ["T has two elements, the type without a known element has none or two; every interpretation of the symbols"]}
SPECS["K11"] = {"harness": "k11", "entries": [
    {"name": "k11_unify", "bounds": "two terms or propositions of depth 2, partial applications, function variables, one quantifier", "reach": [0, 1]},
    {"name": "k11_unify_eq", "bounds": "embedded equalities at the root, under not and under a function", "reach": [0, 1]},
    {"name": "k11_unify_poly", "bounds": "a polymorphic predicate at four types, fully and partially applied; one type variable", "reach": [0, 1]},
    {"name": "k11_special", "bounds": "literals with sides of depth 2", "reach": [0, 1]},
    {"name": "k11_special_poly", "bounds": "literals over a polymorphic predicate at four types", "reach": [0, 1]},
    {"name": "k11_literals", "bounds": {"quick": "two stored literals of three and six shapes and a query of four", "thorough": "two stored literals of seven shapes and a query of six"}, "reach": [0, 1]},
    {"name": "k11_literals_poly", "bounds": "two stored literals and a query over a type variable with no or one of two typeclass constraints", "reach": [0, 1]},
    {"name": "k11_clauses", "bounds": {"quick": "a stored clause and a ground query of up to two literals, sides without function applications", "thorough": "with function applications"}, "reach": [0, 1]},
    {"name": "k11_rewrites", "bounds": {"quick": "two rules of three and five shapes, a term of depth 2", "thorough": "two rules of five shapes"}, "reach": [0, 1]},
    {"name": "k11_phantom", "bounds": "one stored equation of two variables of variable type, a query of the same shapes", "reach": []},
    {"name": "k11_rewrites_poly", "bounds": "two rules over a type variable with no or one of two typeclass constraints, a term without variables", "reach": [0, 1]},
]}
SPECS["E04"] = {"harness": "e04", "entries": [
    {"name": "e04_bool", "bounds": {"quick": "formulas of depth 2 under up to two leading foralls", "thorough": "depth 3"}, "reach": [0]},
    {"name": "e04_functions", "bounds": "one equation between functions (constants, lambdas, conditionals) in seven positions", "reach": [0]},
    {"name": "e04_ite", "bounds": "one conditional with a condition of depth 1 in six positions, up to two leading foralls", "reach": [0]},
    {"name": "e04_match", "bounds": "a datatype of two constructors with a Bool field each or none; an equation with a match on one side, nested matches", "reach": [0]},
    {"name": "e04_match_bool", "bounds": "the same datatype; cases are formulas of depth 1, equations between functions, conditionals on them, quantifiers", "reach": [0]},
    {"name": "e04_poly", "bounds": "one type variable, two leading foralls, two literals over polymorphic predicates", "reach": [0]},
    {"name": "e04_open", "bounds": {"quick": "open terms of depth 1", "thorough": "depth 2"}, "reach": [0, 1]},
]}
SPECS["E02"] = {"harness": "e02", "entries": [
    {"name": "e02_match", "bounds": "a generic and a concrete type of depth 1: Bool, two datatypes, a type constructor, functions of one and two arguments, arbitrary types; two parameters, each free or bounded by one of two typeclasses; all instance and extension relations", "reach": [0, 1]},
    {"name": "e02_shapes", "bounds": "six generic function types against six concrete ones of up to three arguments", "reach": [0, 1]},
    {"name": "e02_twice", "bounds": "two pairs of four generic and four concrete types", "reach": [0, 1]},
    {"name": "e02_family", "bounds": "one hidden value parameter, six generic and five concrete dependent types, value variables 0..2", "reach": [0, 1]},
    {"name": "e02_family_functions", "bounds": "six generic function types over type variables, five concrete ones over dependent types, value variables 0..3", "reach": [0, 1]},
    {"name": "e02_resolve", "bounds": "four generic functions, one or two arguments of two shapes, an optional expected type of three", "reach": [0, 1, 2]},
]}
SPECS["K17"] = {"harness": "k17", "entries": [
    {"name": "k17_classes", "bounds": "one polymorphic constant with up to two type parameters (any class), result one of the parameters or a box of one; two classes, one may extend the other", "reach": [0, 1]},
    {"name": "k17_constructor", "bounds": "one polymorphic constant with one type parameter and an optional value argument, all instance relations of two types and two classes; eight requested types", "reach": [0, 1]},
    {"name": "k17_two", "bounds": {"quick": "two polymorphic constants with one type parameter, the first with an optional value argument", "thorough": "both with an optional value argument, one class may extend the other"}, "reach": [0, 1]},
    {"name": "k17_kinds", "bounds": "two classes, one may extend the other, all instance relations of two types", "reach": [0, 1]},
    {"name": "k17_local", "bounds": "a local type, a local or global element, a polymorphic constant; requested types up to functions of two arguments", "reach": [0, 1]},
]}
SPECS["K16"] = {"harness": "k16", "vfs": True, "display": True, "entries": [
    {"name": "k16_register", "bounds": {"quick": "three registrations of any one-letter names of two modules, global or local, of two types", "thorough": "four registrations"}, "reach": [0, 1]},
    {"name": "k16_rename", "bounds": {"quick": "up to three constants of any one-letter names, one renamed to any name, one more registered", "thorough": "two renamings"}, "reach": [0, 1]},
    {"name": "k16_import", "bounds": {"quick": "one or two constants of a module that two others import, one each of those, any one-letter names and two types; both orders of import", "thorough": "two each"}, "reach": [0]},
    {"name": "k16_merge", "bounds": {"quick": "two constants, one more in a copy, merged back, one more", "thorough": "two more in the copy"}, "reach": [0]},
    {"name": "k16_modules", "bounds": "four real modules: two that match on one of two datatypes of the first, with any name out of three; elaborated and lowered by the real code", "reach": [0]},
], "redirect": ["blake3__platform__compress_in_place"], "assumptions": ["BLAKE3's block function (assembly) is replaced by a linear mixing", "an imported context has no scoped constants (a module exports the context of its top level, and those are made inside blocks)"]}
SPECS["S02"] = {"harness": "s02", "display": True, "entries": [
    {"name": "s02_binary", "bounds": "four operands with any three infix operators out of 28", "reach": [0]},
    {"name": "s02_mixed", "bounds": "two operands, each with an optional prefix operator and a postfix operator or argument, and any infix operator between", "reach": [0]},
    {"name": "s02_paren", "bounds": "three or four operands with any infix operators, two of them in brackets", "reach": [0]},
    {"name": "s02_any", "bounds": {"quick": "every sequence of 3 tokens of any kinds", "thorough": "4 tokens"}, "reach": [0]},
    {"name": "s02_print", "bounds": {"quick": "two operands out of 17 and 6 forms with 11 infix operators, names and numbers of one symbolic character", "thorough": "17 and 17 forms"}, "reach": [0]},
]}
NOTE = ("Holds for every value of the symbolic inputs within the stated bounds, on the code compiled from the current tree; "
        "trusts rustc, LLVM's O1 pipeline, the symex executor and z3; counterexamples and sampled paths are replayed natively.")
HOOKS = {"guard": "cfg(verif_hooks)", "enable": "tools/build.sh passes --cfg verif_hooks to rustc", "source_commits": ["938f220f2e753d8956be749b3fe5059a2ce67e48"]}
NOT_APPLICABLE = {
    "K15": "not built within the time: the conversion of family and dependent types needs the elaborator's environment on both sides of the comparison; K16 and K17 check the type store's part of it (what a registered symbol's type is, and that no element gets another type)",
    "E03": "not built within the time: the meaning of a surface proposition would need a second evaluator for AcornValue next to the kernel one; E04 decides clausification from the kernel term on, K16 runs whole modules through the elaborator",
    "C01": "not built within the time: writing a claim goes through the code generator and reading it back through the parser and the evaluator of a project; C02 decides the file format and C03 the claims' inferences",
    "N01": "the interleavings are those of rayon threads over whole-project verification (millions of instructions, file system, ONNX scoring); outside what the IR executor can encode",
    "N02": "the language server is an async tokio/tower-lsp program whose module does not compile offline in the overlay; its schedules cannot be encoded within reach",
    "N04": "the other side of the comparison is Python training code and an ONNX model; there is no IR for it here",
}
