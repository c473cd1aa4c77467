import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":mech}
    if state:a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
K="src/kernel/"
import sys
p("K01","Boolean reductions of a clause preserve its meaning",
 "Every clause the proof kernel derives from a clause by simplifying, splitting or opening a logical connective, quantifier, lambda equality or boolean equality is a logical consequence of it in every interpretation, including interpretations with empty types. When the kernel offers several clauses as one complete split, those clauses taken together also imply the original, and asking for one reduction at one literal gives the same result as asking for all of them.",
 ["inputs"],"all clauses, all literal positions and reduction kinds, all finite interpretations of the symbols and types",
 "Unit tests check a few dozen hand-written clauses syntactically; none evaluates a clause in an interpretation, and soundness quantifies over every clause and every model.",
 [K+"clause.rs",K+"checker.rs"],["find_boolean_reductions","boolean_reduction_at_with_options","checker_boolean_reduction_sets"])
p("K02","Resolution, factoring, injectivity and extensionality steps are sound",
 "Every clause obtained from a clause by equality resolution, equality factoring, argument injectivity or function extensionality is a logical consequence of that clause in every interpretation of its symbols. A variable whose type is not known to have an element is never eliminated by such a step when the kernel accepts it.",
 ["inputs"],"all clauses of function, equality and boolean literals; all finite interpretations, including empty types",
 "Tests list expected outputs for single clauses; they never quantify over interpretations, so an unsound step that looks plausible passes.",
 [K+"inference.rs",K+"clause.rs"],["find_equality_resolutions","find_equality_factorings","find_injectivities","find_extensionality"])
p("K03","The certificate checker only accepts consequences of what it was told",
 "When the checker accepts a clause, that clause is true in every interpretation in which all clauses inserted before it are true; when it reports a contradiction, no interpretation satisfies everything inserted. This holds for any sequence of insertions and queries.",
 ["histories","inputs"],"all sequences of clause insertions followed by queries, all finite interpretations, including empty types",
 "Tests replay fixed insert/check sequences with an expected verdict; an over-permissive acceptance path is only visible on a sequence nobody wrote down.",
 [K+"checker.rs",K+"equality_graph.rs"],["Checker::insert_clause","Checker::check_clause","Checker::has_contradiction"])
p("K04","Ground equality reasoning decides congruence closure",
 "After any sequence of asserted equalities and inequalities between variable-free terms, a queried equality is reported as known exactly when it follows by reflexivity, symmetry, transitivity and congruence, and a contradiction is reported exactly when some asserted inequality is between terms that follow to be equal. The order in which the facts were asserted does not change the answer.",
 ["histories","inputs"],"all sequences of ground unit literals over shared subterms, in every order",
 "Union-find and congruence bugs need a particular merge order; tests exercise a handful of orders.",
 [K+"equality_graph.rs",K+"clause_set.rs"],["EqualityGraph::insert_clause","check_clause","evaluate_literal","process_pending"])
p("K05","Unification returns a real unifier and misses none",
 "When unification of two terms succeeds, applying the resulting substitution to both sides gives the same term up to swapping the sides of embedded equalities, and the substitution is finite (no variable is bound to a term containing itself). When it fails, no instantiation of the two terms' variables makes them identical.",
 ["inputs"],"all pairs of first-order and applied-variable terms of one type with disjoint variables",
 "Occurs-check and scope-translation errors need particular sharing of variables across the two sides; tests contain a few dozen pairs.",
 [K+"unifier.rs"],["Unifier::unify","unify_variable","apply"])
p("K06","One-way matching is exact",
 "Matching a pattern against a term succeeds exactly when some substitution of the pattern's variables turns the pattern into that term with matching types, and the substitution it returns does so. Variables of the target term are treated as constants.",
 ["inputs"],"all pattern/target pairs with repeated variables, applied variables and embedded equalities",
 "Direction mistakes (instantiating the target) and repeated-variable mistakes show only on specific overlaps of variables.",
 [K+"unifier.rs",K+"variable_map.rs"],["VariableMap::match_terms","match_instance","apply_to_term"])
p("K07","The simplification ordering is a stable well-behaved order",
 "The term order used to direct rewriting is antisymmetric and transitive, and if it says one term is greater than another then it says the same for every substitution instance of the two terms. Its total extension never calls two different terms equal, and the renaming-invariant order gives the same answer after any consistent renaming of variables.",
 ["inputs"],"all pairs and triples of terms, all substitutions, all symbol ids",
 "Order axioms quantify over pairs, triples and substitutions; tests compare a few literal pairs with small ids and cannot reach weight overflow or tie-break asymmetries.",
 [K+"term.rs"],["kbo_cmp","extended_kbo_cmp","stable_cmp","multi_weight"])
p("K08","Clause normalization is canonical and meaning-preserving",
 "Normalizing a clause never changes its truth in any interpretation, normalizing twice gives the same clause as normalizing once, and clauses that differ only in literal order or in the side order of an equality normalize to the same clause. Its variables are numbered consecutively and each one is used. A clause reported as a tautology is true in every interpretation.",
 ["inputs"],"all clauses with up to the stated number of literals, all permutations and side swaps, all finite interpretations",
 "Canonical-form failures appear only for particular tie patterns between literals; tests compare chosen examples.",
 [K+"clause.rs",K+"literal.rs"],["Clause::new","normalized","is_tautology","normalize_with_trace"])
p("K09","Term normalization preserves meaning and is idempotent",
 "Rewriting a term to the kernel's normal form never changes its value in any interpretation, and the normal form is unchanged by normalizing again. Beta reduction, eta reduction, equality orientation and boolean canonicalization are all covered.",
 ["inputs"],"all well-typed terms with lambdas, quantifiers, connectives and equalities within bounds; all finite interpretations",
 "Tests fix a few redexes; capture and index-shift errors need nested binders in specific positions.",
 [K+"term_normalization.rs",K+"term.rs"],["normalize_term","beta/eta normalization","canonical embedded equality"])
p("K10","Substitution under binders never captures or loses variables",
 "Substituting, shifting and opening bound variables, replacing free variables and replacing subterms produce well-formed terms whose value in every interpretation is the value prescribed by textbook capture-avoiding substitution. Reading the subterm at a position after replacing it gives the replacement and leaves all other positions unchanged.",
 ["inputs"],"all terms with nested binders and applications, all indices, depths and replacement terms",
 "De Bruijn arithmetic errors need a particular nesting depth and index; tests contain only a few nestings.",
 [K+"term.rs",K+"variable_map.rs"],["substitute_bound","shift_bound","open_bound","replace_variable","replace_at_path","get_term_at_path"])
p("K11","Term indexes find exactly what a linear scan finds",
 "A lookup in any of the kernel's term and clause indexes returns a stored entry if and only if comparing the query against each stored entry one by one would succeed, for generalization lookup, unification prefiltering and literal lookup. Inserting more entries never makes an existing entry unreachable.",
 ["inputs","histories"],"all small sets of stored patterns, all insertion orders and all queries",
 "A missed match silently weakens the prover or the checker and no test notices; tests query a few hand-picked trees.",
 [K+"pdt.rs",K+"fingerprint.rs",K+"generalization_set.rs"],["Pdt::find_leaf/find_matches","FingerprintUnifier/FingerprintSpecializer","GeneralizationSet"])
p("K12","Variable renumbering keeps a clause and its types together",
 "Building a combined variable context for two clauses, compacting variable numbers, or specializing a clause by a substitution keeps every variable paired with its own type, never merges two distinct variables, and instantiates each variable everywhere by the same term. Specializing a clause by a substitution yields a logical consequence of it.",
 ["inputs"],"all clauses and substitutions with dependent type variables within bounds",
 "Off-by-one renumbering needs specific gaps in variable numbers and dependent types; tests use dense small contexts.",
 [K+"variable_map.rs",K+"local_context.rs",K+"certificate_step.rs"],["build_output_context","specialize_clause","Claim::normalized_specialized_clause","remap"])
p("K13","The prover's derived steps are sound",
 "Every clause that the search engine adds by long resolution, short resolution, rewriting, or simplification against known facts is a logical consequence of the clauses it was derived from, in every interpretation. A step is discarded as redundant only if it is a consequence of clauses that are kept.",
 ["inputs","histories"],"all small sets of active clauses and the next activated clause",
 "Tests assert counts of generated steps; semantic consequence is never evaluated.",
 ["src/prover/active_set.rs","src/prover/rewrite_tree.rs","src/simplifier.rs"],["ActiveSet::activate","find_resolutions","simplify","RewriteTree"])
p("K14","Truth-table style clause sets stay consistent under merging",
 "The concrete clause store keeps every distinct recorded clause reachable from each of the groups it mentions, and rewriting groups after a merge yields exactly the clauses obtained by renaming the groups and re-normalizing each one. A clause is reported always-true or always-false only when it is.",
 ["histories","inputs"],"all small sets of group literals and all merge sequences",
 "Requires interleavings of insert and merge; tests cover a few fixed ones.",
 [K+"clause_set.rs"],["ClauseId::new","ClauseSet::insert/remove_group"])
p("K15","Type representation round-trips through the kernel",
 "Converting a surface type to its kernel form and back gives the same type, two different types never share a kernel form, and registering more types never changes the form of an already registered one. Typeclass membership and subclass queries agree with the declared instances and extensions, transitively.",
 ["inputs","histories"],"all type expressions over declared types within bounds, all registration orders",
 "Tests convert a few hand-written types.",
 [K+"type_store.rs"],["add_type","to_type_term","type_term_to_acorn_type","typeclass extends"])
p("K16","Symbol registration is stable and injective",
 "Every constant keeps the symbol it was first given, different constants never share a symbol, and a symbol's recorded type and name are the ones it was registered with, after any sequence of registrations and imports.",
 ["histories"],"all sequences of constant registrations, across modules",
 "Tests register a handful of names once.",
 [K+"symbol_table.rs",K+"kernel_context.rs"],["SymbolTable::add_constant","merge/import"])
p("K17","An element the kernel finds for a type has that type",
 "Whenever the kernel answers that a type has an element (or a typeclass has a type), the element it names really has exactly that type (that type really belongs to that class), whatever constants, typeclasses, instances and local types have been registered: type arguments satisfy the declared typeclass bounds and, when local constants are ruled out, none is used. Erasing variables during proof checking relies on it.",
 ["inputs","histories"],"all registered polymorphic constants, typeclass extensions and instances and all requested types within bounds",
 "Soundness only fails with an unusual constant (two type parameters, or a typeclass-constrained one), which tests do not register.",
 [K+"kernel_context.rs",K+"symbol_table.rs"],["find_inhabitant","instantiate_type_constructor_witness","find_type_witness_for_typeclass","record_inhabited_type_constructor"])
p("E01","Recursive definitions are accepted only when they terminate",
 "A recursive definition is accepted only if there is one argument position at which every recursive call passes a strict structural part, obtained by pattern matching, of that same argument. Partially applied or bare uses of the function, shadowing binders, curried calls and nested matches cannot be used to get around this. Structurally recursive definitions are accepted.",
 ["programs"],"all function bodies over match, lambda, application and quantifier nesting within bounds",
 "Accepting one non-terminating definition makes the logic inconsistent; tests include about a dozen bodies.",
 ["src/elaborator/termination_checker.rs"],["TerminationChecker::check"])
p("E02","Generic type inference returns a consistent instantiation",
 "When matching a generic type against a concrete type succeeds, substituting the inferred type arguments into the generic type gives exactly the concrete type and every typeclass bound is respected; when it fails, no choice of type arguments works. Arguments already inferred are never silently replaced.",
 ["inputs"],"all pairs of generic/instance type expressions within bounds",
 "Requires combinations of repeated type variables and nesting not in the tests.",
 ["src/elaborator/type_unifier.rs","src/elaborator/acorn_type.rs"],["TypeUnifier::match_instance","unify","AcornType::instantiate"])
p("E03","Translation of surface propositions to kernel terms preserves structure",
 "Translating a surface proposition with nested quantifiers, lambdas and connectives to its kernel term and back yields a proposition with the same meaning, with every variable still referring to its own binder. Substituting values for variables in surface expressions never captures a variable.",
 ["inputs","programs"],"all surface values within bounds",
 "Index conversions between the two variable conventions depend on nesting depth; tests use shallow examples.",
 ["src/elaborator/to_term.rs","src/elaborator/acorn_value.rs","src/elaborator/term_bridge.rs"],["value_to_term","bind_values/insert_stack","quote_term"])
p("E04","Clausification preserves satisfiability of a proposition",
 "The clauses produced from a proposition imply it and are implied by it up to the fresh witnesses introduced, in every interpretation where each type has an element. Equations between functions, conditionals and matches nested anywhere in the proposition keep their meaning.",
 ["inputs","programs"],"all propositions within bounds, all finite interpretations",
 "Tests compare clause text for a few inputs.",
 [K+"clausifier.rs","src/elaborator/lowering.rs"],["clausify","lower_goal"])
p("S01","Tokenizing any text is total, ordered and lossless",
 "Splitting any text into tokens never crashes and yields tokens whose recorded line, start and length select exactly the text they came from, in order and without overlap; every character that is not whitespace or part of a comment belongs to exactly one token. Longest-match rules for multi-character operators, keywords, numerals and identifiers hold everywhere in a line.",
 ["inputs"],"all texts up to the stated length, including non-ASCII characters",
 "Adversarial character combinations at line ends and multi-byte boundaries are not in the tests.",
 ["src/syntax/token.rs"],["Token::scan"])
p("S02","Expressions parse by the documented precedence and print back the same",
 "Parsing any token sequence either returns an error or an expression in which every operator's operands bind at least as tightly as its precedence and associativity require (to the right of an infix operator, an operand may start with a looser prefix operator); it never crashes. A row of operands with infix operators between them is accepted unless it has two unbracketed implications side by side or reads as type arguments. Printing a parsed expression and parsing it again gives the same expression.",
 ["inputs"],"all token sequences up to the stated length over all operator kinds",
 "Operator combinations grow exponentially; tests contain a few dozen strings.",
 ["src/syntax/expression.rs","src/syntax/token.rs"],["Expression::parse","combine_partial_expressions","binary_precedence"])
p("S03","Editor edits are applied exactly where the client said",
 "After any sequence of edits the server's copy of a document equals the client's, namely the previous text with the given range replaced by the given text, lines split at either line ending; a line is reported as unchanged since the last save only if its text is still the saved text of that line number.",
 ["histories","inputs"],"all edit sequences and ranges within bounds, both line-ending styles",
 "Edits at line boundaries and past line ends form combinations tests do not enumerate.",
 ["src/server/live_document.rs"],["LiveDocument::change","save","get_env_line"])
p("S04","Position lookups return the innermost covering entry",
 "Looking up a source position returns the entry recorded for the token range that contains it and nothing for positions outside every recorded range, whatever order entries were recorded in.",
 ["inputs","histories"],"all sets of non-overlapping ranges and all positions",
 "Boundary positions between adjacent tokens are not tested systematically.",
 ["src/syntax/token_map.rs"],["TokenMap::insert","get"])
p("C01","Claims in a certificate survive writing and reading back",
 "Writing a clause or an instantiated claim as certificate text and reading it back yields the same clause and the same instantiation, so that a written proof means what the prover proved. A claim's specialized form is exactly its generic clause with the recorded arguments substituted.",
 ["inputs"],"all claims within bounds",
 "Names, variable order and type arguments interact; tests cover examples only.",
 ["src/claim_codec.rs","src/certificate.rs",K+"certificate_step.rs"],["serialize_claim_with_args","parse_claim","lower_clause/quote_clause"])
p("C02","Certificate files round-trip and merge without losing proofs",
 "Saving certificates and loading them gives the same certificates in the same order. Asking a worklist for a goal gives exactly the certificates recorded for exactly that goal name that were not taken yet, and the leftovers appended to a store are exactly the unused ones, each once.",
 ["histories","inputs"],"all certificate stores within bounds and all take/append sequences",
 "Order- and duplicate-sensitive behaviours need combinations tests do not contain.",
 ["src/certificate.rs"],["CertificateStore","CertificateWorklist"])
p("C03","Independent trace checks accept only valid inferences",
 "Each certificate-trace rule check (specialization, resolution of contradiction, reduction, injectivity, extensionality) returns accept only if the named conclusion follows from the named premises in every interpretation.",
 ["inputs"],"all premise/conclusion pairs within bounds, all finite interpretations",
 "Tests supply valid traces; they hardly supply invalid ones, and never all of them.",
 [K+"checker.rs","src/certificate_trace.rs"],["clause_specializes_for_trace","clauses_contradict_for_trace","equality_resolution_derives_for_trace"])
p("C04","Reordering proof steps yields a valid support order",
 "When proof claims are reordered before writing, the result is a permutation of the claims that puts every supporting claim before the claims it supports (when claims support one another in a cycle, at least every one that came late), keeps the original order of unrelated claims where possible, and changes nothing when no supporting claim comes late.",
 ["inputs"],"all clause lists within bounds, including cyclic support",
 "Cycle and tie handling depends on graph shape; tests cover two shapes.",
 ["src/proof_order.rs"],["unit_support_order"])
p("B01","A module is skipped only if its recorded hash matches",
 "A module is treated as already verified only when the manifest of its own package records exactly its current content hash, after any sequence of recording, merging fragments and merging with the previous build. New records always win over old ones and merging never invents or drops an entry.",
 ["histories","fault_sequences"],"all sequences of record/merge/query operations within bounds",
 "Skipping a stale module silently accepts unverified code; tests exercise short fixed sequences.",
 ["src/build_cache.rs","src/manifest.rs"],["PackageManifest::record_*/matches_*/merge_missing_from","BuildCache::merge_updates_from"])
p("B02","Module names and source paths correspond one to one",
 "The module name computed for a source file inside the project leads back to that file, different module names lead to different files (a trailing \"interface\" component names the same module as the name without it, and a project where both files exist is refused), and no module name leads to a file outside the project's source directory.",
 ["inputs"],"all path and module-name strings within bounds",
 "Dots, empty components and reserved names form a large input space.",
 ["src/project.rs","src/build_cache.rs","src/module.rs"],["module_name_from_path","path_from_module_name","descriptor_for_source_path"])
p("B03","Goal partition filters select exactly the listed buckets",
 "A bucket filter written as text selects exactly the buckets its ranges list, rejects malformed or out-of-range text without crashing, and printing and re-reading a filter selects the same buckets. A goal's bucket is always below the bucket count and depends only on the module and goal text, unambiguously.",
 ["inputs"],"all filter strings up to the stated length and all buckets",
 "String edge cases (signs, spaces, overflow) are sampled by only a few tests.",
 ["src/goal_partition.rs"],["GoalBucketFilter::from_str","contains","Display"])
p("P01","The passive queue always yields the best live step",
 "Each time the search asks for the next step it receives one with the best score among all pending steps that have not been removed or replaced, ties broken deterministically, and no pending step is lost or returned twice. Score comparison is a total order even for unusual floating-point scores.",
 ["histories","inputs"],"all push/pop/simplify histories within bounds and all score values",
 "Histories with removals and equal or NaN scores are not in the tests.",
 ["src/prover/passive_set.rs","src/prover/score.rs"],["PassiveSet::push_batch/pop/simplify","Score::cmp"])
p("N01","Parallel verification gives the same result as sequential verification",
 "Verifying a project with several workers reports the same goals, statuses and certificates as verifying it with one worker.",
 ["schedules"],"all worker interleavings",
 "Tests run one schedule per execution.",["src/builder.rs","src/processor.rs"],["parallel module workers"])
p("N02","The language server converges to the latest document versions",
 "After the last edit of any sequence of edits, saves and cancellations, published diagnostics and lookups reflect the latest saved text.",
 ["schedules","histories"],"all interleavings of client messages and background builds",
 "Asynchronous interleavings are not enumerable by unit tests.",["src/server.rs","src/server/project_manager.rs"],["AcornLanguageServer","ProjectManager"])
p("N03","Saving build results is atomic with respect to crashes",
 "A crash or an I/O failure at any point while saving build results leaves every manifest and certificate file either as it was or completely written, and a manifest carries new records only if all the new certificates are on disk.",
 ["crash_points"],"all crash points during a save",
 "Tests never crash mid-save.",["src/manifest.rs","src/build_cache.rs","src/certificate.rs"],["save via temporary file and rename"])
p("N04","Search policy scores agree between training and inference",
 "The feature vector computed when searching equals, column by column, the one used in training the scoring model, and goal partition buckets agree between the two languages.",
 ["inputs"],"all proof steps",
 "The two implementations are in different languages and are only compared on fixtures.",["src/prover/features.rs","python/src"],["Features::to_floats","goal_bucket"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:f.write(json.dumps(x)+"\n")
print(len(P))
