"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when checks/<id>.py exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, st, over, q, why, files, mech, tech, note, observe=(), level="exploration", state=()):
    P.append((dict(id=id, title=title, statement=st, quantifier={"over": over, "text": q}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [dict(name=a, where=b) for a, b in mech],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                            "observe_at": list(observe), "hook_needed": None}), tech, note, level))


INF = ["Reasoner/resolve.c", "Reasoner/derive.c", "Reasoner/unify.c", "Reasoner/subsume.c", "Reasoner/simp.c", "Reasoner/rewrite.c", "Reasoner/build.c", "Reasoner/rgenloop.c"]

p("C01", "A satisfiable problem is never reported as proved",
  "gkc never reports a proof for a set of axioms that has a model, nor for a conjecture that is false in some model of its axioms. This holds in every input syntax, output format, strategy setting, portfolio run and number of worker processes.",
  ["inputs", "configurations"], "every clausal or first-order problem (with or without equality) that has a model, every strategy, with or without a conjecture",
  "The tests hold a few dozen fixed problems and mostly check that proofs exist; one false proof in the infinite space of problems and strategies makes the prover worthless.",
  INF + ["Parser/dbclausify.c", "Reasoner/rmain.c"],
  [("binary resolution, factoring, paramodulation, equality reflection", "Reasoner/resolve.c"), ("clausification of formulas and negation of the conjecture", "Builtparser/dbclausify.c"),
   ("result and proof reporting", "Reasoner/rmain.c, Reasoner/history.c")],
  "runtime monitoring: verdict oracle over problems with a planted finite model",
  "Exploration: problems are generated true in a known finite structure, so any claimed proof is wrong by construction; finite models of size up to 4 only.",
  ["stdout of gkc"])

p("C02", "Every clause derived in a search follows from the input clauses",
  "In a search without answers or arithmetic, every clause that gkc derives and reports (as a derived clause or as a proof step) is true in every model of the input clauses, and uses no symbol that the input does not have. This holds for every strategy and limit setting.",
  ["inputs", "configurations"], "every clausal problem and strategy; every clause reported by -derived and in proofs",
  "Tests look only at the final verdict; an unsound inference that happens not to end in a contradiction stays invisible.",
  INF, [("resolvent, factor and paramodulant building", "Reasoner/derive.c"), ("simplification, rewriting and unit cuts", "Reasoner/simp.c, Reasoner/rewrite.c, Reasoner/subsume.c"), ("unification", "Reasoner/unify.c")],
  "runtime monitoring: every reported derived clause evaluated in a model of the input",
  "Exploration: truth is tested in the planted finite structure of size up to 4, so a wrong clause that is true there passes; hundreds of thousands of clauses per run.",
  ["stdout of gkc -derived -json"])

p("C03", "Every printed proof is a checkable derivation",
  "Each printed proof is a list of numbered steps in which every premise is an earlier step, every input step is an input clause (or part of the clausal form of an input formula), every other step follows logically from the premises it cites, and the last step is the contradiction or the reported answer. The text, TPTP and JSON forms of the same run show the same proof.",
  ["inputs", "configurations"], "every provable problem, every strategy and inference rule, every output format",
  "The tests compare no proof with its premises; whether each step follows can only be judged per proof.",
  ["Reasoner/history.c", "Printer/dbotterprint.c", "Reasoner/derive.c", "Reasoner/simp.c", "Reasoner/rmain.c"],
  [("derivation records kept with each clause", "Reasoner/history.c"), ("flattening and printing of the derivation", "Reasoner/history.c")],
  "runtime monitoring: independent proof checker (z3 entailment per step) over recorded proofs",
  "Exploration: each step of each observed proof is decided by z3 (steps z3 cannot decide are counted inconclusive).", ["stdout of gkc in text, -tptp and -json mode"])

p("C04", "Answers are correct, distinct and within the requested number",
  "Each answer gkc reports to a query is true: the query instance (or the disjunction of instances) it names follows from the axioms. Over plain facts and function-free Horn rules, asking for enough answers yields all and only the correct instances, without repetition, and never more than asked for.",
  ["inputs", "configurations"], "every set of facts and rules, every query with answer variables, every number of answers asked for",
  "Tests check single expected answers of fixed examples, not the answer sets of arbitrary data.",
  ["Reasoner/rmain.c", "Reasoner/derive.c", "Reasoner/history.c", "Builtparser/dbclausify.c"],
  [("answer literals carried through inferences", "Reasoner/derive.c"), ("collecting, de-duplicating and limiting answers", "Reasoner/rmain.c, Reasoner/history.c")],
  "runtime monitoring: answer sets compared with a bottom-up Datalog evaluator and with z3",
  "Exploration over random Datalog programs and indefinite answers.", ["stdout of gkc -json"])

p("C05", "Unsatisfiable function-free problems are proved",
  "For every unsatisfiable function-free problem in which no equation has a bare variable as a side, the automatic portfolio and each of the complete single strategies (negative, positive and Knuth-Bendix preference; hyperresolution and hardness preference when there is no equality) report a proof. Writing the same problem differently - other order, names, duplicates or syntax - changes nothing.",
  ["inputs", "configurations"], "every such problem, every presentation of it, the named strategies with and without rewriting",
  "Tests sample a few dozen problems that are known to be proved; over-eager deletion (subsumption, cuts, simplification, weight limits) shows only on some rare inputs.",
  INF + ["Reasoner/clmeta.c", "Reasoner/hash.c", "Reasoner/clstore.c", "Reasoner/makeguide.c"],
  [("given-clause loop and queues", "Reasoner/rgenloop.c, Reasoner/clstore.c"), ("subsumption and cuts delete only redundant clauses", "Reasoner/subsume.c, Reasoner/simp.c"), ("literal selection", "Reasoner/resolve.c, Reasoner/clmeta.c"), ("automatic strategy choice", "Reasoner/makeguide.c")],
  "runtime monitoring: verdicts compared with ground truth by grounding and z3",
  "Exploration over thousands of small random problems per run; time limits give inconclusive, never a verdict.", ["stdout of gkc -json"])

p("C06", "Problems unsatisfiable by construction are proved, with functions and equality",
  "A problem obtained by generalising a ground unsatisfiable one - terms replaced by variables, function symbols, equations and unrelated clauses added - is reported as proved by the automatic portfolio and by complete strategies given time. So is every goal that follows by a chain of equations or rule applications of the size a user writes.",
  ["inputs", "configurations"], "every problem lifted from a ground contradiction, every chain of definitions, equations or rules",
  "Tests contain fixed theorems; whether terms, depth, equality and rewriting interact to lose a proof needs many structures.",
  INF + ["Reasoner/clmeta.c", "Reasoner/hash.c"], [("paramodulation and rewriting with term ordering", "Reasoner/rewrite.c, Reasoner/resolve.c"), ("clause selection by weight", "Reasoner/clmeta.c")],
  "runtime monitoring: provability oracle by construction",
  "Exploration: problems have short proofs by construction; a missing proof is a violation only when the search ends without one.", ["stdout of gkc -json"])

p("C07", "Clausification preserves meaning",
  "The clauses gkc makes from a set of formulas are satisfiable exactly when the formulas are: every model of the formulas extends to a model of the clauses, and every model of the clauses is a model of the formulas. A conjecture is negated before.",
  ["inputs"], "every set of first-order formulas with nested connectives, quantifiers, shadowed and free variables, equivalences and conjectures, in each syntax",
  "Tests use a handful of formulas and only look at verdicts, where a wrong clause is easily masked.",
  ["Builtparser/dbclausify.c", "Parser/dbclausify.c", "Builtparser/jsparse.c"],
  [("normal form, Skolemisation and renaming of subformulas", "Builtparser/dbclausify.c"), ("variable scoping", "Builtparser/dbclausify.c")],
  "runtime monitoring: printed clauses compared with the formulas over all structures of a bounded size (z3)",
  "Exploration: random formulas, both directions decided over finite domains of size 1 to 3.", ["stdout of gkc -convert -json / -clausify"])

p("C08", "The three input syntaxes and the conversions between them agree",
  "The same problem written in the simple, TPTP and JSON syntaxes is read as the same clauses, whether it comes in one file, several files or as text on the command line, and by the built-in and the generated parser alike. Converting a problem to JSON or TPTP and reading the result back gives the same clauses.",
  ["inputs", "configurations"], "every problem expressible in the three syntaxes, with symbols, quoted symbols, numbers, strings, lists, distinct objects, names and roles",
  "Tests convert a few files; symbol quoting, escaping, number and variable naming rules matter for arbitrary names.",
  ["Builtparser/dbotter.tab.c", "Builtparser/jsparse.c", "Parser/dbotter.y", "Parser/dbotter.l", "Parser/jsparse.c", "Printer/dbotterprint.c", "Main/gkc.c"],
  [("lexer and grammar", "Parser/dbotter.l, Parser/dbotter.y"), ("JSON reader", "Builtparser/jsparse.c"), ("clause printers", "Printer/dbotterprint.c")],
  "runtime monitoring: differential comparison of clause sets read from different syntaxes and after round trips",
  "Exploration over random problems; clause sets are compared up to variable names, or semantically.", ["stdout of gkc -convert"])

p("C10", "Machine-readable output is one well-formed result",
  "With JSON output at the result-only print level (-print 10) gkc prints exactly one JSON result object (or one error object; a search that runs out of memory may report that before the result) whatever the symbols, answers, rules and proof contain, with the documented fields, and the search outcome in it is the same as in the text and TPTP output of the same run. Symbol names come out exactly as they were read.",
  ["inputs", "configurations"], "every input with quoted or unusual symbols, every strategy whose proof uses any inference rule",
  "Tests parse the output of a few runs; escaping and rule printing depend on the symbols and rules that occur.",
  ["Reasoner/rmain.c", "Reasoner/history.c", "Printer/dbotterprint.c", "Main/gkc.c", "Reasoner/printerrutils.c"],
  [("JSON printing of clauses, symbols and histories", "Printer/dbotterprint.c, Reasoner/history.c")],
  "runtime monitoring: strict JSON parser and schema monitor over outputs, cross-format comparison", "Exploration.", ["stdout of gkc -json"])

p("C11", "Ground arithmetic and comparisons compute the right values",
  "Every ground arithmetic term, comparison and type test over integers and reals that gkc evaluates has the mathematically right value (integer results exact, or left unevaluated when they do not fit or are undefined such as division by zero), so that a ground arithmetic claim is proved if and only if it is true.",
  ["inputs"], "every nested ground term of the arithmetic functions and every comparison, integers and reals of all sizes and signs",
  "Tests evaluate a few expressions; operator, sign, type and size combinations are unbounded.",
  ["Reasoner/build.c", "Reasoner/clterm.c", "Reasoner/unify.c"],
  [("evaluation of computable functions and predicates", "Reasoner/build.c")],
  "runtime monitoring: computed values compared with an exact reference evaluator", "Exploration.", ["stdout of gkc -json"])

p("C12", "Arithmetic instantiation is sound and bounded",
  "Proofs and answers that use guessed arithmetic instances are correct: a problem over integer or real arithmetic that has a model in the standard numbers is never proved, and a numeric answer satisfies the equations it answers. Turned off, it contributes nothing, and its budget limits are respected.",
  ["inputs", "configurations"], "every problem with linear and product equations and comparisons over the numbers; every instantiation mode",
  "Tests cover around twenty fixed word problems.",
  ["Reasoner/arithinst.c", "Reasoner/build.c"], [("candidate instances and probes", "Reasoner/arithinst.c")],
  "runtime monitoring: verdicts and answers compared with evaluation in the standard numbers", "Exploration.", ["stdout of gkc -json"])

p("C13", "Strings, distinct symbols and lists obey their fixed meaning",
  "Distinct symbols, strings and numbers that are written differently are unequal, equal ones are equal, and nothing else is assumed of them: a goal that needs such a disequality is proved, and one that would need more is not. The list operations (construction, head, tail, list tests) and the string operations (length, substring) compute their defined results.",
  ["inputs"], "every pair of constants of the different kinds, every ground list expression",
  "Tests contain one example each.",
  ["Reasoner/build.c", "Reasoner/unify.c", "Reasoner/derive.c"], [("unique-name test in unification and equality evaluation", "Reasoner/unify.c, Reasoner/build.c")],
  "runtime monitoring: verdicts compared with a reference evaluator of terms", "Exploration.", ["stdout of gkc -json"])

p("C14", "A shared knowledge base answers like its source files and stays unchanged",
  "Querying a shared-memory knowledge base gives the same outcome as proving the same files together with the query. Any number of queries, one after another or at the same time, killed or not, leave the knowledge base byte for byte as it was, and deleting it makes it unavailable.",
  ["inputs", "histories", "schedules"], "every knowledge base and query, every sequence and interleaving of queries by concurrent processes",
  "Tests run a few queries one by one and never compare the shared memory itself.",
  ["Main/gkc.c", "Db/dbmem.c", "Reasoner/rmain.c", "Reasoner/history.c", "Reasoner/rgenloop.c"],
  [("attached knowledge bases are never written", "Reasoner/history.c, Reasoner/rgenloop.c, Reasoner/rmain.c"), ("offsets to the external database", "Db/dbmem.c")],
  "runtime monitoring: differential verdicts plus byte-level comparison of the shared segment under concurrent queries", "Exploration.", ["stdout of gkc -usekb", "the shared memory segment"])

p("C15", "A dumped knowledge base loads back to the same knowledge base",
  "Writing a knowledge base to a file and loading it gives a knowledge base with the same content, which answers every query as the original did. A damaged or truncated file is refused.",
  ["inputs", "fault_sequences"], "every knowledge base; every truncation or corruption of the dump",
  "The dump test of the suite covers one knowledge base and no damage.",
  ["Db/dbdump.c", "Main/gkc.c"], [("dump header with checksum", "Db/dbdump.c")],
  "runtime monitoring: round-trip comparison and fault injection into dump files", "Fault enumeration over truncations and byte flips of dumps.", ["dump files", "stdout of gkc -usekb"])

p("C16", "Parallel search ends cleanly with one result",
  "With any number of worker processes gkc prints exactly one result, equal in kind to what a sequential search may report, exits, and leaves no worker process or private shared memory behind. This holds when several workers finish at the same moment and when a worker dies.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of the workers, every worker killed at any time, every problem",
  "Tests run parallel search a few times without forcing races or worker failure.",
  ["Reasoner/rmain.c"], [("fork, wait and kill of worker processes", "Reasoner/rmain.c"), ("claiming the right to print the result", "Reasoner/rmain.c")],
  "runtime monitoring: result counting and process accounting under stress, delays and killed workers", "Exploration of schedules by stress.", ["stdout of gkc -parallel N", "/proc"])

p("C17", "Time limits are kept",
  "A search with a time limit ends within a small margin of that limit and says that the time ran out or that no proof was found; a proof reported before the limit is a normal one. Each run of a multi-run strategy gets about the time it was given and the following runs are reached.",
  ["inputs", "configurations"], "every endless problem and every limit setting",
  "Tests run only searches that end quickly.",
  ["Reasoner/rmain.c", "Reasoner/rgenloop.c"], [("alarm and time checks", "Reasoner/rmain.c, Reasoner/rgenloop.c")],
  "runtime monitoring: wall-clock and outcome monitor with wide margins", "Exploration; margins are several times the limit to stay quiet on slow machines.", ["stdout and duration of gkc"])

p("C18", "Running out of memory never crashes or falsifies a result",
  "However small the memory a user grants to the database with -mbsize, and wherever in reading, converting, storing or searching it runs out, gkc ends in an orderly way with an error, no proof, or a correct proof: it does not crash, hang, corrupt memory or report a false proof or a partial conversion, and a knowledge base which was not read completely is not used.",
  ["inputs", "fault_sequences"], "every problem, every memory size, every failing allocation",
  "Tests never run out of memory.",
  ["Reasoner/mem.c", "Reasoner/glb.c", "Db/dballoc.c", "Reasoner/build.c", "Builtparser/dbclausify.c"],
  [("allocation error flag checked in all loops", "Reasoner/glb.c, Reasoner/rgenloop.c")],
  "runtime monitoring: sanitizers and outcome monitor under injected allocation failure", "Fault enumeration over memory sizes and failing allocation numbers.", ["exit status, stdout, AddressSanitizer"])

p("C19", "Proof search has no memory errors or undefined behaviour",
  "While searching with any strategy on any problem gkc accesses only memory that it owns and performs no undefined arithmetic.",
  ["inputs", "configurations"], "every problem, strategy, portfolio, answer and arithmetic setting",
  "The tests run an uninstrumented build on small problems.",
  INF + ["Reasoner/arithinst.c", "Reasoner/prop.c", "Reasoner/propagate.c", "Reasoner/history.c", "Reasoner/hash.c"],
  [("bounds of clause buffers, variable stacks, hash buckets", "Reasoner/mem.c, Reasoner/hash.c, Reasoner/unify.c")],
  "AddressSanitizer and UBSan over searches", "Exploration; memory inside the program's own arenas is checked only through invariants and crashes.", ["sanitizer reports"])

p("C20", "No input makes a parser or the command line misbehave",
  "Whatever bytes are given as a problem, strategy or option, gkc reads no memory it does not own, ends, and reports either an error or a result.",
  ["inputs"], "every byte string as a problem in each syntax, as a strategy and as command-line options",
  "Tests use well-formed files and a few syntax errors.",
  ["Builtparser/dbotter.yy.c", "Parser/dbotter.l", "Builtparser/jsparse.c", "cjson/cjson.c", "Main/gkc.c", "Reasoner/guide.c"],
  [("lexer buffers, term building, error reporting", "Parser/dbotter.l, Parser/dbgenparse.h"), ("strategy reader", "Reasoner/guide.c, cjson/cjson.c")],
  "AddressSanitizer and UBSan under mutation and grammar fuzzing of inputs", "Exploration.", ["sanitizer reports, exit status"])

p("C21", "A sequential run is reproducible",
  "Running the same sequential search twice on the same input and settings gives byte for byte the same result and derived clauses, apart from reported times, whatever the address layout, environment and load.",
  ["inputs", "configurations", "schedules"], "every problem and strategy whose search ends without a time limit",
  "Tests run each case once.",
  ["Reasoner/rgenloop.c", "Reasoner/hash.c", "Reasoner/clstore.c", "Reasoner/glb.c"], [("queues and hashes independent of addresses", "Reasoner/hash.c, Reasoner/clstore.c")],
  "runtime monitoring: repeated executions under different address layouts, allocator fill patterns and builds compared", "Exploration.", ["stdout"])

p("C22", "Unification and subsumption are exact",
  "Two literals are resolved exactly when they unify - with the occurs check, shared and repeated variables - and the result is the most general instance; unit clauses contradict each other, or refute a longer clause together, if and only if their atoms unify at once. A literal is cut or a clause dropped as subsumed only when a substitution makes that right: no clause that a refutation needs is lost.",
  ["inputs"], "every pair of terms and every pair of clauses",
  "Tests check a few unifications indirectly.",
  ["Reasoner/unify.c", "Reasoner/subsume.c", "Reasoner/clmeta.c"], [("unification with occurs check", "Reasoner/unify.c"), ("subsumption matching and its meta-information filters", "Reasoner/subsume.c, Reasoner/clmeta.c")],
  "runtime monitoring: in-process harness compares unification and subsumption with a reference on generated terms", "Exploration.", ["harness linked with the real code", "stdout of gkc"])

p("C23", "Database values decode to what was encoded",
  "Every value stored in the database - integer, double, fixed-point number, character, date, time, string with language, URI with prefix, typed XML literal, blob, variable, null, record - decodes to the same type and content until it is overwritten, whatever else is stored, and in every database size.",
  ["inputs", "histories"], "every value of each type, every order of storing and overwriting",
  "No test in the stable suite stores more than a few values of each type.",
  ["Db/dbdata.c", "Db/dballoc.c", "Db/dbhash.c"], [("encoding of small and long values", "Db/dbdata.c"), ("interning of long strings with reference counts", "Db/dbdata.c, Db/dbhash.c")],
  "runtime monitoring: in-process model-based stress harness under sanitizers", "Exploration.", ["harness linked with the real Db code"])

p("C24", "Records and memory behave like a store of independent records",
  "After any sequence of creating, writing, deleting and scanning records, the scan lists exactly the live records with their last written contents, no operation changes another record, freed memory is reused and consistent, and a refused operation changes nothing.",
  ["histories", "inputs"], "every sequence of record operations of any sizes until memory is full",
  "The suite's database tests are fixed short sequences.",
  ["Db/dballoc.c", "Db/dbdata.c"], [("free lists and buckets of the allocator", "Db/dballoc.c"), ("record creation, deletion, back links", "Db/dbdata.c")],
  "runtime monitoring: model-based stress harness with allocator invariant checks", "Exploration.", ["harness linked with the real Db code"])

p("C26", "Indexes and queries agree with a full scan",
  "After any sequence of writes, a query - by condition on columns, through an index or without one, by hash or tree index - returns exactly the records that satisfy the conditions, and creating or dropping an index changes no result.",
  ["histories", "inputs"], "every sequence of inserts, updates, deletes, index creations and drops, every query",
  "The suite's database tests are fixed short sequences.",
  ["Db/dbindex.c", "Db/dbhash.c", "Db/dbquery.c", "Db/dbcompare.c"], [("tree and hash index maintenance on write", "Db/dbindex.c, Db/dbhash.c"), ("query building", "Db/dbquery.c"), ("value order", "Db/dbcompare.c")],
  "runtime monitoring: model-based stress harness, brute force scan as oracle", "Exploration.", ["harness linked with the real Db code"])

p("C28", "Database locks exclude each other and never get lost",
  "A writer never holds the database lock together with another writer or reader, readers may share it, every request is granted once the holders release, and a request with a time limit returns.",
  ["schedules"], "every interleaving of reader and writer processes",
  "No test in the suite takes locks concurrently.",
  ["Db/dblock.c"], [("shared-memory reader-writer lock with atomic operations", "Db/dblock.c")],
  "runtime monitoring: multi-process stress with an overlap monitor in shared memory", "Exploration of schedules.", ["harness linked with the real Db code"])

p("C29", "Strategy settings do what they say",
  "Documented strategy settings have their documented effect: max_length, max_depth, max_size and max_weight (with the weight settings) discard a clause derived by resolution or paramodulation exactly when it is over the limit; unit, double, triple, posunitpara, equality 0 and arith_instantiation 0 restrict the steps which occur in proofs; max_answers bounds the answers; the runs are done in the order given, each with its own settings and the common ones (limits, derived clauses and results of a run are as if it were alone), under any number of workers; ways of writing the same strategy (defaults given or left out, common settings or per run, file or text, one run or a list) give the same output; an unknown setting or name is reported and changes nothing else; a malformed strategy is reported and not used.",
  ["configurations", "inputs"], "every combination of documented settings",
  "Tests use a dozen fixed strategy files and look only at verdicts.",
  ["Reasoner/guide.c", "Reasoner/glb.c", "Reasoner/derive.c"], [("reading of the strategy", "Reasoner/guide.c"), ("limit checks on derived clauses", "Reasoner/derive.c")],
  "runtime monitoring: monitor of derived clauses and outcomes against the requested limits", "Exploration.", ["stdout of gkc -derived -json"])

NA = {}
exec(open(os.path.join(V, "tools", "extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "extra.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
checks = []
na = []
for d, tech, note, level in P:
    i = d["id"]
    path = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(path):
        checks.append(dict(property=i, quick_cmd="python3-vt checks/%s.py" % i.lower(), thorough_cmd="VERIF_TIER=thorough python3-vt checks/%s.py" % i.lower(),
                           evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", hooks=dict(guard="GKC_VERIF", enable="no hooks are needed so far: the checks observe outputs and link the real sources; the guard is reserved", source_commits=[]),
         checks=checks, not_applicable=na, notes="Checks build /repo's current working tree into /verif/.build (ignored by git). See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed,", len(na), "not claimed")
