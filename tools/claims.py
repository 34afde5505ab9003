HOOKS = None
NA = {}
CLAIMS = {
 'S01': ('model_checking', 'TLA+ spec (TLC), spec schedules replayed into the service, recorded runs validated by TLC',
         'Exhaustive for 3 requests in the model; sampled schedules on the real service over a Viper double. Trusts the double of the Viper/JVM API.'),
 'S04': ('model_checking', 'TLA+ spec (TLC), spec schedules with cancellations replayed into the service, runs validated by TLC',
         'Exhaustive for 3 requests and 2 tokens in the model; sampled schedules on the real service over a Viper double.'),
 'T01': ('model_checking', 'TLA+ operational semantics of the generated Viper code (Silver.tla) and of Python control flow (PyFlow.tla); TLC enumerates programs and executes each translation, outcome compared with CPython',
         'Sampled programs (corpus and generated from the spec), every input in small ranges; trusts Silver.tla as semantics of Viper and the AST double.'),
 'T02': ('model_checking', 'TLA+ operational semantics of the generated Viper code (Silver.tla) and of Python expressions and their evaluation order (PyExpr.tla); TLC enumerates expressions, executes each translation, outcome compared with CPython',
         'Sampled programs (corpus and generated from the spec), every input in small ranges; trusts Silver.tla as semantics of Viper and the AST double.'),
 'T03': ('model_checking', 'TLA+ operational semantics of the generated Viper code (Silver.tla): TLC executes every translation; every failing assertion, precondition, postcondition and invariant compared with the contracts evaluated at run time in CPython',
         'Sampled programs, every input in small ranges; trusts Silver.tla as semantics of Viper and the AST double; permissions beyond the contract positions are left to T04.'),
 'S06': ('model_checking', 'TLA+ spec of the configuration (Config.tla, TLC); its behaviours replayed into the MCP, LSP and command-line front ends, what the backend received judged by TLC',
         'Exhaustive for single changes in the model; sampled option sequences (every option value at least once) on the real code over a Viper double.'),
 'S02': ('model_checking', 'TLA+ spec of independence of earlier requests (History.tla, TLC); its histories of requests (programs, options, failures, edits) replayed into the service, MCP, LSP and command-line fronts, answers judged by TLC',
         'Exhaustive for short histories in the model; sampled histories on the real code over a Viper double, each answer compared with the same request in a fresh process.'),
 'S03': ('model_checking', 'TLA+ spec of request endings (Endings.tla, TLC): every translation and backend ending, replayed into the service, MCP, LSP and command-line fronts over a Viper double; what the user is told judged by TLC',
         'Every ending and small error sets in every front; sequences of endings sampled. The Viper double raises what the real backend can raise.'),
 'E02': ('model_checking', 'TLA+ spec of the report formats and their conventions (Formats.tla, TLC): failures built by the spec from checks of real translations, reported through the command line (text, IDE), the service and the editor; TLC compares the parsed reports',
         'Sampled failures of up to 6 errors over two programs and six rejected programs; text is parsed by the harness.'),
 'S05': ('model_checking', 'TLA+ spec of the editor session (Editor.tla, TLC): edits, saves, overlapping verification runs, cancellations; its behaviours replayed into the language server over a Viper double, published diagnostics judged by TLC',
         'Exhaustive for short sessions in the model; sampled schedules of the real server. The Viper double decides when each run ends.'),
 'S07': ('model_checking', 'TLA+ spec of the MCP snippet and method requests (Snippet.tla, TLC): behaviours replayed into the MCP server over a Viper double, answers and left-over files judged by TLC',
         'Sampled request sequences on the real server over a Viper double.'),
 'T04': ('model_checking', 'TLA+ operational semantics of the generated Viper code with fractional permissions, predicates, wildcards and quantified permissions (Silver.tla): TLC executes every translation of corpus programs that do or do not have the permissions they use; verdict compared with the marked expectation',
         'Corpus programs (fields, predicates, folding, families, collections, creation of attributes), small inputs; trusts Silver.tla as semantics of Viper and the AST double.'),
 'T05': ('model_checking', 'TLA+ operational semantics of the generated Viper code (Silver.tla) with dynamic dispatch through the generated override and inherit checks; TLC executes every translation, outcome compared with CPython',
         'Sampled programs (dispatch, overriding, binding of arguments, fields, properties, truth), every input in small ranges; trusts Silver.tla as semantics of Viper and the AST double.'),
 'T07': ('model_checking', 'TLA+ evaluation of the contracts of the built-in operations (Contracts.tla over Silver.tla): applications of each operation recorded from CPython, TLC evaluates precondition, postconditions and body on each; corpus programs using the operations executed end to end',
         'Every operation with a contract stated on values, on small operands (about 7600 applications); operations on floats, locks and threads excluded; trusts Silver.tla.'),
 'T10': ('model_checking', 'TLA+ operational semantics of the generated Viper code with obligation permissions, measures, perm() and forperm, lock levels and wait levels (Silver.tla): TLC executes every translation of corpus programs that keep or break their promises; verdict compared with the marked expectation',
         'Corpus programs (recursive and mutually recursive methods, loops, measures of several kinds, obligations to release locks, wait levels, lock invariants), small inputs; trusts Silver.tla; I/O obligations (MustInvoke) excluded.'),
  'T08': ('model_checking', 'TLA+ specification of closed, well-typed Viper programs (WellFormed.tla): TLC judges every distinct member of the translated programs with the declarations it refers to, the declared names, and the names given to Python elements; programs with clashing names also executed (Silver.tla)',
         'All corpus programs (those with clashing names under every option) and a sample of the repository\'s example programs (thorough: all of them); Viper\'s own consistency rules are restated in TLA+; types of function applications are taken from the declaration.'),
 'T09': ('model_checking', 'TLA+ specification of what a selection must leave of a translation (Selection.tla): TLC enumerates the selections of every program, checks the laws of the rules, and compares the real translation restricted to each sampled selection with what the complete translation requires',
         'Corpus programs, single names, classes, Class.method, pairs and unknown names (sampled per shape); the slicing of Viper (chopper) is a double; bodies compared up to the numbering of generated names.'),
 'E01': ('model_checking', 'TLA+ specification of the report on a failing check (Report.tla): every numbered check of translated programs is made to fail over a Viper double, the real reporting code builds the diagnosis, TLC judges its position (inside the member, on the construct) and its reason against the specification and the marks of the programs',
         'Corpus programs with numbered checks, one failing check at a time plus small sets; exact construct and reason text only where the program marks them; positions otherwise bounded by the enclosing member and statement.'),
 'T06': ('model_checking', 'TLA+ specification of the types of a Python program (Types.tla): hierarchies enumerated by TLC (TypesGen.tla) are translated, TLC evaluates every instance of every generated type axiom over the types of the program and checks that every fact of the specification is pinned by an axiom',
         'Hierarchies of 3 classes with up to 2 type parameters (sampled; thorough: every shape), about 12 types per program; the axioms on tuple types and those with more than 3 variables are not evaluated.'),
}
