"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
S = 'src/nagini_translation/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=S + w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


NOJVM = ('The tests that drive verification need the Viper jar and compare single sequential runs with '
         'annotations; the tests that run here only look at option and diagnostic helpers. ')

prop('S01', 'Concurrent verification requests never mix their results',
     'Whatever the interleaving of concurrent verification requests to one service, each request returns exactly '
     'the success flag and diagnostics it would have returned had it been the only request the service ever served. '
     'No diagnostic position, message, code or reason of one request is ever taken from another one.',
     ['schedules', 'histories'],
     'All interleavings of the translate, submit, backend-complete and report steps of up to three overlapping requests over '
     'files that verify, fail in different places, or do not translate.',
     NOJVM + 'No test overlaps two requests.',
     ['service.py', 'viper_server.py', 'lib/errors/manager.py', 'main.py'],
     [('state lock held over translation and over error conversion', 'service.py'),
      ('per-job snapshot of error items and conversion rules', 'service.py')],
     [('error items / conversion rules', 'global maps from position id to Python node and rules', 'lib/errors/manager.py')],
     ['VerificationService.verify return value', 'programs submitted to the ViperServer'])

prop('S02', 'A request\'s outcome does not depend on earlier requests',
     'Verifying a file with given options produces the same backend program (up to generated position identifiers), the same backend arguments and the same '
     'diagnostics no matter which requests, successful, failing or rejected, and which option changes that were later undone the same '
     'process handled before.',
     ['histories', 'configurations'],
     'Histories of verify requests (with and without obligations, rejected programs, selections, counterexample on/off) and '
     'reconfigurations, in one process, over the direct and the server backend.',
     NOJVM + 'They use a fresh process state per test and cannot quantify over histories.',
     ['service.py', 'main.py', 'lib/config.py', 'lib/viper_ast.py', 'translators/program.py'],
     [('obligation auto-detection is reset before each translation', 'service.py'),
      ('resources are reloaded when an option that affects them changes', 'service.py')],
     [('disable_all', 'sticky obligation switch', 'lib/config.py'), ('sil_programs', 'parsed resources', 'main.py')],
     ['program and arguments handed to the backend', 'VerifyResult'])

prop('S03', 'Success is reported only when the backend verified the whole program',
     'A verification request reports success if and only if the translation finished and the Viper backend itself reported success for the '
     'translated program; every other ending (type error, rejected program, inconsistent program, backend failure, '
     'timeout, abort, crash, missing backend, cancellation) yields a non-success result or an error that names the kind of ending. '
     'Every error a failing backend reports at distinct places appears in the result.',
     ['fault_sequences', 'inputs', 'configurations'],
     'Every ending of every stage (type check, translation, consistency check, start of the server, submission, '
     'backend run) for each backend, frontend and output mode.',
     NOJVM + 'Backend faults are never injected.',
     ['service.py', 'main.py', 'verifier.py', 'viper_server.py', 'mcp_server.py'],
     [('result classification', 'service.py'), ('exit status and printed verdict', 'main.py'),
      ('conversion of backend results', 'verifier.py')], (),
     ['VerifyResult', 'MCP replies', 'CLI output and exit status'])

prop('S04', 'Cancelling stops exactly the requested verification',
     'Cancelling with a token stops the request that is currently being verified by the backend under that token, and no other request; cancelling without a '
     'token stops all of them. A cancelled request returns a cancelled, unsuccessful result without diagnostics, other requests return their normal '
     'results, and a token whose request has ended no longer refers to anything.',
     ['schedules', 'histories'],
     'All interleavings of up to three requests, token reuse included, with cancellations before, during and after each of them.',
     NOJVM + 'No test cancels a running job.',
     ['service.py', 'viper_server.py', 'mcp_server.py'],
     [('token table, only the own entry is removed', 'service.py'), ('per-job stop message', 'viper_server.py')],
     [('jobs', 'token -> running backend job', 'service.py')],
     ['stop messages and interrupts received by the server', 'VerifyResult.cancelled'])

prop('S05', 'The editor ends up showing the result of the newest run of a document',
     'When no verification is running any more, the diagnostics last published for a document are those of the run that was '
     'requested last for it, wherever the runs of that and of other documents overlapped; a run that was superseded never overwrites the diagnostics of a newer one. '
     'A run of one document never cancels or publishes to another document.',
     ['schedules', 'histories'],
     'All interleavings of open/save/verify-method events of up to two documents with the progress of the runs they start.',
     'Only helper functions of the language server are tested; no run is ever started.',
     ['lsp_server.py', 'service.py'],
     [('cancel of the document\'s previous run, cancelled results are dropped', 'lsp_server.py')],
     [('last diagnostics', 'uri -> diagnostics shown', 'lsp_server.py')],
     ['publishDiagnostics notifications', 'hover contents'])

prop('S06', 'Configuration changes take effect exactly as requested',
     'After a configuration change every later request runs with exactly the effective options the service reports, the reported options are the previous ones '
     'updated with the recognised non-null keys of the change, and unknown or null keys and the jar path change nothing. '
     'This covers backend choice, server use, integer bit size, float encoding, branch-condition reporting and tool paths.',
     ['configurations', 'histories'],
     'Sequences of configuration changes and requests, over the service and the tool server, and start-up options.',
     'The tests check the merging of one option dictionary, not that requests obey it.',
     ['service.py', 'mcp_server.py', 'lsp_server.py', 'verifier.py', 'lib/config.py'],
     [('reconfigure and option table', 'service.py'), ('backend argument construction', 'verifier.py')], (),
     ['arguments and program handed to the backend', 'reported options'])

prop('S07', 'Snippet and method requests equal the file request and leave nothing behind',
     'Verifying a snippet through the tool server gives the result of verifying a file with that content, and verifying a method equals verifying '
     'the file restricted to it, with all request parameters passed on. Whatever the outcome, no file created for the request '
     'remains afterwards, and a concurrent request never sees it replaced.',
     ['inputs', 'schedules', 'fault_sequences'],
     'Snippets and methods that verify, fail, are rejected, crash the backend or are cancelled, in overlapping requests.',
     'The tool server has no tests that run without the Viper jar.',
     ['mcp_server.py', 'service.py'],
     [('private temporary directory per request, removed in a finally block', 'mcp_server.py')], (),
     ['MCP replies', 'temporary directory contents'])

prop('E01', 'Verification errors are reported at the Python construct that caused them',
     'For every failing check of the translated program, the reported error carries the file, line and column range of the Python '
     'statement or expression the check was generated for, and the error kind of that check. When the '
     'failing condition was written in a contract elsewhere, the reason names that contract\'s position.',
     ['programs', 'inputs'],
     'Every proof obligation (assertion, pre- and postcondition, invariant, permission, termination) of a corpus of '
     'programs, reported as failing in turn.',
     NOJVM + 'They sample the errors the real verifier happens to find in each test.',
     ['lib/viper_ast.py', 'lib/errors/manager.py', 'lib/errors/wrappers.py', 'lib/errors/rules.py', 'translators/common.py'],
     [('position identifiers registered with node and rules', 'lib/viper_ast.py'), ('error and reason conversion', 'lib/errors/manager.py')],
     (), ['Diagnostics of VerifyResult'])

prop('E02', 'All report formats describe the same errors',
     'The command-line text, the IDE format, the structured result and the editor diagnostics of one verification run list the same errors, '
     'each once, with the same position (modulo the documented 0/1-based conventions), message and reason. Errors that differ in position or kind '
     'are never merged.',
     ['inputs', 'programs'],
     'Arbitrary lists of backend errors, with and without reasons, branch conditions, inlined-call stacks and duplicates, and type errors.',
     'The tests convert one hand-written diagnostic.',
     ['lib/errors/wrappers.py', 'verifier.py', 'service.py', 'lsp_server.py', 'main.py'],
     [('formatting', 'lib/errors/wrappers.py'), ('structured conversion', 'service.py')], (),
     ['CLI output', 'VerifyResult', 'LSP diagnostics'])

prop('T01', 'Translated control flow executes the same path as Python',
     'For every function built from if, while, for, try/except/else/finally, with, break, continue, return, raise and assert, nested in any '
     'way, the translated method reaches the same statements in the same order, and ends with the same '
     'return value or the same exception as CPython on every input.',
     ['programs', 'inputs'],
     'All control-flow skeletons up to a bounded size and random larger ones, all decisions on their inputs.',
     NOJVM + 'They contain single hand-written programs per feature.',
     ['translators/statement.py', 'translators/method.py', 'translators/call.py', 'analyzer.py'],
     [('statement translation, exception variable, labels and gotos', 'translators/statement.py')], (),
     ['translated Viper program (executed by the specification)', 'CPython execution'])

prop('T02', 'Translated expressions evaluate to the same values as Python',
     'For every expression over integers, booleans, None, strings, tuples, lists, sets, dictionaries, user objects and calls that the translator accepts, the '
     'translated expression evaluates to the value CPython computes, evaluates the same calls in the same order and at '
     'most the same operands (short-circuiting, chained comparison, conditional expressions, arguments by position, keyword and default).',
     ['programs', 'inputs'],
     'Generated expressions over small operand values, including negative numbers and both truth values.',
     NOJVM + 'They check few operand values.',
     ['translators/expression.py', 'translators/call.py', 'translators/common.py', 'translators/pure.py', 'resources/bool.sil'],
     [('expression translation, boxing and unboxing', 'translators/expression.py')], (),
     ['translated Viper program (executed by the specification)', 'CPython execution'])

prop('T03', 'Every violated contract or assertion fails in the translated program',
     'On every execution in which a Python assertion, Assert, precondition, postcondition, loop invariant or exceptional postcondition written over program values '
     'evaluates to false, the translated program has a failing check for it at that point; on executions in which all of '
     'them hold the translated program has no failing check.',
     ['programs', 'inputs'],
     'Generated methods, pure functions and loops with contracts that are true or false depending on the input.',
     NOJVM + 'They sample one program per contract kind.',
     ['translators/contract.py', 'translators/method.py', 'translators/call.py', 'translators/statement.py', 'translators/pure.py'],
     [('contract translation', 'translators/contract.py'), ('method and function creation', 'translators/method.py')], (),
     ['translated Viper program (executed by the specification)', 'CPython execution'])

prop('T04', 'Access without permission is rejected, access with permission accepted',
     'The translated program fails whenever an execution reads a field without any permission or writes it without full permission under the declared contracts, '
     'and does not fail when each method, predicate fold and loop holds the permissions its contract states. '
     'Permission amounts transferred by calls, predicates, folds and loops are those written in the contracts.',
     ['programs', 'inputs'],
     'Generated programs over heap objects with fractional, wildcard and predicate permissions, fold/unfold and calls.',
     NOJVM + 'They sample.',
     ['translators/permission.py', 'translators/predicate.py', 'translators/contract.py', 'translators/statement.py'],
     [('permission and predicate translation', 'translators/permission.py')], (),
     ['translated Viper program (executed by the specification)'])

prop('T05', 'Method calls, construction and overriding follow Python\'s object model',
     'Calls, super calls, constructors, class and static members, properties and inherited methods resolve in the translated program to the '
     'member CPython would select, with the same argument binding, and isinstance and type tests give CPython\'s answer. '
     'An override whose contract or signature is not compatible with the overridden one is rejected or fails.',
     ['programs', 'inputs'],
     'Generated class hierarchies with overrides, defaults, keyword arguments and multi-level inheritance.',
     NOJVM + 'They sample.',
     ['translators/call.py', 'translators/method.py', 'translators/program.py', 'lib/program_nodes.py', 'lib/resolver.py', 'analyzer.py'],
     [('call target resolution', 'lib/resolver.py'), ('override check methods', 'translators/program.py')], (),
     ['translated Viper program (executed by the specification)', 'CPython execution'])

prop('T06', 'The type encoding agrees with the Python class hierarchy',
     'For every program, the subtype relation and type constants that the translated program axiomatises are exactly those of the Python classes: '
     'reflexive, transitive, containing every declared inheritance edge and no relation between unrelated classes, with distinct classes kept distinct.',
     ['programs'],
     'Class hierarchies up to a bounded size, including generic classes and exceptions.',
     NOJVM + 'They never enumerate hierarchies.',
     ['translators/type_domain_factory.py', 'translators/type.py', 'translators/program.py'],
     [('generated axioms', 'translators/type_domain_factory.py')], (), ['PyType domain of the translated program'])

prop('T07', 'Contracts of built-in operations agree with CPython',
     'For every built-in function or method that Nagini models, whenever its modelled precondition holds CPython\'s operation does not raise, and '
     'its modelled result, postcondition and effect hold of what CPython computes.',
     ['inputs'],
     'All small operand values of the modelled integer, boolean, string, list, tuple, set, dict, range, bytes and sequence operations.',
     NOJVM + 'The contracts are trusted assumptions; nothing compares them with CPython.',
     ['resources/bool.sil', 'resources/list.sil', 'resources/set_dict.sil', 'resources/str.sil', 'resources/tuple.sil', 'resources/range.sil', 'resources/seq.sil'],
     [('function bodies and postconditions', 'resources/bool.sil')], (), ['parsed resource programs (evaluated by the specification)', 'CPython'])

prop('T08', 'Every translated program is a closed, well-typed Viper program',
     'Whenever translation succeeds, the program handed to the backend declares every name it uses exactly once, is well-typed, and uses old, '
     'result, labels and permissions only where Viper allows them; different Python elements never share one Viper name.',
     ['programs', 'configurations'],
     'The whole example corpus and generated programs with clashing names, nested scopes, several modules and all options.',
     NOJVM + 'Viper\'s own checker is absent and would see only the sampled programs.',
     ['translators/program.py', 'translators/method.py', 'lib/program_nodes.py', 'lib/viper_ast.py'],
     [('fresh name generation', 'lib/program_nodes.py'), ('program assembly', 'translators/program.py')], (), ['program handed to the backend'])

prop('T09', 'Selecting members verifies those members and only those',
     'When verification is restricted to chosen functions, methods or classes, the program handed to the backend contains the complete '
     'checks of every chosen member and the contracts of everything they depend on, verifies no other member\'s body, and a selection that names nothing is reported '
     'and verifies nothing.',
     ['programs', 'inputs'],
     'All subsets of the members of programs with calls, predicates, functions, overrides and nested classes.',
     NOJVM + 'Few selections are tested.',
     ['translators/program.py', 'main.py', 'service.py'],
     [('dependency tracking and chopping', 'translators/program.py')], (), ['program handed to the backend'])

prop('T10', 'Termination and other obligations are enforced where they are promised',
     'A method or loop that promises to terminate fails in the translated program on every execution on which its measure is not positive or does not strictly decrease at a '
     'call or iteration, or which leaves an obligation unfulfilled, and passes when the measures decrease and the obligations are met.',
     ['programs', 'inputs'],
     'Generated recursive methods and loops with constant, decreasing and non-decreasing measures.',
     NOJVM + 'They sample.',
     ['translators/obligation/', 'analyzer.py'],
     [('obligation encoding', 'translators/obligation/')], (), ['translated Viper program (executed by the specification)'])

prop('G01', 'Ghost code cannot influence regular execution',
     'If a program with ghost variables, parameters, fields, returns or functions is accepted, then removing the ghost code leaves every regular value, branch, '
     'exception, and call of the execution unchanged; a program in which a ghost value flows into regular code is rejected.',
     ['programs', 'inputs'],
     'All information flows from ghost to regular elements through the statement and expression forms of the language, up to a bounded size.',
     'Ghost tests are single programs with an expected rejection and cannot run without the jar.',
     ['ghost/ghost_checker.py', 'analyzer.py'],
     [('ghost checker', 'ghost/ghost_checker.py')], (), ['acceptance of the program', 'CPython executions'])

prop('G02', 'Extraction produces a program with the same regular behaviour',
     'For every accepted program the extracted program is valid Python, contains no ghost code or specification, and behaves under CPython exactly like '
     'the original: same results, exceptions and effects on every input.',
     ['programs', 'inputs'],
     'Generated accepted ghost programs and the corpus, executed before and after extraction.',
     'Extraction tests compare a few files with expected text.',
     ['ghost/extraction.py', 'main.py'],
     [('extractor', 'ghost/extraction.py')], (), ['extracted files', 'CPython executions'])

prop('M01', 'Counterexamples show the values of the failing execution',
     'The counterexample attached to an error gives, for every shown input variable, field and list, the Python value that the backend\'s model assigns to it in '
     'the state shown, and the old and current store are not confused.',
     ['inputs'],
     'Models over integer, boolean, string, None, object, list, set and dict values with arbitrary aliasing.',
     'The tests have a handful of programs and need the real backend.',
     ['models/converter.py', 'models/extractor.py'],
     [('model evaluation', 'models/converter.py')], (), ['counterexample text of diagnostics'])

with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
