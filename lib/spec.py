"""The properties, in one place: writes properties.jsonl and MANIFEST.json (python3 lib/spec.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration", state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, state=state or []))


VM, HLP, CMP = "src/handlebars_vm.c", "src/handlebars_helpers.c", "src/handlebars_compiler.c"
MODEL = "the output of the real renderer (ASan+UBSan build) is compared with an independent reference evaluator"
MNOTE = ("Generated templates x data, every output byte and every error compared with a reference model written from the handlebars.js "
         "semantics; trusts the model and the generator's coverage (counted in the evidence).")

prop("R01", "Everything interpolated is escaped exactly once, unless asked not to be",
     "Text inserted by a double-stash expression has each of & < > \" ' ` replaced by &amp; &lt; &gt; &quot; &#x27; &#x60; exactly once and every other byte kept, whatever the value's origin (data, helper result, nested array element, partial or block body). "
     "Triple-stash, the & form, the no-escape option and values a helper marked as safe are inserted unchanged, and marking one value as safe never leaves another value unescaped. "
     "Literal template text is never escaped.",
     ["inputs", "programs"], "all values (types, nesting, safe marks) in all escaping positions of all templates",
     "Tests escape a handful of strings; a hole appears only for a particular combination of value type, safe marking, position and option.",
     [VM, "src/handlebars_value.c", "src/handlebars_string.c", CMP],
     [("escape on append", "handlebars_value_expression_append"), ("html escaping", "handlebars_string_htmlspecialchars_append"), ("escaped opcode choice", "handlebars_compiler_accept_mustache")],
     ["rendered output"], "reference-model output oracle under ASan/UBSan", MNOTE)

prop("R02", "Paths, scopes, private data and block params resolve to the value they name",
     "A path evaluates to the value found by walking its segments through nested objects and (by decimal position) arrays from the current context, from the n-th enclosing context for n leading ../, from a block parameter in lexical scope (which shadows context fields), or from @-data such as @index, @key, @first, @last, @root and @../index. "
     "A path that leads nowhere evaluates to nothing, and no lookup ever yields another path's value. "
     "A context change by a block is undone when the block ends.",
     ["programs", "inputs"], "all paths (segments, literals, ../, this, @data, block params) in all nestings of blocks over all data shapes",
     "Tests sample fixed nestings; wrong resolution shows only for specific nesting depths, shadowing, missing segments or equal contexts.",
     [VM, CMP, HLP],
     [("context stack", "handlebars_vm_execute_program_ex"), ("context lookup", "accept_lookup_on_context"), ("data lookup", "accept_lookup_data"), ("block param lookup", "accept_lookup_block_param"), ("path classification", "handlebars_compiler_accept_path")],
     ["rendered output", "values passed to probe helpers"], "reference-model output oracle under ASan/UBSan", MNOTE)

prop("R03", "if, unless, each, with, lookup, log and sections follow the language",
     "if/unless choose their body by truthiness (false: null, false, 0 unless includeZero is given, empty string, empty list or object), each iterates every element of a list or object once and in order with the right @index, @key, @first and @last and runs else when there are none, with runs its body in the given context and its else part in the current one when the given is empty, and lookup returns the named member or nothing. "
     "A plain section {{#x}} renders its body once for true or an object, once per element for a list and its inverse for a falsy or empty value; {{^x}} is the complement. "
     "Block helpers used with missing arguments give an error, never a crash.",
     ["programs", "inputs"], "all built-in blocks, sections, else chains and inverses over all data",
     "Tests cover the specification's examples; the behaviour for unusual values, chains and nesting is unbounded.",
     [HLP, VM, CMP],
     [("built-in helpers", "handlebars_builtin_each / _if / _with / _lookup"), ("section dispatch", "handlebars_builtin_block_helper_missing, accept_ambiguous_block_value")],
     ["rendered output"], "reference-model output oracle under ASan/UBSan", MNOTE)

prop("R04", "Helpers are called with exactly the arguments, hash and scope that were written",
     "A helper, registered, built-in or found as a callable value in the data, receives the values of its positional arguments in written order, its hash arguments by name, the current context, the name it was called by, the current @-data and its block bodies, and its result is used where the call stands, including as an argument of another call. "
     "A name is resolved as block parameter, then helper, then context field; calling an unknown helper with arguments is an error that names it, unless a helperMissing is registered, which is then called instead. "
     "Each written call is executed once each time its place is reached.",
     ["programs", "inputs"], "all call shapes: arities, literal kinds, hash, nested subexpressions, blocks, name clashes",
     "Tests use a few fixed calls; argument order, hash and dispatch faults depend on arity, nesting and name clashes.",
     [VM, CMP, HLP],
     [("argument setup", "handlebars_vm_setup_options"), ("dispatch", "accept_invoke_helper / _known_helper / _ambiguous"), ("classification", "handlebars_compiler_classify_sexpr")],
     ["log of every probe helper call", "rendered output"], "recorded helper-call trace checked against a reference model, under sanitizers", MNOTE)

prop("R05", "Whitespace control and standalone lines remove exactly what they should",
     "A block, inverse, comment or partial tag alone on its line removes that line's indentation and line ending and nothing else, ~ removes all whitespace up to the next tag or text on its side, and no other byte of literal text is changed, added or reordered. "
     "This holds at every nesting, at the start and end of the template, for \\n and \\r\\n, and standalone removal is off when the option says so.",
     ["programs", "inputs"], "all placements of tags, line endings, blanks and ~ markers in all nestings",
     "Tests cover single placements; interactions of neighbouring standalone tags, ~, else chains and file boundaries are combinatorial.",
     ["src/handlebars_whitespace.c", "src/handlebars_ast_helpers.c", "src/handlebars.y", "src/handlebars.l"],
     [("whitespace pass", "handlebars_whitespace_accept"), ("strip flags", "handlebars_ast_helper_prepare_block")],
     ["rendered output"], "reference-model output oracle under ASan/UBSan", MNOTE)

prop("R06", "Partials render with the right context, hash, indentation and errors",
     "A partial, static or dynamic, renders as its template evaluated in the given context (default: the current one) with the hash arguments added, and every line of a standalone partial is indented by the tag's indentation. "
     "Including a partial changes nothing for what follows it, the same partial used twice with different contexts is evaluated independently, and a partial that does not exist is an error naming it (nothing, in mustache compatibility mode). "
     "An error inside a partial is the error of the whole rendering.",
     ["programs", "inputs"], "all partial graphs, contexts, hashes, indentations, recursion over data",
     "Tests render a few partials; state leaks and wrong merging need particular combinations of nesting, hash and reuse.",
     [VM, "src/handlebars_string.c", "src/handlebars_partial_loader.c"],
     [("partial invocation", "accept_invoke_partial"), ("template in template", "execute_template"), ("hash merge", "merge_hash"), ("indentation", "handlebars_string_indent_append")],
     ["rendered output"], "reference-model output oracle under ASan/UBSan", MNOTE)

prop("R07", "Partial blocks render in their defining place's scope",
     "{{> @partial-block}} inside a partial renders the block given at the innermost enclosing call of that partial, with that block's own block parameters and with the partial block that was current where it was written, any number of times and from any nesting. "
     "If the partial does not exist the block itself is rendered as the fallback. "
     "Outside of a partial block, @partial-block is nothing and including it is an error.",
     ["programs"], "all nestings of partial blocks in partials, blocks and partial blocks",
     "Tests cover a few nestings; wrong scoping appears for deeper nestings, block params and repetition.",
     [VM, CMP],
     [("partial block closure", "invoke_partial_block_closure"), ("partial block stack", "accept_invoke_partial")],
     ["rendered output"], "reference-model output oracle under ASan/UBSan", MNOTE)

prop("R08", "Mustache compatibility: parent lookup, delimiters, lambdas, missing partials",
     "In compatibility mode a name missing from the current context is looked up in each enclosing context from the inside out, and only there. "
     "A delimiter change applies to exactly the tags that follow it in the same template (not to the partials it includes), with any delimiters, and a malformed change is an error. "
     "With mustache-style lambdas a section's lambda receives the section's unrendered text, and the text it returns is rendered in place with the current delimiters.",
     ["programs", "inputs", "configurations"], "all templates and delimiter sequences in compatibility mode, all contexts",
     "The mustache specification's tests fix a few delimiters and nestings.",
     ["src/handlebars_delimiters.c", VM, CMP],
     [("delimiter preprocessing", "handlebars_preprocess_delimiters"), ("depthed lookup", "depthed_lookup"), ("lambda closure", "invoke_mustache_style_lambda_closure")],
     ["rendered output"], "reference-model output oracle under ASan/UBSan", MNOTE)

prop("R09", "Literal text and literals reach the output byte for byte",
     "Text outside of tags, escaped mustaches (\\{{), escaped backslashes, raw blocks, string literals in either quote style with escaped quotes, and bracketed path segments are reproduced byte for byte, whatever bytes they contain other than NUL. "
     "Comments of either style produce nothing. "
     "Number, boolean, null and undefined literals have exactly the value written.",
     ["inputs"], "all byte strings in literal positions, all literals",
     "Tokenizer tests use short ASCII samples.",
     ["src/handlebars.l", "src/handlebars.y", "src/handlebars_ast_helpers.c", CMP],
     [("lexer", "handlebars_lex"), ("literal stripping", "handlebars_ast_helper_strip_id_literal, handlebars_string_truncate")],
     ["rendered output", "values passed to probe helpers"], "expected-output oracle from construction, under ASan/UBSan", MNOTE)

prop("R10", "Malformed templates are refused with the right location, well-formed ones never",
     "A template that violates the grammar (unbalanced or mismatched blocks, unterminated tags, stray closings, misplaced else, bad paths) is refused with a parse error that carries a message and a line and column inside the template at the offending token, and nothing is rendered. "
     "A well-formed template is never refused, and refusing one template does not affect the next.",
     ["inputs", "programs"], "all templates, well-formed and mutated",
     "Tests list a few malformed templates.",
     ["src/handlebars.y", "src/handlebars.l", "src/handlebars_ast_helpers.c", "src/handlebars_parser.c"],
     [("grammar", "handlebars_yy_parse"), ("block name check", "handlebars_ast_helper_check_block"), ("error reporting", "handlebars_yy_error")],
     ["error number, message and location"], "oracle from construction (grammar-aware mutation), under ASan/UBSan", MNOTE)

prop("R11", "Every compile option changes what it names and nothing else",
     "No-escape, known-helpers-only, prevent-indent, explicit-partial-context, ignore-standalone, strict, assume-objects, compatibility and mustache-style lambdas each have their documented effect on every template, separately and in combination, and leave all other behaviour unchanged. "
     "In strict mode every reference to a missing field is an error naming it, and only those. "
     "Options apply equally to partials and nested blocks.",
     ["configurations", "programs"], "all combinations of the options over generated templates",
     "Tests switch one option on for single templates.",
     [CMP, VM, "src/handlebars_whitespace.c", "src/handlebars_parser.c"],
     [("compile flags", "handlebars_compiler_set_flags"), ("runtime flags", "handlebars_vm_set_flags")],
     ["rendered output", "error messages"], "reference-model output oracle over option combinations, under sanitizers", MNOTE)

prop("R12", "Templates compile to the instructions of the language, in every mode",
     "The instructions (operation, operands, order, nested programs) a template compiles to are those the Handlebars compiler gives for it: how a tag is classified (helper call, plain lookup or ambiguous), which scope depth, block parameter, data or context lookup a path becomes, the order arguments, hash pairs and nested programs are pushed in, the form of literals, partial names and indentation, decorators in their own place, escaped or plain output. "
     "With string parameters every argument is passed as its text and type (without leading ./ and ../, with / written as .), with id tracking every argument is preceded by the id it was written as (without a leading this. or ./) or its block parameter, and other options change only what they name. Each instruction, and each error of the compiler, carries the lines and columns of the part of the template it comes from.",
     ["programs", "configurations"], "all templates (tags, paths, literals, nesting, block params, decorators) with all compile options",
     "The compiler specification tests are not part of this tree, string-parameter and id-tracking programs cannot be rendered, and a wrong operand shows only for particular paths, literals, nestings or options.",
     [CMP, "src/handlebars_ast.c", "src/handlebars_ast_helpers.c", "src/handlebars_opcode_printer.c"],
     [("classification", "handlebars_compiler_classify_sexpr"), ("arguments", "handlebars_compiler_push_param"), ("paths", "handlebars_compiler_accept_path"), ("block params", "handlebars_compiler_block_param_index")],
     ["instructions of the compiled program"], "instruction-by-instruction oracle from a reference compiler, under ASan/UBSan",
     "Generated templates x compile options; every instruction and operand the real compiler emitted is compared with an independent compiler of the same tree. Trusts the opcode printer, which L02 compares with the compiled module.")

prop("S01", "No template, data, option set or serialized input is memory-unsafe",
     "Lexing, parsing, compiling, printing and rendering any byte string as a template, as a partial or as JSON or YAML data, with any options, completes with output or with an error, without any out-of-bounds or uninitialised access, use after free, arithmetic overflow or invalid cast, abort or endless loop.",
     ["inputs", "configurations"], "all byte strings as templates, partials and data with all options",
     "Tests run well-formed inputs, and without sanitizers.",
     ["src/handlebars.l", "src/handlebars.y", VM, CMP, "src/handlebars_json.c", "src/handlebars_yaml.c", "src/handlebars_string.c"],
     [("bounds checks and errors", "throughout"), ("jump on error", "handlebars_throw")],
     ["sanitizer reports", "process exit", "time limit"], "ASan+UBSan monitored grammar-aware fuzzing, valgrind spot checks",
     "Exploration by generated, mutated and fuzzed inputs; sanitizers are the oracle. NUL bytes inside templates end lexing and are included.")

prop("S02", "Running out of memory at any point gives a clean out-of-memory error",
     "If any single memory allocation fails while parsing, compiling, serializing, loading data or rendering, the operation either still completes with the same output or reports the out-of-memory error with a message, without a crash or memory error. "
     "Nothing is left in a state that makes freeing the context afterwards unsafe.",
     ["fault_sequences"], "every allocation point of every operation on a corpus of templates",
     "The existing test fails random allocations in one scenario.",
     ["src/handlebars_memory.c", "src/handlebars_memory.h", VM, CMP, "src/handlebars_value.c", "src/handlebars_map.c", "src/handlebars_stack.c", "src/handlebars_string.c"],
     [("allocation checks", "HANDLEBARS_MEMCHECK / MC"), ("fault injection", "handlebars_memory_fail_counter")],
     ["error number and message", "sanitizer reports"], "exhaustive single-fault injection at every allocation under ASan/UBSan",
     "Each allocation point of each scenario is failed once (all points up to a bound, then strided); multiple faults are not combined.", level="fault_enumeration")

prop("S03", "A failed operation is contained: the objects it used stay usable",
     "Any error (syntax, compile, missing helper or partial, an error thrown by a helper, strict-mode) is delivered to the caller once with its number, message and location, through the caller's handler if one is set and by return value otherwise. "
     "Afterwards the same context, VM, parser, compiler, cache, partials and data give, for every later operation, the results a fresh set of objects gives.",
     ["histories", "fault_sequences"], "all sequences of succeeding and failing operations on shared objects",
     "Tests create fresh objects for each case.",
     [VM, "src/handlebars.c", "src/handlebars_parser.c", CMP],
     [("jump buffers", "handlebars_setjmp_ex / handlebars_throw"), ("state restore", "handlebars_vm_execute_ex")],
     ["outputs and errors of every step compared with a fresh replay"], "differential history monitor (reused objects vs. fresh replay) under ASan/UBSan",
     "Random operation histories; each step is compared with the same step on fresh objects.")

prop("S04", "Rendering is a pure function: repeatable, and it changes none of its inputs",
     "Rendering the same template with the same data, partials, helpers and options gives the same bytes every time, on the same VM or a new one, regardless of what was rendered before or in between. "
     "Rendering never modifies the data, the partials, the helpers or the compiled template, whatever the template does.",
     ["histories", "programs"], "all templates and data, all interleavings of renderings",
     "Tests render once with fresh objects and do not look at the inputs afterwards.",
     [VM, HLP, "src/handlebars_map.c", "src/handlebars_stack.c", "src/handlebars_value.c"],
     [("copy on write", "handlebars_map_update, handlebars_stack_push"), ("frames copied per call", "handlebars_builtin_each")],
     ["output bytes", "deep dump of the inputs before and after", "bytes and hash of the compiled module"], "before/after state monitor and repeat-run comparison under ASan/UBSan",
     "Generated templates and data, run repeatedly and interleaved; inputs dumped before and after.")

prop("S05", "No memory is lost or kept growing",
     "After a context is destroyed no memory obtained through it remains, whether its operations succeeded or failed. "
     "Rendering the same template again and again on one VM does not grow memory beyond what the returned output occupies.",
     ["histories", "programs"], "all templates, data, errors; any number of repetitions",
     "Tests are not run under a leak checker and never repeat.",
     [VM, "src/handlebars_memory.c", "src/handlebars_value.c", "src/handlebars_string.c"],
     [("context ownership", "handlebars_context_dtor"), ("reference counts", "handlebars_rc_delref")],
     ["LeakSanitizer at exit", "allocator block counts after each rendering"], "LeakSanitizer plus block-count monitor over repeated runs",
     "Generated workloads; growth judged over many repetitions.")

prop("S06", "Nesting is limited by clean errors, not by crashes",
     "However deeply blocks, else chains, subexpressions, paths, parameters, partials (including ones that include themselves) or data are nested, the result is either the correct output or an error saying that a limit was exceeded, never a crash. "
     "Anything nested less deeply than the limits works, right up to the limits.",
     ["programs", "inputs"], "all nesting kinds and depths, and combinations",
     "Tests nest a few levels.",
     [CMP, VM, "src/handlebars_stack.c", "src/handlebars.y"],
     [("compiler stacks", "handlebars_compiler.c"), ("VM stacks", "HANDLEBARS_VM_STACK_SIZE"), ("partial depth", "HANDLEBARS_VM_MAX_DEPTH")],
     ["output or error", "sanitizer reports"], "depth sweeps with expected output, under ASan/UBSan",
     "Each nesting kind swept over depths around and far above every limit.")

prop("S07", "A rendering leaves nothing behind",
     "When a template was parsed, compiled and rendered successfully and what it made was released (result, module, parser, compiler, VM, data), the context holds exactly the memory it held before. "
     "Executing a module again on the same VM takes no more memory than its result, however often it is repeated and whatever helpers, partials, data and options were used, so a long-lived context or VM does not grow with use.",
     ["inputs", "histories"], "all templates, data, helpers, partials and options; any number of repetitions",
     "Tests destroy the context after one rendering, which hides whatever was left in it.",
     ["src/handlebars_vm.c", "src/handlebars_helpers.c", "src/handlebars_value.c", "src/handlebars_string.c", "src/handlebars_map.c", "src/handlebars_json.c", "src/handlebars_yaml.c"],
     [("releasing values", "handlebars_value_dtor"), ("helper calls", "setup_options / VM_TEARDOWN_OPTIONS"), ("VM", "handlebars_vm_dtor"), ("partials", "execute_template")],
     ["number of blocks allocated under the context, before and after"], "allocation accounting monitor (talloc block counts) over repeated runs of the real code, under ASan/UBSan",
     "Each generated rendering is done three times in one context, executed 1 to 3 times on one VM; the growth is compared with that of the template \"x\".")

prop("M01", "A compiled template survives being moved, copied, stored and checked",
     "A compiled template produces the same output after it has been copied to any other address and fixed up there, as often as wanted, and when loaded into another process. "
     "Its checksum accepts exactly the unmodified bytes: any byte changed in the checksum or in what follows it, and any wrong version, is detected. "
     "The compiled form of a template is the same every time it is compiled with the same options.",
     ["programs", "fault_sequences"], "all templates; all relocations; all single-byte corruptions",
     "Tests serialize one or two templates and never corrupt them.",
     ["src/handlebars_opcode_serializer.c", "src/handlebars_opcodes.c"],
     [("serialization", "handlebars_program_serialize"), ("relocation", "handlebars_module_normalize_pointers / _patch_pointers"), ("checksum", "handlebars_module_generate_hash / _verify")],
     ["rendered output", "module bytes", "verify result"], "relocation and corruption injection with output comparison under ASan/UBSan",
     "Generated templates; every module is moved, corrupted at many positions and compared.")

prop("C01", "A template cache never changes what is rendered",
     "Rendering with a cache of any kind (in-memory, shared memory, database file), cold, warm, full, expiring, collected or reset at any moment, gives exactly the output and errors of rendering without one. "
     "This includes partials used with different delimiters, indentation and options, templates that differ only slightly or collide in the hash, and caches that outlive or are shared between VMs.",
     ["histories", "programs", "configurations"], "all sequences of renderings and cache operations, all cache kinds and limits",
     "Tests add and find a handful of entries.",
     ["src/handlebars_cache.c", "src/handlebars_cache_simple.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_lmdb.c", VM],
     [("cached execution", "execute_template"), ("lookup and insert", "handlebars_cache_find / _add / _release")],
     ["rendered output and errors with and without cache"], "differential monitor (cached vs. uncached) over operation histories under ASan/UBSan",
     "Random histories per cache kind; each rendering is compared with an uncached rendering.")

prop("C02", "Cache limits, expiry, collection, reset and statistics are honoured",
     "After collection the in-memory cache holds no more entries or bytes than configured, oldest entries going first, and neither it nor a database file holds entries older than the maximum age; the shared-memory cache never exceeds its fixed size, emptying itself when full and not in use. "
     "No cache ever returns an entry older than the maximum age (since its last use in memory, since it was compiled otherwise) or of another version, and an entry that was stored is found, under exactly its key, until it is removed, replaced or too old. "
     "Reset empties the cache, releasing a found entry makes it removable again, and an entry in use is never freed. "
     "The statistics equal what really happened: hits, misses, entries and sizes.",
     ["histories", "configurations"], "all sequences of add, find, release, collect, reset with all limits",
     "Tests exercise a fixed sequence with one configuration.",
     ["src/handlebars_cache.c", "src/handlebars_cache_simple.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_lmdb.c"],
     [("collection", "cache_gc"), ("statistics", "cache_stat"), ("age check", "cache_find")],
     ["results of every operation", "statistics"], "online conformance monitor against a reference cache model, under ASan/UBSan",
     "Random operation sequences; the model tracks entries, ages and counters.")

prop("C03", "Caches shared between processes or threads stay consistent",
     "When several processes (sharing a shared-memory cache, or opening the same database file) or threads (sharing a shared-memory cache) add, find, render from, collect and reset a shared cache at the same time, every find returns either nothing or the complete, correct entry for exactly the key asked for, which stays valid until it is released. "
     "There is no data race, no crash, no deadlock, and no reference is lost: once all users are idle the number of references is zero and the cache works. A process that is killed while it uses a database file leaves it working for all others.",
     ["schedules", "histories", "crash points"], "all interleavings of operations by concurrent users, all points at which a process may be killed",
     "Tests have no concurrency.",
     ["src/handlebars_cache_mmap.c", "src/handlebars_cache_lmdb.c"],
     [("reference count", "cache_find / cache_release"), ("spin lock", "lock / unlock"), ("reset handshake", "cache_reset")],
     ["ThreadSanitizer", "content checks of every hit", "final reference count"], "TSan + multi-process stress with content and refcount monitors, injected delays",
     "Stress schedules, not enumeration; TSan sees races in the interleavings that ran.")

prop("T01", "Independent contexts can be used by different threads at the same time",
     "Threads that each use their own context, parser, compiler, VM and data never interfere: every one gets the results it would get alone, and no memory is shared between them without synchronisation.",
     ["schedules"], "all interleavings of threads working on separate contexts",
     "Tests are single-threaded.",
     ["src/handlebars.c", "src/handlebars_memory.c", VM, "src/handlebars.l", "src/handlebars.y"],
     [("per-context state", "handlebars_context_ctor"), ("reentrant scanner and parser", "handlebars.l / handlebars.y options")],
     ["ThreadSanitizer", "outputs compared with single-threaded outputs"], "ThreadSanitizer race detection on concurrent renderings",
     "Stress schedules; TSan reports races on the accesses that ran.")

prop("D01", "Maps behave as insertion-ordered dictionaries",
     "After any sequence of insertions, updates, removals, lookups, sorting, copying, growth and iteration, a map contains exactly the entries last written and not removed, under their own keys, iterates them once each in insertion order (or in the order sorted), and counts them correctly. "
     "Keys that collide in the hash or contain any bytes stay distinct, changing a shared map never changes the other holders' view, and an entry stays reachable during iteration and nested iteration. A map that is changed while it is walked over shows every entry that is still there when its turn comes exactly once; a new key is either taken or refused with an error, never lost.",
     ["histories", "inputs"], "all operation sequences over all keys, sizes and sharing",
     "Tests run short fixed sequences.",
     ["src/handlebars_map.c", "src/handlebars_map.h"],
     [("hash table", "handlebars_map_find"), ("tombstones and compaction", "handlebars_map_remove"), ("copy on write", "handlebars_map_copy_ctor")],
     ["results of every operation", "full dump after each operation"], "online conformance monitor against an ordered-dict model, under ASan/UBSan and assertions",
     "Random operation sequences with colliding keys; the model is checked after every operation.",
     state=[{"name": "hash table and entry vector", "meaning": "entries and their slots, with tombstones for removed ones", "where": "src/handlebars_map.c"}])

prop("D02", "String operations are exact for all byte strings",
     "Creating, copying, appending, formatting, comparing, hashing, searching and replacing, reducing, trimming, truncating, indenting, joining, escaping and unescaping strings give exactly the bytes and lengths defined for them, for every content including NUL bytes and empty strings, overlapping and self-referring operands. "
     "A change to a string that is shared never changes what the other holders see, and equal strings always compare and hash equal, different ones never compare equal.",
     ["inputs", "histories"], "all operand strings and sharing patterns of each operation",
     "Tests use a few short ASCII strings, never shared ones.",
     ["src/handlebars_string.c", "src/handlebars_string.h"],
     [("copy on write", "handlebars_string_extend / separate"), ("hash cache", "hbs_str_hash")],
     ["result bytes", "other holders' bytes"], "result comparison with reference implementations, under ASan/UBSan",
     "Random operands and sharing; every operation's result compared with a Python reference.")

prop("D03", "Lists and values behave as independent values",
     "After any sequence of pushes, pops, writes, reads, growth, sharing and copying, a list holds exactly the elements last written, in order, and a value reads back exactly what was stored in it, its type, truthiness and printed form included. "
     "Assigning or copying a value, even from a part of itself, gives an independent value: a later change through one holder is never visible through another, and protected parts of a stack cannot be removed.",
     ["histories", "inputs"], "all operation sequences over all value types and sharing",
     "Tests run short fixed sequences.",
     ["src/handlebars_stack.c", "src/handlebars_value.c"],
     [("copy on write", "handlebars_stack_push / handlebars_stack_set"), ("value assignment", "handlebars_value_value"), ("protected segment", "handlebars_stack_save / _restore")],
     ["results of every operation", "deep dumps of all holders"], "online conformance monitor against a list/value model, under ASan/UBSan and assertions",
     "Random operation sequences; all holders compared with the model.")

prop("D04", "User-defined values, pointers and closures live as long as they are referred to",
     "A user-defined value, a pointer object or a closure is destroyed exactly once, by the very operation that drops the last reference to it, and never while a value, list, map or closure still contains it. "
     "This holds through assignment, copying, writes into shared lists and maps, removal, lookups, iteration, conversion, calls and whole renderings, whose contexts, helpers, data, block parameters and partials pass the values around and give every reference back. "
     "A user-defined value reads, converts (to every depth asked for) and renders like what it holds, and a helper may keep the values it is given.",
     ["histories", "inputs"], "all operation sequences over all kinds of shared objects, and all templates that pass them around",
     "Tests create single objects and never observe when they go.",
     ["src/handlebars_value.c", "src/handlebars_ptr.c", "src/handlebars_closure.c", "src/handlebars_value_handlers.c", "src/handlebars_vm.c", "src/handlebars_helpers.c"],
     [("reference counts", "handlebars_value_value / handlebars_value_dtor"), ("closures", "handlebars_closure_ctor"), ("user-defined values", "handlebars_user_init, handlebars_value_handlers"), ("calls", "handlebars_value_call")],
     ["destructions recorded by the objects themselves, after every operation", "results of every operation", "rendered text"], "online monitor of destruction events against a reachability model, under ASan/UBSan and assertions",
     "Random scripts over eight holders; after each operation the objects destroyed by it are compared with those the model says nothing refers to any more; rendering with user-defined values compared with plain ones.")

prop("I01", "JSON, YAML and native data render alike and convert without loss",
     "The same document given as JSON, as YAML or built from native values renders the same output with every template, and data used lazily renders the same as data converted up front. "
     "Strings, integers, floating-point numbers, booleans, null, lists and objects keep their type, order and content, whichever of the notation's forms they are written in. "
     "Malformed documents are refused with an error.",
     ["inputs", "programs"], "all documents, all templates, all representations",
     "Tests load one small document per format.",
     ["src/handlebars_json.c", "src/handlebars_yaml.c", "src/handlebars_value.c"],
     [("JSON-backed values", "handlebars_value_init_json_object"), ("YAML loading", "handlebars_value_init_yaml_node"), ("conversion", "handlebars_value_convert_ex")],
     ["rendered output", "value dumps"], "differential monitor across representations, under ASan/UBSan",
     "Generated documents and templates; all representations compared with the model and each other.")

prop("I02", "Partials loaded from a directory are exactly the files named",
     "With a partial directory and an extension configured, a partial's template is the full content of the file of that name, each file's partial is found under its own name only, repeated use gives the same result, and a partial whose file does not exist is treated as missing. "
     "File contents of any size and bytes are used unchanged (an empty file is an error).",
     ["inputs", "configurations"], "all file names, sizes and contents, all orders of use",
     "Tests load one or two small files.",
     ["src/handlebars_partial_loader.c"],
     [("file lookup", "hbs_partial_loader_map_find")],
     ["rendered output"], "expected-output oracle on a scratch directory, under ASan/UBSan",
     "Generated directories; outputs compared with the file contents.")

prop("L01", "The command line renders what the library renders",
     "The command-line tool, for every mode (lex, parse, compile, execute and their options), input file, data file (JSON or YAML), partial path and flag combination, prints what the library produces for the same input and exits with zero, or reports the library's error on stderr and exits non-zero. "
     "Unreadable files, empty files, wrong usage and output that cannot be written give an error, never a crash, and nothing but the result is written to standard output.",
     ["inputs", "configurations"], "all option combinations, templates and data files",
     "Tests run a few command lines.",
     ["bin/handlebarsc.c"],
     [("option parsing", "readOpts"), ("execution", "do_execute"), ("file reading", "file_get_contents")],
     ["stdout, stderr, exit status"], "differential monitor (tool vs. library) under ASan/UBSan",
     "Generated command lines in a scratch directory.")

prop("L02", "Printing a template's parse tree and opcodes is faithful",
     "Writing a parsed template back as source and parsing it again gives an equivalent template: the same output for all data. "
     "The textual forms of the tokens, the parse tree, the opcodes and the compiled module show every element of the template, in order, and never depend on anything but the template and the options.",
     ["programs"], "all templates",
     "Tests compare a few printed trees.",
     ["src/handlebars_ast_printer.c", "src/handlebars_opcode_printer.c", "src/handlebars_module_printer.c", "src/handlebars_token.c"],
     [("source writer", "handlebars_ast_to_string"), ("printers", "handlebars_ast_print, handlebars_program_print")],
     ["printed text", "outputs of the reparsed template"], "round-trip monitor under ASan/UBSan",
     "Generated templates; re-parsed source rendered and compared.")


def write(claimed):
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "state": p["state"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"],
                     "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] in claimed],
         "not_applicable": [{"property": p["id"], "reason": "no check yet; within reach of this technique"} for p in P if p["id"] not in claimed],
         "notes": "Runtime monitoring and sanitizers. No hooks in /repo. DESIGN.md describes every check; known_findings.txt lists what was found."}
    with open(V + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")


if __name__ == "__main__":
    sys.path.insert(0, V + "/lib"); sys.path.insert(0, V + "/checks")
    import tables
    write(set(tables.TABLE))
    print(len(P), "properties", len(tables.TABLE), "checks")
