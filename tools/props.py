HOOKS = {"guard": "none", "enable": "no source hooks are used; harness crates depend on /repo's crates by path", "source_commits": []}
NOTES = "Every check builds a harness crate under h/ against /repo's working tree and runs self-written monitors over it. known-findings.json lists what fails on the unchanged tree."

prop("C01", "Replicated values converge whatever the delivery order",
     "For every replicated value type (grow-only and up/down counters, last-writer and multi-value registers, observed-remove set and map, RGA and YATA sequences), replicas that have received the same set of updates show the same value, however states were ordered, duplicated, delayed, grouped or re-merged on the way. Merging is commutative, associative and idempotent on every reachable state, merging an already-seen state changes nothing, and a state survives serialization unchanged. (Last-writer registers: for writes with distinct timestamps; remove-wins sets: for two replicas that edit and then exchange states.)",
     ["histories", "schedules"], "every interleaving of local edits, snapshots, late, duplicated and reordered deliveries over 2-5 replicas",
     "Existing tests merge two or three hand-written states in one or two orders; convergence is a statement over all histories and delivery orders.",
     ["crates/logicaffeine_data/src/crdt"], [("Merge impls", "crates/logicaffeine_data/src/crdt/*.rs"), ("causal dot contexts", "crates/logicaffeine_data/src/crdt/causal")],
     ["values read from each replica after each delivery"],
     technique="cluster simulation with an online convergence monitor and merge-law checks",
     note="Random histories of up to 50 steps on 2-5 replicas per type; every step compares replicas with equal causal histories. Assumes replica ids are distinct.")
prop("C02", "Replicated values mean what their operations say",
     "After any history a replica's value is exactly what the updates it has seen imply: counters equal the sum of increments minus decrements, a last-writer register holds the write with the highest timestamp, a multi-value register holds exactly the writes not overwritten by a write that saw them, add-wins sets and maps contain an element iff some add of it was not seen by a remove, map entries carry every update made under their key. Sequences contain exactly the inserted and not removed elements, a local insert or remove at a position acts like the same list edit on that replica's view, and two elements never swap relative order.",
     ["histories", "schedules"], "every history of edits and merges over 2-5 replicas, judged after every step",
     "Existing tests pin a few conflict examples; which elements survive an arbitrary history of concurrent edits is not enumerable by examples.",
     ["crates/logicaffeine_data/src/crdt"], [("dots and vector clocks", "crates/logicaffeine_data/src/crdt/causal"), ("bias resolution", "crates/logicaffeine_data/src/crdt/orset.rs"), ("sequence ordering", "crates/logicaffeine_data/src/crdt/sequence")],
     ["values read from each replica after each step"],
     technique="cluster simulation judged online by a causal-history reference model",
     note="The model keeps, per replica, the set of unique operation ids seen and recomputes the expected value from scratch after each step.")
prop("C03", "Delta synchronisation loses nothing a full merge would carry",
     "For update histories without removals, applying the delta another replica computes against this replica's version gives the same value as merging that replica's whole state, also when deltas are serialized, applied twice, or applied late. A replica that answers 'no delta needed' really has nothing the asker lacks. A bounded delta buffer asked by a peer either returns everything the peer lacks or refuses so that a full transfer follows.",
     ["histories", "schedules"], "every history of edits and delta exchanges over 2-5 replicas, every buffer capacity and peer version",
     "Existing tests apply one delta to one peer; missing updates appear only for particular combinations of versions, evictions and concurrent edits.",
     ["crates/logicaffeine_data/src/crdt/delta.rs", "crates/logicaffeine_data/src/crdt/delta_buffer.rs"], [("delta_since/apply_delta", "crates/logicaffeine_data/src/crdt/*.rs"), ("DeltaBuffer::deltas_since", "crates/logicaffeine_data/src/crdt/delta_buffer.rs")],
     ["values after applying deltas vs after full merge; served delta lists"],
     technique="delta-vs-full-merge differential monitor plus causal-history model",
     note="Removals are excluded: deltas are documented not to carry tombstones. Random histories of up to 60 steps.")
prop("C04", "A task schedule is reproducible from its seed and its trace",
     "Running the same task program with the same seed and policy gives the same outputs, outcome, virtual clock and scheduling trace, whether it runs in one go or in slices. Replaying a recorded trace reproduces the run exactly, and a trace that does not fit the program is reported rather than silently diverging. Running on any number of worker threads gives the results of one worker.",
     ["schedules", "programs", "configurations"], "every task program, seed, policy, slice size, trace corruption and worker count",
     "Existing tests replay a handful of two-task programs; nondeterminism hides in particular interleavings of select, timers, aborts and channel wake-ups.",
     ["crates/logicaffeine_runtime/src"], [("Scheduler", "crates/logicaffeine_runtime/src/scheduler.rs"), ("work-stealing driver", "crates/logicaffeine_runtime/src")],
     ["trace, outcome, task results and clock returned by the scheduler"],
     technique="run/replay differential monitor over seeded schedules and worker counts",
     note="2-7 tasks, 1-3 channels, up to a few hundred decisions per run; two seeds that give different schedules are required for the run to count.")
prop("C05", "Channels, select, timers and tasks deliver exactly once and in order",
     "Every value sent on a channel is received at most once, in the order sent, and never invented; capacity limits and rendezvous are respected; a select completes exactly one ready arm and leaves the others untouched. Timers fire at their time and never early, closing a channel drains then ends it, aborting a task removes it everywhere, awaiting a task gives its result. A run ends only when done, deadlocked or out of steps, and 'deadlocked' is reported only when no task can proceed.",
     ["schedules", "programs", "histories"], "every interleaving of the tasks of a program under every policy and seed",
     "Existing tests fix a program and one or two seeds; a lost or duplicated message needs a specific interleaving of select registrations, closes and aborts.",
     ["crates/logicaffeine_runtime/src"], [("channels and select registrations", "crates/logicaffeine_runtime/src/scheduler.rs"), ("policies", "crates/logicaffeine_runtime/src")],
     ["every poll: what a task was resumed with and what it asked for"],
     technique="online log of every poll judged offline by an independent channel/timer/task model",
     note="Messages carry unique numbers. 500k random programs per quick run; the model also checks ready-queue order for each policy.")
prop("C06", "Acknowledged journal updates survive crashes, torn writes and I/O errors",
     "After an update to a persistent value is acknowledged, reopening the journal shows it, whatever operation the process stopped at, however the last append was cut short, whichever file operation failed in between, and (once flushed) after power loss. Reopening shows exactly the acknowledged updates plus possibly the one in flight, never a half-applied or invented one. Damage to a stored entry is detected, keeps every entry before it, and never panics.",
     ["crash_points", "fault_sequences", "histories"], "every stop point, torn length, failed operation and power-loss state of every update/remove/compact/remount history",
     "Existing tests cover a clean restart and one torn tail; the guarantee quantifies over every crash point of every history.",
     ["crates/logicaffeine_system/src/storage.rs", "crates/logicaffeine_system/src/fs"], [("journal append/replay/compact", "crates/logicaffeine_system/src/storage"), ("atomic write", "crates/logicaffeine_system/src/fs")],
     ["the value read after a remount"],
     technique="fault-enumerating store under the real journal; syscall interposition builds power-loss states; remounts judged against acknowledged updates",
     note="Every store operation of each generated history is a crash point. Power loss is modelled on recorded write/rename/fsync calls (unflushed data may be lost, renames atomic).")
prop("C07", "Concurrent updates and compaction never lose an acknowledged update",
     "While several tasks update one persistent value, merge updates arriving from peers and compact the journal in any interleaving, an update acknowledged to any of them is present in memory and after any later restart. Automatic compaction at its threshold changes neither the value nor what a restart shows.",
     ["schedules", "crash_points", "histories"], "every interleaving of concurrent updaters, remote merges and compactions, each store operation a crash point",
     "Existing tests compact while nothing else runs; the lost-update window needs an update between two steps of a compaction.",
     ["crates/logicaffeine_system/src/storage.rs"], [("compaction under lock", "crates/logicaffeine_system/src/storage"), ("remote merge subscription", "crates/logicaffeine_system/src/storage")],
     ["values acknowledged, read in memory and after remount"],
     technique="seeded interleaving of real async tasks over an instrumented store with crash injection",
     note="Interleavings are chosen by the monitor at every store operation; up to 4 tasks and 40 operations.")
prop("C08", "Virtual file operations stay inside the base directory and are atomic",
     "No path handed to the virtual file system, however spelled, reads, writes, lists, renames or removes anything outside its base directory. Operations behave like a plain file system over equivalent spellings of a path. A whole-file write is seen by concurrent readers entirely or not at all, and a finished operation leaves no temporary files behind.",
     ["inputs", "schedules", "histories"], "every path string and operation history, and every interleaving of concurrent writers and readers",
     "Existing tests try a few dot-dot paths sequentially; escapes and torn reads need unusual spellings or a racing writer.",
     ["crates/logicaffeine_system/src/fs"], [("path resolution", "crates/logicaffeine_system/src/fs"), ("write via temp file and rename", "crates/logicaffeine_system/src/fs")],
     ["results of each operation, the directory tree outside the base, bytes seen by readers"],
     technique="model-based monitor plus bait files, run as an unprivileged user; stress with real threads",
     note="Symbolic links created by others inside the base are out of scope. The whole check runs as nobody with only scratch files.")
prop("C09", "Relayed and synchronised messages reach every subscriber once, unchanged",
     "A message published on a topic through the relay reaches every current subscriber of that topic exactly once, unchanged and in the publisher's order, and nobody else; unsubscribing stops it. Two spellings of one address name one topic and different addresses never share one. A shared value fed peers' states in any order, duplicated or mixed with junk ends as their merge, and a file cut into chunks is rebuilt byte for byte or refused when a chunk is wrong.",
     ["schedules", "histories", "inputs"], "every order of publications, subscriptions and deliveries, every address spelling, every chunk loss or alteration",
     "Existing tests send one or two messages between two clients; misdelivery shows only with several topics, clients and orders.",
     ["crates/logicaffeine_system/src/relay.rs", "crates/logicaffeine_system/src/addr.rs", "crates/logicaffeine_system/src/network"], [("relay routing", "crates/logicaffeine_system/src"), ("topic canonicalisation", "crates/logicaffeine_system/src/addr.rs"), ("file chunks", "crates/logicaffeine_system/src")],
     ["messages each client received, shared values, rebuilt files"],
     technique="live relay servers on loopback with uniquely numbered messages and a delivery monitor",
     note="Peer-to-peer mesh transport over the internet is not exercised; the relay and the shared-value and chunk layers are.")
prop("C10", "Cryptographic operations match their standards and refuse forgeries",
     "Hashes and extendable outputs, authenticated encryption, key encapsulation and signatures give byte for byte the results their public standards define, for every message length, key and piecewise split. A ciphertext, tag, encapsulation or signature changed in any bit never decrypts, agrees or verifies. The vectorised and scalar arithmetic underneath agree with plain modular arithmetic.",
     ["inputs"], "every key, nonce, message, length and single or multiple bit change",
     "Existing tests pin a few published vectors; errors at block boundaries, in carries or in rejection paths need inputs near those edges.",
     ["crates/logicaffeine_system/src/keccak.rs", "crates/logicaffeine_system/src/aead.rs", "crates/logicaffeine_system/src/mlkem.rs", "crates/logicaffeine_system/src/mldsa.rs", "crates/logicaffeine_system/src/ntt.rs"], [("keccak/aead/mlkem/mldsa/ntt kernels", "crates/logicaffeine_system/src")],
     ["bytes returned by each operation"],
     technique="differential monitor against independent implementations plus tamper workloads",
     note="Reference implementations are the registry's sha3, chacha20poly1305, ml-kem and ml-dsa crates; side channels are not observed.")
prop("C11", "A program does what the language says",
     "Running a program in the reference interpreter prints exactly the lines the language's rules prescribe and fails exactly when they prescribe a failure: exact integers of any size, truncating and flooring division, value semantics of collections, records and arguments, lexical scoping, closures capturing values, insertion-ordered maps and sets, positions from one, short-circuit logic. Different spellings of one construct mean the same.",
     ["programs", "inputs"], "every well-typed program over integers, floats, text, sequences, maps, sets, records, variants, functions and closures",
     "Existing tests pin the output of fixed programs; combinations of aliasing, scoping, overflow and control flow are unbounded.",
     ["crates/logicaffeine_compile/src/interpreter.rs", "crates/logicaffeine_compile/src/semantics", "crates/logicaffeine_language/src/parser"], [("tree-walking interpreter", "crates/logicaffeine_compile/src/interpreter.rs"), ("shared semantics kernels", "crates/logicaffeine_compile/src/semantics")],
     ["printed lines and error of a run"],
     technique="generated programs run on the real interpreter, judged line by line by an independent evaluator",
     note="Programs up to about 300k evaluation steps; features outside the generator (files, concurrency, dates, quantities) are covered by other properties.")
prop("C12", "The bytecode engine computes what the interpreter computes",
     "Every program prints the same lines and ends with the same result or failure whether it is run by the tree-walking interpreter or compiled to bytecode and run by the virtual machine. This holds for every construct, integer size, nesting of loops, calls and closures, and for programs that fail part way.",
     ["programs", "inputs"], "every program both engines accept",
     "Existing tests compare fixed programs; a wrong register, fused instruction or stale slot shows only for particular shapes and values.",
     ["crates/logicaffeine_compile/src/vm"], [("bytecode compiler", "crates/logicaffeine_compile/src/vm/compiler.rs"), ("virtual machine", "crates/logicaffeine_compile/src/vm/machine.rs")],
     ["printed lines and error of a run"],
     technique="generated, mutated and corpus programs run on both engines, outcomes compared and judged by an independent evaluator",
     note="Sequential programs; concurrent ones are covered by the scheduler properties. Text of an error is compared by kind, not wording.")

prop("C14", "Exact numbers are exact",
     "Integers of any size, fractions, decimals, modular and complex numbers compute exactly what mathematics says: sums, products, quotients with remainder, powers, rounding in every mode, comparison, and text in both directions. Values that are equal across number kinds compare equal and hash alike, and ordering against floating-point numbers is by true value. Operations without an answer, such as division by zero, say so.",
     ["inputs"], "all operand pairs, including ones at word boundaries and with carries and borrows across many words",
     "Existing tests use small operands and a few large ones; carry, normalisation and rounding errors need particular bit patterns.",
     ["crates/logicaffeine_base/src/numeric.rs"], [("BigInt/Rational/Decimal/Complex/Modular", "crates/logicaffeine_base/src/numeric.rs")],
     ["results and text of each operation"],
     technique="reference-model oracle: every operation recomputed with an independent big-number library",
     note="Operands up to about 700 bits, biased to all-ones words, lone high bits, powers of ten and cancelling pairs.")
prop("C15", "Dates, zones, durations and clocks follow the calendar",
     "Conversions between day counts, civil dates, week dates, instants, local times and their text are exact and inverse to each other in the Gregorian and Julian calendars, across leap days, leap seconds and daylight-saving changes. Adding months or business days, and counting whole months or years between instants, agree with counting on a calendar. Malformed text is refused without a crash, logical clocks order every event after those it follows, and merged clocks agree in any merge order.",
     ["inputs", "histories"], "every day, instant, zone, wall-clock time including skipped and repeated ones, duration text and message history",
     "Existing tests pin chosen dates; off-by-one errors live at century, year-end and transition boundaries.",
     ["crates/logicaffeine_base/src/temporal.rs"], [("civil/zone/duration/leap-second/HLC arithmetic", "crates/logicaffeine_base/src/temporal.rs")],
     ["values and text returned by each operation"],
     technique="reference-model oracle (independent calendar library, day-by-day counting, zone rules written out separately) plus a happened-before monitor for clocks",
     note="Day sweeps over about 500,000 years, zone checks over 1990-2080 using the rules in force today.")
prop("C16", "Quantities, money and identifiers convert exactly and never mix kinds",
     "A quantity means the same amount in every unit: conversions, sums and products are exact, and quantities of different dimensions or amounts of different currencies are never added or converted into one another. Money is kept at its currency's precision with ties rounded to even, and exchange goes through the exact rate. Identifiers have the published layout, sort by time where promised, survive being written and read back, and malformed text is refused.",
     ["inputs"], "every unit, currency, rate, amount, identifier and altered identifier text",
     "Existing tests check selected units and pairs; a wrong factor, rounding tie or accepted bad character shows only for its own input.",
     ["crates/logicaffeine_base/src/quantity.rs", "crates/logicaffeine_base/src/dimension.rs", "crates/logicaffeine_base/src/money.rs", "crates/logicaffeine_base/src/uuid.rs"], [("unit catalogue and Quantity", "crates/logicaffeine_base/src/quantity.rs"), ("Money and RateTable", "crates/logicaffeine_base/src/money.rs"), ("Uuid encode/parse", "crates/logicaffeine_base/src/uuid.rs")],
     ["values and text returned by each operation"],
     technique="reference-model oracle: separately written unit and currency tables, exact fractions, and identifier layouts from the standard",
     note="Covers the units that can be named in programs; ambient exchange rates are covered through programs.")
prop("C17", "Machine words, vectors and legacy digests compute bit-exact results",
     "Wrapping words of 8 to 64 bits, vectors of every lane shape and the MD5 and SHA-1 digests give bit for bit the mathematically defined result, for every operand, shift count and message length. Vector operations equal the same operation done lane by lane, and batch digests equal single ones.",
     ["inputs", "configurations"], "all operands, shift and rotation counts, message lengths, with and without vector instructions",
     "Existing tests pin a few vectors; lane-order, sign and boundary mistakes need particular bit patterns and builds.",
     ["crates/logicaffeine_base/src/word.rs", "crates/logicaffeine_base/src/hash.rs", "crates/logicaffeine_base/src/sha_ops.rs"], [("Word*/Lanes* operations", "crates/logicaffeine_base/src/word.rs"), ("md5/sha1 and batches", "crates/logicaffeine_base/src/hash.rs")],
     ["returned words, lanes and digests"],
     technique="reference-model oracle in 128-bit arithmetic and independent digest implementations, in a portable build and one with vector instructions enabled",
     note="The vector build runs only where the processor has AVX2 and SHA instructions.")
prop("C18", "Satisfiability answers and their certificates are right",
     "Every satisfiability answer is correct: a reported assignment satisfies every clause or constraint, and a problem reported unsatisfiable has no solution. Every refutation certificate the solvers write is accepted by an independent checker, and the repository's own certificate checkers accept no certificate of a satisfiable problem and none that has been altered into a non-proof. Answers do not depend on clause order, variable naming, preprocessing, symmetry breaking or the engine chosen.",
     ["inputs", "configurations"], "clause sets, parity, cardinality and pigeonhole-like families, assumptions, solver options and altered certificates",
     "Existing tests use named families; a wrong learned clause, elimination or symmetry step needs a particular instance.",
     ["crates/logicaffeine_proof/src/cdcl.rs", "crates/logicaffeine_proof/src/sat.rs", "crates/logicaffeine_proof/src/rup.rs", "crates/logicaffeine_proof/src/pseudo_boolean.rs"], [("CDCL and portfolio solvers", "crates/logicaffeine_proof/src"), ("DRAT/PR/symmetry proof checkers", "crates/logicaffeine_proof/src")],
     ["answers, assignments and certificates"],
     technique="reference-model oracle: brute-force enumeration and a separately written proof checker judge each answer and certificate",
     note="Instances up to about 20 variables are judged exhaustively; larger ones through certificates and planted solutions.")
prop("C19", "Answers about formulas, counting and reachability are right",
     "Deciding validity, satisfiability, entailment or consistency of formulas agrees with their truth tables, and every model, countermodel, core or count returned is a true one. Bit-level, linear-integer and interval answers agree with direct evaluation over the values concerned. Transition systems are declared safe, reachable or inductive exactly when exploring all their states says so.",
     ["inputs", "configurations"], "propositional and ground formulas, small-domain arithmetic and finite transition systems",
     "Existing tests fix a handful of formulas and systems; encodings go wrong on particular shapes.",
     ["crates/logicaffeine_proof/src"], [("formula decision procedures, counting, reachability", "crates/logicaffeine_proof/src")],
     ["answers, models, counts and traces"],
     technique="reference-model oracle: truth tables, exhaustive evaluation and explicit-state exploration",
     note="Models list only plain atoms; ground predications they leave open may take any value.")
prop("C20", "Nothing is proven that is false",
     "A sequent accepted as proven by proof search, by a tactic script or by certificate checking has no countermodel, and the proof term behind it is accepted again by an independent type checker. A derivation altered in a conclusion, rule or premise is accepted only if what it now claims still follows. Goals that follow by plain chaining of rules are found, and a reported conflict is a real one.",
     ["inputs", "programs"], "first-order sequents with equality, quantifiers and integer arithmetic, tactic scripts and altered derivations",
     "Existing tests prove true theorems; unsoundness needs a false goal that happens to slip through a rule's side condition.",
     ["crates/logicaffeine_proof/src/engine.rs", "crates/logicaffeine_proof/src/verify.rs", "crates/logicaffeine_proof/src/tactic.rs", "crates/logicaffeine_proof/src/certifier.rs", "crates/logicaffeine_kernel/src/type_checker.rs"], [("backward chainer", "crates/logicaffeine_proof/src/engine.rs"), ("certification into kernel terms", "crates/logicaffeine_proof/src/certifier.rs"), ("kernel type checker and second checker", "crates/logicaffeine_kernel/src")],
     ["verdicts, proof terms and tactic states"],
     technique="countermodel search over small finite structures for every accepted sequent, plus re-checking of every proof term",
     note="Completeness is judged only for Horn chains; search effort is capped and calls that exceed it give no verdict.")
prop("C21", "A compiled program prints what the language says",
     "A program translated to native code and built prints the same lines as the language defines, and fails where it would fail, whatever optimisations the translation applies and whether or not the native build is optimised. Copies of lists, maps and records stay independent of later changes to the original, and no translated program reads or writes outside its collections.",
     ["programs", "configurations"], "programs with loops, lists, maps, records, variants, text, closures and recursion that the native compiler accepts",
     "The routinely run tests do not build translated programs; a wrong rewrite needs a program of the right shape and values.",
     ["crates/logicaffeine_compile/src/codegen", "crates/logicaffeine_compile/src/optimize", "crates/logicaffeine_data/src/types.rs"], [("Rust code generator and its pattern rewrites", "crates/logicaffeine_compile/src/codegen"), ("optimiser passes and value-range analysis", "crates/logicaffeine_compile/src/optimize"), ("runtime collections", "crates/logicaffeine_data/src/types.rs")],
     ["lines printed and exit status of the built program"],
     technique="reference-model oracle: each built program's output compared with an independent evaluator of the language, in a build with runtime assertions on and an optimised one",
     note="Programs the native compiler rejects are counted, not judged; integers beyond 64 bits, printing of records and the order of sets are left out.")
prop("C22", "A value sent over the wire arrives as the same value",
     "A value sent to a peer arrives equal to the value sent, floats bit for bit, whatever number, text, float, compression, checking, sharing or layout settings the sender uses and without the receiver knowing them. The same holds when it is sent in pieces, over a conversation that remembers shapes already sent, with parts lost within the repair allowance, or sealed. Reading a single element or field in place gives what reading the whole message gives.",
     ["inputs", "configurations", "histories"], "values of every kind nested in each other, columns of many shapes, all sender settings, message orders and lost parts",
     "Existing tests fix example values per setting; a packed form is chosen by the data itself, so a wrong one needs values of the right shape.",
     ["crates/logicaffeine_compile/src/concurrency/marshal.rs", "crates/logicaffeine_base/src/describe.rs"], [("binary and JSON message codecs with packed column forms", "crates/logicaffeine_compile/src/concurrency/marshal.rs"), ("shortest-description column encoder", "crates/logicaffeine_base/src/describe.rs")],
     ["values decoded, element by element and whole"],
     technique="round-trip oracle: every decoded value compared structurally and bit for bit with the value sent, through whole, in-place, streamed and cached readers",
     note="Over JSON a float may be one unit in the last place off (known finding); a unit whose display symbol has no name arrives shown in base units.")
prop("C23", "Hostile or damaged messages are refused within the receiver's limits",
     "A message damaged in transit under checking, or cut short anywhere, is refused or read as what was sent, never as something else. A message whose size, nesting, collections, texts or expanded form exceed the receiver's limits is refused, and one within them is read. No bytes whatever make the receiver crash or hold memory out of proportion to its limits.",
     ["inputs", "fault_sequences"], "bit flips, truncations, altered lengths and tags, compression bombs and random bytes, under tight and loose limits",
     "Existing tests try a few malformed messages per form; each of some eighty forms has its own length fields.",
     ["crates/logicaffeine_compile/src/concurrency/marshal.rs", "crates/logicaffeine_base/src/describe.rs"], [("decoder with receive limits", "crates/logicaffeine_compile/src/concurrency/marshal.rs"), ("packed column decoder", "crates/logicaffeine_base/src/describe.rs")],
     ["refusal or value, peak memory and largest single request of the reading process"],
     technique="allocation monitor and crash monitor around a child process decoding mutated messages; reference comparison of whatever is accepted",
     note="A reader that does not finish gives no verdict. Limits on nesting are judged one level either side.")
prop("C24", "A one-time pad is never used twice",
     "No byte of pad material is used for two messages or in both directions, across restarts, stops at any point of recording progress, concurrent senders and moves to new pads. A message opens at most once and to exactly what was sealed, within the accepted window of reordering. An altered, replayed or misdirected message never opens, and material that is visibly not random is refused.",
     ["histories", "crash_points", "schedules", "inputs"], "send, receive, restart, crash and reorder histories, threads sealing at once, altered frames",
     "Existing tests restart at a few fixed points; reuse needs a stop between using pad and recording it.",
     ["crates/logicaffeine_compile/src/concurrency"], [("pad pool, cursor ledger and receive window", "crates/logicaffeine_compile/src/concurrency")],
     ["pad ranges named in sealed frames, opened texts, refusals"],
     technique="online monitor of pad ranges over enumerated stops at the ledger, restarts and threads; replay and tamper oracle on every frame")
prop("C25", "An editor session answers from the text the editor has",
     "After any sequence of openings, edits, requests, closings and reopenings the language server's text of each document equals the editor's, and its answers and diagnostics are those a freshly started server gives for the same documents. Diagnostics of an older version never follow those of a newer one, every range named lies in the text, and token differences rebuild the full token list. No text an editor sends leaves a document without diagnostics.",
     ["histories", "schedules", "inputs"], "edit, request, close and reopen histories over one or two documents with characters of all widths, broken programs, bursts and pauses",
     "Existing tests apply a few fixed edits; stale answers need an analysis still running while the document changes, closes or reopens.",
     ["crates/logicaffeine_lsp/src"], [("document text, generations and published analyses", "crates/logicaffeine_lsp/src/scheduler.rs"), ("positions in UTF-16", "crates/logicaffeine_lsp/src/line_index.rs")],
     ["messages on the protocol stream in both directions, published versions, kept text"],
     technique="protocol monitor over real sessions; reference model of the text; answers compared with a freshly started server")
prop("C26", "Formatting and renaming do not change what a program does",
     "Formatting a program keeps its words, lines and output, formatting it again changes nothing, and the editor's formatting gives the same text as the command's. Renaming a variable, parameter or function that no text names changes only occurrences of that name and keeps what the program prints.",
     ["programs", "inputs"], "programs of the corpus, the same with indentation written otherwise, broken ones; every renamable definition",
     "Existing tests format and rename a few fixed programs and never run the result.",
     ["crates/logicaffeine_lsp/src", "crates/logicaffeine_language/src/source_format.rs"], [("formatter", "crates/logicaffeine_language/src/source_format.rs"), ("rename over the symbol index", "crates/logicaffeine_lsp/src/rename.rs")],
     ["texts before and after, edits, program output before and after"],
     technique="metamorphic runs of the real program before and after formatting and renaming")
prop("C27", "Any text is translated or refused, and always the same way",
     "Any text, well formed or not, given to the English translator or to the program front end ends in a result or in a refusal that says what is wrong, never in a crash. The same sentence gives the same formula, readings and refusal every time, whatever was translated before.",
     ["inputs", "histories"], "sentences of the corpus cut, mixed and altered, words of other alphabets, broken programs, other sentences in between",
     "Existing tests translate fixed sentences once, in a fresh state.",
     ["crates/logicaffeine_language/src", "crates/logicaffeine_compile/src"], [("lexer, lexicon and parser", "crates/logicaffeine_language/src")],
     ["formulas, readings, refusals, crashes"],
     technique="crash monitor with checked arithmetic over hostile text; repeated translation compared")
prop("C28", "The formula of a plain sentence is true exactly where the sentence is",
     "For plain English sentences the formula produced is true in exactly the situations the sentence describes, the subject taking scope over the object. Plain sentences have names or every, some, a or no with a noun (possibly with a relative clause), an intransitive or transitive verb, an adjective or a noun as predicate, negated or not, and are joined by and, or, if and if and only if.",
     ["inputs", "configurations"], "sentences of a generated grammar (about 470 forms) against random small situations",
     "Existing tests compare printed formulas with fixed expectations for chosen sentences; none evaluates a formula.",
     ["crates/logicaffeine_language/src"], [("parser and transpiler", "crates/logicaffeine_language/src/parser"), ("printed formula", "crates/logicaffeine_language/src/transpile.rs")],
     ["printed formulas, their truth in each situation, the truth of the sentence by its own meaning"],
     technique="reference-model oracle: printed formula parsed and evaluated in random finite models, compared with the sentence's own truth conditions")

