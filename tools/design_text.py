# Per property: what is specified, what is modelled exhaustively, how the code is bound, bounds.
HEAD = """# Model-based verification of Plywood with TLA+

*This file is generated by `tools/design.py` from `tools/design_text.py`, `properties.jsonl`,
`known_findings.json` and `seeded/*/meta.json`.*

## Approach

**Language: TLA+ checked with TLC** (not Quint). The objects under test are sequential libraries with
rich case analysis (texts, trees, files) plus one concurrent part; what decides them is (a) exhaustive
search of small state spaces and (b) acceptance of recorded histories. TLC does both in one tool, with
`ndJsonDeserialize` to read histories, `POSTCONDITION` to decide acceptance, breadth-first search over
silent or unlogged steps for the concurrent part, and recursive operators that let a parser or a
printer be *specified* as a function over byte sequences. Quint's simulator samples; Apalache does not
carry recursive operators over sequences. So TLA+.

Every property has four pieces:

1. **A specification module** `specs/<X>Spec.tla`: the state a user can observe and one action (or one
   function from arguments and state to results) per public operation. It says what the operation
   means, not how the code does it.
2. **A bounded model** `specs/MC<X>.tla` + `.cfg`, checked exhaustively by TLC on every run: either the
   *design of the implementation* as a state machine (free lists, leapfrog probing, B-tree splits,
   block lists, counted references, the event/lazy-mutex algorithms one shared access at a time, a save
   through a temporary file with a crash between any two calls, the one-pass quote automaton, ...)
   shown to refine or agree with the specification, or, where the design is a function, the laws the
   property states (round trips, idempotence, walking equals normalising, ...) over all small inputs.
3. **A harness** `harness/<x>.cpp` linked with /repo's current sources (rebuilt by `lib/vbuild.py` when
   the text of any source changes; ASan+UBSan, for C15 also TSan), which executes scripts against the
   public API and writes one JSON event per call: arguments, results and the projected state
   (contents, addresses, construct/destruct events, counts of system calls where they matter).
   No hook in /repo is needed: the public interface shows the abstract state, and system-call faults
   are injected by interposing `read`, `write`, `open`, `rename`... in the harness.
4. **A trace specification** `specs/Trace<X>.tla` that reuses the actions of (1): TLC accepts a
   recorded history exactly if every event is explained, in order. Abnormal ends (sanitizer report,
   assertion, crash, hang, output without end) are recorded as events no specification explains.

The scripts come from `checks/cNN.py`: seeded random generators weighted towards boundaries
(capacities, block sizes, buffer sizes taken from the specification's point of view, aliasing, empty
things), exhaustive enumeration of small inputs where that is possible, and, for C01, behaviours
generated by TLC itself. `lib/core.py` runs them, lets TLC judge, re-runs and minimises a rejected
segment (a violation is reported only if it rejects again), and writes the evidence file and the
replay. `quick` runs the models with small constants and hundreds to thousands of scripts; `thorough`
uses the larger configurations and 8 times (or more) the scripts with deeper enumerations.

**Judging behaviour, not code**: the harnesses call only the public API; block sizes, table layouts,
growth policies, messages and orders the interface does not promise are left open in the trace
specifications. A behaviour-preserving edit changes no event the specification constrains.

**Binding is demonstrated, not assumed**: every planted bug in `seeded/` is a change to the code that
compiles and passes the 406 tests and is rejected by the trace specification (table below);
`require_kinds` fails a run in which some operation was never exercised; models whose point is a
protocol are run with a wrong variant during development (`MODE`, `ORDER` constants) to show that they
can fail.

**Strength**: for all small instances of the design (TLC, exhaustive), for every history that was
recorded (TLC, exact), for generated histories only as far as the generators reach. Nothing here is a
proof about the C++ text. Floating point: only digits-to-value with correctly rounded results and the
documented three decimals are specified; memory safety is only seen through the sanitizers on the
histories run.

## Layout

- `properties.jsonl`, `MANIFEST.json`, `known_findings.json` (generated: `tools/props.py`,
  `tools/findings.py`)
- `checks/run.sh ID [quick|thorough]`, `checks/cNN.py`; `lib/core.py` (driver), `lib/vbuild.py` (build)
- `specs/`, `harness/`, `seeded/`; `replays/ID/` is written when a violation is found
  (`tools/vr.py`, `tools/lastev.sh`, `tools/bt.sh` help reading one)
- `tools/mut.sh CHECK FILE SED` tries a mutation; `tools/seeds.py` makes and tests planted bugs;
  `tools/repotest.sh` runs /repo's own tests

No hooks were added to /repo; the only commits there are `fix:` commits.

## Properties
"""
P = {}
P["C01"] = """Spec `ByteStream`: source bytes, position, save points; one action per reading operation.
Model: every interleaving of those operations over short sources and every way the pipe cuts them.
TLC also *generates* behaviours (`GenByteStream`) that are replayed. Harness: pipe, file, view and
overlay sources; the pipe's piece sizes are scripted; chunk size varied so that every operation meets
block boundaries. Reads past the end, after end-of-file, rewinds across blocks."""
P["C02"] = """Spec `OutputStream`: what was written, what has reached the sink, whether it failed.
Model: writes, flushes, short writes, failures in all orders. Harness: real file descriptors with
interposed `write`/`lseek` (short counts, errors), memory streams, fixed views, seeks."""
P["C03"] = """Spec `TextCodec`: decoding and encoding as functions on bytes, text formats as newline and
BOM rules. Model: round trip for boundary code points and pending pieces. Harness: converters with
every cut of the input and every room in the output; import/export through files; autodetection; file
locations around every step of the map's table, with characters, tabs and lines across the steps (`Located`)."""
P["C04"] = """Spec `TextSyntax`: canonical digits, longest-prefix parsers, escapes, format strings, over byte
sequences; 64-bit values as four 16-bit words because TLC's integers have 32 bits. Model: inverse laws.
Harness: the same texts from streams of block sizes 1..n."""
P["C05"] = """Spec `StringAlgebra`. Model: algebraic laws over all short strings; ownership rules over short
histories. Harness: slots holding String/HybridString/StringView with deliberate aliasing."""
P["C06"] = """Spec `ArraySpec`: sequences of numbered items and the multiset of live items. Harness: items count
their constructions and destructions, own heap memory (ASan sees double frees) and come in sizes 1, 3, 24."""
P["C07"] = """Spec `MapSpec`. Model `Leapfrog`: the probing table with cells, links of limited length and
migration, for all small hash functions (also the 8-bit link overflow). Harness: scripted hash functions,
clustered and identical hashes, growth and erasure through cursors."""
P["C08"] = """Spec `OrderedSpec`. Model `MCBTree`: leaves and inner nodes, splitting and merging. Harness: thousands
of items with few distinct keys, removal through nodes."""
P["C09"] = """Spec `SequenceSpec`. Model: block structure incl. reserved and popped-empty tail blocks. Harness: items
larger and smaller than blocks, weak references kept across appends and pops."""
P["C10"] = """Spec `PoolSpec`. Model: free list as linked slots, sorted when iterated. Harness: Pool and BigPool."""
P["C11"] = """Spec `OwnSpec`: objects, who refers to them, when they die. Model `MCOwn`: counts updated one slot at
a time. Harness: Owned, OptionallyOwned, Reference, Strong/WeakRef, Functor, Switch with self moves."""
P["C12"] = """Spec `LabelSpec`. Model: offsets into an append-only pool with grouped length prefixes."""
P["C13"] = """Spec `PathSpec`: a path *is* a walk through a directory tree; every function's result is defined by
where it leads. Model: laws over all texts of up to 4-5 bytes for both formats. Harness: random and all
texts up to 5-6 bytes over the significant characters, alone and in pairs."""
P["C14"] = """Spec `FileTree`: a tree of files, folders and links with permissions. Model: makeDirs, removeDirTree
and save as sequences of system calls with a crash between any two. Harness: runs as an unprivileged user
inside a scratch directory that it creates; faults and short writes by interposition; virtual file systems.
Left out (the interface does not say what should happen): creating folders or saving through links that
lead nowhere, and `..` out of folders that do not exist."""
P["C15"] = """Spec `SyncSpec`: observations are call and return; the operation takes effect in a silent step in
between (linearizability). Model: the event, lazily initialised mutex and spin lock algorithms, one shared
access per step, with spurious wake-ups, under every schedule, no observable history unexplained and no
thread stuck. Harness: real threads whose order of calls is partly forced by the script; the recorded
history is searched by TLC for an explanation (breadth first over silent steps); a second build under TSan
sees missing ordering. Timed waits are checked not to end early against the monotonic clock; lateness is
only a hang (generous limit)."""
P["C16"] = """Spec `PylonSpec`: tokens and values as recursive functions from bytes to trees with offsets, error
positions as intervals, and tree operations. Models: all texts up to 5 bytes (writing and re-reading, blanks
only shift, separators are interchangeable), the one-pass quote automaton against the definition of a string
literal for all texts up to 8 bytes, items plus index against set/remove. Harness: documents from a grammar,
broken documents, exhaustive short ones, edits on trees whose texts are owned or borrowed, copies that outlive
their original."""
P["C17"] = """Spec `ReflectSpec`: types as a graph of descriptions, and functions for a new object, an object loaded
through a saved type (`Load`), comparing values up to the names of owned objects, and the pylon form. Model: all
pairs of small types and values; loading fits the new type, loading the same type is the identity, loading through
an intermediate version that only adds or reorders equals loading directly, members absent from the source are new.
Harness: type descriptors built from the script at run time, objects made, saved, loaded, exported, patched; the
object is seen through its descriptors only. Generators: types of every kind (also containing themselves), edits of
types (reorder, rename, add, drop, change), chains of versions, pointer graphs where an object starts with its
first owned object, types that drop some of the objects and the pointers to them. Excluded by design (asserts):
null pointers at save time, pointers to objects that were dropped, exporting plain numbers."""
P["C18"] = """Spec `MarkdownSpec`: documents with every choice made in writing them, `Written` (the text), `MeanDoc` (the
tree), `Tree` (which trees there are at all), `Letters` (what must not get lost) and `Html`. Model: all documents of
two blocks from some 160 small ones, 25594 in all: what is written keeps its letters, stands for a tree, and for one
tree only (no text is written by two documents of different meaning). Conformance: random documents to depth 3
(`Ev.text = Written(d)`, tree = `MeanDoc(d)`), every short text over the marks of the syntax, mutated documents and
random bytes (tree well-formed, letters conserved); HTML of every tree in three modes. Left out, because the parser
documents itself as a subset: lazy continuation of quotations, backslash escapes in text, `<>` destinations and
titles, nested links, hard and thematic breaks, fenced code, emphasis of the same mark inside itself."""
P["C19"] = """Spec `CrowbarSpec`: the grammar as a writer (`Toks`: which tokens a tree is written with and where a newline
may, must or must not stand; `Weave`: the text with any separators), `Mean` (the tree that is meant) and a big-step
semantics (`Eval`, `Exec`, `Run`) over values, environments, the host object's properties and an error with the
places of all calls; 32-bit arithmetic is specified on halves, because TLC's integers are smaller. Model: 1597
expressions of every shape are written with different tokens (the grammar is unambiguous); the arithmetic laws; and
the interpreter's object stack as a state machine: variables keep their own objects while temporaries become
variables, arguments and results (19969 states). Conformance: random programs (typed, so that they mostly run; with
mistakes, so that they mostly do not), written with random spacing, comments and line breaks; damaged programs and
token soup (parsing ends, errors lie inside the text); file locations of every offset of multi-byte texts. Left out:
assigning the host object itself, tabs in locations, unbounded recursion."""
P["C20"] = """Spec `BuildGraph`: repositories, modules (each a list of the steps its module function takes), externs and
providers; name resolution from module code (`UseTarget`, `UseExtern`) and from outside (`LookTarget`, `LookExtern`,
`LookProvider`, short names); instantiation (`Inst`, `Steps`), propagation (`Prop`) and the commands of
CMakeLists.txt (`TargetCmds`). Model (`BuildGraphMC`, 23328 graphs with every visibility): propagation does not
depend on the order of roots, an include directory is visible exactly along public paths, every linked object is
linked once and after those that need it, every module is instantiated once. Conformance: random worlds of up to 12
modules in up to four repositories are registered with the real RepoRegistry (with module functions that interpret
the steps), instantiated, propagated and written; every property of every node, the dependency tree, the errors and
the parsed commands of the file (in the order in which CMake would see them; duplicates of a variable in `add_*`
allowed) must be the specification's. Fatal mistakes (loops, repeated dependencies) run in a forked child whose
message is compared. Left out: a member of a shared object that sees a module outside of it (a FIXME assertion in
the code), repositories named like modules or externs, `addExternProvider` with an ambiguous unqualified name."""
P["C21"] = """Spec `WebSpec`: what a stream of bytes asks for (`Stream`: requests, refusal, or more than is read), what a path
names (`Resolve`, which refuses whatever leads out of the folder on its way), and the set of right answers
(`Answers`: `Fetch`, `Source`, `Doc`, `Content`, generic codes, handlers of the harness that use the response
interface in every way). Model (`WebMC`): for all paths of up to five components from {empty, ., .., a, b}, `Resolve` agrees with walking
the folders and never ends outside; percent encoding is one to one; expanded entries of all small tables of contents
form exactly the path to the page; and two connections with a thread each (clients that send bit by bit, stop or
leave at any time; keep, last, bad and partial requests; fairness): answers in order, none after the end, every connection ends,
whatever the other client does. Conformance: the real `runServer` with the handler of apps/WebServer on the loopback network
over IPv4 or IPv6 sockets, a scratch tree of files inside and outside the served folders, up to three clients at once
whose bytes are cut at random places; the requests the handler saw, every response byte by byte (a strict chunk
parser), and answers that must arrive before more is sent. `rude` clients leave with unread answers or resets; `storm` reads
pages from four threads while the table of contents is replaced: a page shows one version. The recorded execution is
judged (schedules do not repeat). When the client has sent more than the server reads, the network may lose answers
(a reset): only their prefix is then judged. Left out: a table of contents that is valid Pylon of the wrong shape, running out of file
descriptors, methods other than by their name (HEAD gets a body, as the code does for now)."""
P["C22"] = """Spec `CookSpec`: jobs with results made from files (by time), an argument, and other jobs' outputs; `Ensure` checks or
cooks one job (`Check`, `Perform` for its recipe, with nested cooks), `Defer` gives the states after the deferred jobs
were cooked batch by batch in any order, `GC` removes what nothing refers to. Model (`MCCook`, 3 jobs with recipes that refer
in cycles, nest and use outputs; edits, deletions, sessions, roots, a handle; 10 steps): after every step each checked
job has the output and references of a cook from nothing (`UpToDate`, against `Value`, which knows nothing of sessions),
references are complete when nothing is deferred, cooks and unlinks balance, nothing dangles; as action properties, at most one cook per session (`Once`)
and none without a reason (`Lazy`). Conformance: the real engine over recipe and data files in a scratch folder with chosen
modification times (not always increasing), up to 7 jobs of two types, several sessions per history, user-defined dependencies that cook other jobs while
being checked; after every operation all jobs, outputs, errors, references, cook and unlink counts and live results are compared, the tracker's
end included. The module did not compile; building it showed the other defects. Left out: an edit that leaves the modification time as it was
(invisible by design), jobs that cook each other in a circle (asserted against), circles of references staying allocated when
their tracker ends (reference counting)."""
TAIL = """
## What is left out, and why

- **Rendering, audio, image, math**: numeric kernels; the family decides little there (no state, no
  history), so no property is claimed.
- **apps/, cook, codec** beyond what is listed: not built by the repository's build.
- **Windows and macOS back ends**: cannot run here. (Windows *path format* and command line quoting are
  platform-independent code and are covered.)
- Undefined uses the documentation excludes (asserts by design): parsing a path with foreign separators,
  unknown errno values of the file system, removing items that are not there.
"""
