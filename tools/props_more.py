def more(prop, R, RT):
    prop("C04", "Numbers, quoted strings and escapes: parsing and printing agree",
         "Printing an integer in any radix gives its one canonical text, and reading that text back gives the integer; reading numbers, quoted strings, identifiers, lines and white space consumes exactly the longest prefix of that form, whatever stream and block size it comes from, and reports an error exactly when the text is not well formed or does not fit the type. Reals print with three correct decimal places (or four significant digits and an exponent) and read back to the value their digits denote. Escaped text, XML-escaped text, Windows command line arguments and format strings come out so that their reader recovers exactly the original text.",
         "inputs", "every text, integer value of every width, radix from 2 to 36, real value, format string, stream kind and block size",
         "Tests parse a handful of literals; limits of each width, other radices, malformed text and text split across blocks are not sampled.",
         [RT + "io/impl/TypeParser.cpp", RT + "io/impl/TypeParser.h", RT + "io/impl/FormatString.cpp", RT + "io/impl/FormatString.h", RT + "io/InStream.h"],
         [("digit loop with overflow test", "fmt::TypeParser"), ("quote state machine", "fmt::FormatParser<QuotedString>"), ("printers", "fmt::TypePrinter")],
         ["returned values, bytes consumed, parse error flag, printed text"])
    prop("C05", "Strings behave as values whatever operations alias them",
         "Every string operation returns the bytes its documentation promises and changes nothing else: concatenation, repetition, substrings, trimming, case folding, reversal, joining, splitting, searching, comparing (by unsigned byte, prefixes first) and null termination agree with each other. Copies are independent of their source, moves leave an empty source, assigning a string to itself or to a part of itself keeps the right bytes, and a hybrid string gives its bytes away exactly when it owns them.",
         "inputs histories", "every content and every sequence of operations over several strings, including aliasing ones",
         "Tests check single calls on literals; aliasing and sequences across owning, viewing and hybrid strings are not sampled.",
         [RT + "string/String.h", RT + "string/String.cpp", RT + "string/StringView.h", RT + "string/StringView.cpp", RT + "string/StringMixin.h"],
         [("assignment keeps the old block until copied", "String::operator="), ("ownership flag", "HybridString::isOwner")],
         ["contents of every string after every operation"])
    prop("C06", "Arrays hold exactly the items the operations put there",
         "After any sequence of appending, inserting, erasing, resizing, copying, moving, extending, concatenating and sorting, an array holds exactly the items the operations define, in the defined order; every item is destructed exactly once, no item is lost, duplicated or read after its destruction, whatever the capacity happens to be. Sorting gives a sorted permutation and searches find the first or last match, also in an empty array.",
         "inputs histories", "every sequence of operations over several arrays with every position, count and capacity",
         "Tests append a few items; reallocation at every size, gaps longer than the tail, self assignment and item lifetimes are not sampled.",
         [RT + "container/Array.h", RT + "container/ArrayView.h", RT + "container/FixedArray.h", RT + "container/details/BaseArray.cpp", RT + "container/Subst.h", RT + "algorithm/Sort.h", RT + "algorithm/Find.h"],
         [("growth", "BaseArray::reserve"), ("relocation with memmove", "Array::insert, erase, eraseQuick")],
         ["items of every array after every operation, number of live items"])
    prop("C07", "A hash map finds exactly the items inserted and not erased",
         "After any sequence of insertions, lookups and erasures, whatever the hash function, the initial size and the growth in between, looking up a key finds the item inserted for it last and not erased since, and nothing else; each key is stored once, the item count is right, an iteration delivers every item exactly once, items are destructed exactly once, and moving a map moves all its items.",
         "inputs histories", "every sequence of operations, every set of keys and hash function, including heavy collisions and distances near the limits of the table",
         "Nothing tests the hash map directly: collisions, erasure inside a probe chain and migration happen only by chance.",
         [RT + "container/HashMap.h", RT + "container/HashMap.cpp", RT + "container/Hash.h", RT + "container/Hash.cpp"],
         [("leapfrog probing", "details::HashMap::insertOrFind"), ("unlinking and shuffling", "details::HashMap::erase"), ("growth", "details::HashMap::migrateToNewTable")],
         ["results of insertOrFind, find, iteration, numItems"])
    prop("C08", "An ordered tree keeps its items sorted, equal ones in order of arrival",
         "After any sequence of insertions and removals, iterating the tree forwards delivers every item inserted and not removed exactly once, in the order of the keys, items with equal keys in the order of their insertion (so that it acts as a queue); iterating backwards delivers the reverse. Searching finds the last item with a smaller key and the first item with a key that is not smaller. Removing the front, or an item through the node it was last moved to, removes exactly that item; items are destructed exactly once.",
         "inputs histories", "every sequence of operations, key distribution and node capacity",
         "Nothing tests the tree directly: splitting and merging of inner nodes needs hundreds of items in particular orders.",
         [RT + "container/BTree.h"],
         [("splitting and merging", "BTree::split, tryCompact"), ("separator keys", "BTree::updateLinkIndex")],
         ["iteration in both directions, search results, items removed"])
    prop("C09", "A sequence keeps its items in place and in order",
         "After any sequence of appending, popping, truncating, clearing, moving and converting to an array, a Sequence holds exactly the items those operations define, in order; its first and last item, its item count and forward and backward iteration agree. A weak reference taken at an item or at the end stays valid while its item exists: reading from it, item by item or view by view, delivers exactly the items from there on, each once, including those appended later. Every item is destructed exactly once and never moved in memory by appending others.",
         "inputs histories", "every sequence of operations, item size (from one byte to more than a block) and position of weak references",
         "Nothing tests Sequence directly: block boundaries, popping across blocks and weak references at the end need many items.",
         [RT + "container/Sequence.h", RT + "container/Sequence.cpp", RT + "container/BlockList.cpp", RT + "container/BlockList.h"],
         [("pop across blocks", "details::popTail"), ("cut off", "details::truncate"), ("next block", "BlockList::jumpToNextBlock")],
         ["items iterated, head, tail, numItems, items read through weak references, live items"])
    prop("C10", "A pool gives every live item its own stable slot",
         "A Pool hands out slots so that no two live items share one; an item keeps its index, its content and, while no slot is added, its address until it is deleted, deleted slots are reused before the pool grows, and iteration delivers exactly the live items in the order of their indices. A pool index converts to its item and back. A BigPool keeps every item at a fixed address and with its content while it grows, up to its limit.",
         "inputs histories", "every sequence of allocations, deletions, assignments and iterations, every pool size including page boundaries",
         "Tests never delete from a pool in the middle and never reach page boundaries.",
         [RT + "container/Pool.h", RT + "container/Pool.cpp", RT + "container/BigPool.h", RT + "container/BigPool.cpp"],
         [("free list in deleted slots", "Pool::newItem, deleteItem"), ("commit on demand", "BigPool")],
         ["indices handed out, contents, iteration order, live items"])
    prop("C11", "Every owned object is destroyed exactly once, when its last owner goes",
         "Objects held through unique owners, optional owners, counted references, strong and weak references, functors and switches are destroyed exactly when the last owner lets go of them: not earlier, not later and not twice. That holds through copying, moving, assigning over a live owner, assigning to itself, adopting, releasing, and moving out of a member of the very object being replaced; after a move the source is empty. Weak references keep the memory but not the object.",
         "inputs histories", "every sequence of ownership operations over several handles and linked objects, including self assignment and linked chains",
         "Tests only use ownership the simple way; aliasing during assignment and weak after strong are never sampled.",
         [RT + "container/Owned.h", RT + "container/Reference.h", RT + "container/WeakRef.h", RT + "container/Functor.h", RT + "container/Switch.h"],
         [("release then assign order", "Reference::operator=, Owned::operator="), ("stored callable", "details::FunctorHandler")],
         ["which objects are alive after every operation"])
    prop("C12", "Labels stand for their text, one label per text",
         "Inserting a text into a label storage always gives the same label for the same text and different labels for different texts; the view of a label is exactly the text inserted, for every length (also across the one to four byte length encodings) and every byte value; looking up a text finds its label exactly if it was inserted before. Labels are equal, and hash alike, exactly if their texts are equal, and stay valid whatever is inserted later.",
         "inputs histories", "every sequence of insertions and lookups, every text and length",
         "Nothing tests label storage directly: length encodings and hash collisions need unusual texts.",
         [RT + "string/Label.h", RT + "string/Label.cpp"],
         [("length prefix", "details::LabelEncoder"), ("lookup by hash", "LabelMap::insertOrFind, find")],
         ["labels, views, equality"])
    prop("C13", "Path algebra agrees with walking the directories a path names",
         "For POSIX and Windows path formats, joining, splitting, normalizing, relativizing and converting separators never change which directory entry a path names: a normalized path names the same entry as the original, contains no redundant component, and normalizing again changes nothing; joining gives the entry reached from the first by walking the rest, an absolute path replacing everything before it; a relative path from A to B joined onto A names B; the pieces of a split path join to the path, drive letters and absolute roots are recognised, and directory/file name splits put every byte in exactly one part.",
         "inputs", "every path text in either format, including empty, repeated and trailing separators, '.', '..' above the start, drive letters",
         "Tests tabulate a few dozen paths; leading '..', drive-relative paths and odd separators are missing.",
         [RT + "filesystem/Path.h", RT + "filesystem/Path.cpp"],
         [("component folding", "PathFormat::joinAndNormalize"), ("relative paths", "PathFormat::makeRelative")],
         ["result texts of every operation"])
    prop("C14", "The file system interface does what it reports, and saves whole files",
         "Native and virtual file systems change exactly what the operation names and report what happened: created folders and files appear, written content is read back the same through every way of reading, moving and deleting affect one entry, removing a tree removes all of it without following links, listings and walks deliver every entry once with its kind and size and honour pruning, existence and status tell the truth, and failures report the documented result and change nothing else. A save of unchanged content leaves the file alone; a save cut short at any point leaves the old or the new content. A virtual file system never reaches anything outside its root.",
         "inputs histories crash points", "every sequence of operations over trees with links, unreadable and read-only entries and paths with '.', '..', and separators at the end; every point at which a save is cut off",
         "Tests touch a couple of files; missing permissions, dangling links, '..' escapes and crashes during a save are never produced.",
         [RT + "filesystem/FileSystem.h", RT + "filesystem/FileSystem.cpp", RT + "filesystem/impl/FileSystem_POSIX.cpp", RT + "filesystem/impl/FileSystem_Virtual.cpp"],
         [("directory listing", "FileSystem_POSIX::DirImpl::nextImpl"), ("saving", "FileSystem::makeDirsAndSaveBinaryIfDifferent"), ("rooted paths", "FileSystem_Virtual::convertToTargetPath")],
         ["the tree on disk after every operation, results, contents read, listings"])
    prop("C15", "Threads, locks, events and atomics keep their promises under every schedule",
         "Every operation on mutexes (recursive, lazily initialised, spin), semaphores, reader-writer locks, manual-reset events, condition variables and atomics takes effect at one instant between its call and its return: locks exclude, shared locks do not exclude each other, every signalled permit releases exactly one wait, an event releases all its waiters, no wake-up is lost, a timed wait ends neither early nor never. Data written under a lock or before a releasing store is visible to whoever acquires it next. Thread-local values and scopes belong to one thread; a started thread runs its own copy of its callable once, join returns only after it ended and that copy is destroyed, thread identifiers differ.",
         "schedules histories", "every interleaving of any program of lock, wait, signal, atomic, thread-local, start and join operations over several threads",
         "A test runs one schedule of one program; lost wake-ups, double initialisation and missing ordering need a particular interleaving.",
         [RT + "thread/Mutex.h", RT + "thread/impl/Mutex_POSIX.h", RT + "thread/impl/Mutex_LazyInit.h", RT + "thread/impl/Mutex_SpinLock.h", RT + "thread/impl/Mutex_CPP11.h", RT + "thread/impl/ConditionVariable_POSIX.h", RT + "thread/impl/ManualResetEvent_CondVar.h", RT + "thread/impl/Semaphore_POSIX.h", RT + "thread/impl/RWLock_POSIX.h", RT + "thread/impl/Atomic_CPP11.h", RT + "thread/impl/Thread_POSIX.h", RT + "thread/ThreadLocal.h"],
         [("checked twice under a spin lock", "Mutex_LazyInit::lazyInit"), ("predicate loop", "ManualResetEvent_CondVar::wait"), ("absolute deadline", "ConditionVariable_POSIX::timedWait")],
         ["order of calls and returns, returned values, data races, elapsed times"])
    prop("C16", "Pylon: a text means one tree, errors are located, writing loses nothing",
         "Parsing never fails on any sequence of bytes: a well-formed text gives exactly the tree it denotes, with every node's offset into the text; an ill-formed one gives an invalid tree, exactly one error located inside or at the end of the offending token, and the enclosing objects, properties and arrays as context. All three kinds of string, all escapes, separators (comma, semicolon, newline), both kinds of assignment and duplicate properties follow the same rules anywhere. A parser can be used again. A tree written out and read again is the same tree, whatever bytes its texts hold; properties keep their order and are found, replaced and removed by name; a copy depends on nothing of the original.",
         "inputs histories", "every text (every byte value, every place an error can be); every sequence of tree edits",
         "Tests read a handful of small files; ends of text, odd bytes, escapes in every position and errors are not sampled.",
         ["repos/plywood/src/pylon/pylon/pylon/Parse.cpp", "repos/plywood/src/pylon/pylon/pylon/Node.cpp", "repos/plywood/src/pylon/pylon/pylon/Write.cpp", RT + "io/text/FileLocationMap.cpp"],
         [("one-pass string automaton", "Parser::readQuotedString"), ("index beside items", "Node::set, remove, copy"), ("context of errors", "Parser::ScopeHandler")],
         ["trees, offsets, errors, texts written"])
    prop("C17", "Saved objects load back, also into a type that has changed since",
         "An object saved together with the description of its type loads into the same type as the same object: numbers of every width, texts, fixed, growing and enumeration-indexed arrays, structs, enumerations, switches, owned objects, pointers to owned objects anywhere in the object (however nested, before or after their target), typed arrays and saved objects that bring their own type. Loaded into another version of the type, members, enumerators and switch states are matched by name, whatever their order; numbers convert; members that are new or no longer fit have the value of a new object; data that is not wanted is skipped exactly, so nothing after it is misread, and the stream is left where the object ends. Exporting an object to pylon and importing it gives the same object; importing into an existing object changes exactly the members the text names.",
         "inputs histories", "every type (also containing itself), every object of it and every edited version of the type, through any chain of saves and loads",
         "No existing test saves or loads a reflected object: migration needs pairs of types, and pointers need particular shapes.",
         ["repos/plywood/src/reflect/ply-reflect/TypeKey.cpp", "repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp", "repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp", "repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp", "repos/plywood/src/reflect/ply-reflect/Asset.cpp", "repos/plywood/src/reflect/ply-reflect/TypedArray.cpp", "repos/plywood/src/reflect/ply-reflect/TypeSynthesizer.cpp", "repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp", "repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp"],
         [("matching by name", "TypeKey_Struct, TypeKey_Enum, TypeKey_Switch read"), ("skipping", "skip"), ("link table", "resolveLinksAndWriteLinkTable, resolveLinks"), ("types that travel along", "TypeSynthesizer, getUniqueType")],
         ["the loaded object seen through its type, position in the stream, pylon trees"])
    prop("C18", "A Markdown text becomes the tree its author wrote, and that tree's HTML",
         "Parsing Markdown never fails and loses nothing: every text gives a well-formed tree (containers hold blocks, lists hold items, leaves hold inline elements, every child knows its parent) in which every letter of the text stands, once and in order. A document written down according to the syntax, with any choice of indentation, markers, separators, tabs, line ends and nesting of quotations, lists, code blocks, headings and paragraphs, and with emphasis, code spans and links around each other, is read back as that document; a list is loose exactly when blank lines separate its parts. The HTML is the tree written out, with every text escaped, tags closed in order, tight items without paragraph tags, and headings carrying their identifiers as attributes or anchors.",
         "inputs", "every sequence of bytes; every document and every way of writing it",
         "There are no tests of the Markdown parser; containers in containers, blank lines and delimiters around each other have too many combinations to sample.",
         ["repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp", "repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp", "repos/plywood/src/web/markdown/web-markdown/Markdown.h"],
         [("containers matched line by line", "Parser::matchExistingIndentation, parseNewMarkers"), ("blank lines decide later", "isLooseIfContinued, checkListContinuations"), ("delimiter stack", "processEmphasis, expandInlineElements")],
         ["the tree, the HTML in every mode"])
    prop("C19", "Crowbar scripts are read as they are written and run as the language says",
         "A Crowbar program, written with any spacing, comments and line breaks that the syntax allows, is read as the program meant: precedence, associativity, parentheses, strings with escapes and embedded expressions, statements and where they end; anything else is reported as errors located inside the text, and reading always ends. Running it does what the language says for every program: variables and parameters keep their own values, whatever calls, loops and returns happen in between; arithmetic is that of 32-bit unsigned numbers; host objects' properties are read and changed; and an operation that has no meaning is reported once, with the line and column of every function on the way, and stops the program. Running a program leaves it unchanged.",
         "inputs histories", "every program, every way of writing it, every text, every call depth",
         "The 44 Crowbar tests run one small script each; value ownership on the interpreter's stack, error recovery and locations depend on combinations that nobody wrote down.",
         ["repos/plywood/src/crowbar/ply-crowbar/Parser.cpp", "repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp", "repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp", "repos/plywood/src/reflect/ply-reflect/methods"],
         [("precedence climbing with error recovery", "Parser::parseExpression, handleUnexpectedToken"), ("object stack with returned and temporary objects", "Interpreter, ObjectStack::deleteRange, execFunction"), ("file locations", "FileLocationMap, TokenLocationMap, ExpandedToken")],
         ["the parsed tree, error texts, what a run prints, the host object afterwards, the runtime error report"])
    prop("C20", "A build is what the modules say: who is found, instantiated, visible and linked",
         "For every set of repositories, modules, externs and providers: a name leads to the one module, extern or provider it means - qualified or not, from module code or from the command line - or to an error that says why; each module reached is instantiated exactly once, dependency loops and repeated dependencies are reported, and shared objects own exactly what is instantiated below them; what a module makes public (include directories, definitions, flags) reaches those that can see it and nobody else, everything that must be linked is linked exactly once in every executable and shared object, dependencies after dependents, exports and imports are marked accordingly, clashes are reported; and the CMakeLists.txt that is written says exactly that, bootstrap or not. Source files are found by extension, in sorted order.",
         "inputs histories", "every dependency graph, every visibility, every set of repositories, every order of roots",
         "No test runs the build system's graph code except by building plywood itself: one graph, with one shape, one provider per extern and no shared objects.",
         ["repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp", "repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp", "repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp", "repos/plywood/src/build/repo/ply-build-repo/Repo.cpp", "repos/plywood/src/build/target/ply-build-target/Dependency.cpp", "repos/plywood/src/build/target/ply-build-target/BuildTarget.cpp", "repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp"],
         [("memoised recursive instantiation with loop detection", "ProjectInstantiator::instantiate"), ("post-order propagation along public edges", "propagateDependencyProperties"), ("name resolution", "RepoRegistry::findModule/findExtern/findExternProvider, Repo")],
         ["the nodes of the instantiated project with all their properties before and after propagation, the dependency tree, error texts, the written CMakeLists.txt, how lookups end"])
    prop("C21", "The web server answers every request, from inside its folders only",
         "Whatever bytes clients send, in whatever pieces and at whatever pace, and however they go away, the server keeps answering: each connection gets exactly one well-formed response per well-formed request, in order, as soon as the request is complete - chunked and kept open for HTTP/1.1, closed after it otherwise; a request that is none gets 400 and the end; nothing one client does disturbs another. What is answered is what the path names: static files (by extension) unchanged, source files as pages with one escaped row per line, documentation pages with their table of contents expanded along exactly the path to the page; everything else is 404. No path, however written, reaches a file outside the served folder. The table of contents that is shown is one version of the file on disk, the last valid one, even while it changes.",
         "inputs histories schedules", "every byte stream and its cuts, every path, every interleaving of clients, every change of the table of contents",
         "There is no test of the web modules or of sockets at all.",
         ["repos/plywood/src/web/common/web-common/Server.cpp", "repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp", "repos/plywood/src/web/common/web-common/SourceCode.cpp", "repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp", "repos/plywood/src/web/common/web-common/URLEscape.cpp", "repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp", "repos/plywood/src/apps/WebServer/WebServer.cpp", "repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp"],
         [("one thread per connection, a request at a time", "serverThreadEntry, runServer"), ("paths stay inside", "staysInsideDirectory, FetchFromFileSystem::serve, SourceCode::serve, getPageSource"), ("table of contents under a lock", "DocServer::serve, reloadContents")],
         ["requests as the handler sees them; the bytes of all responses; that answers come before anything more is asked"])
    prop("C22", "Cooking again gives what cooking from nothing would, and no more work than that",
         "After a job was cooked or checked in a session, its result is what cooking it from nothing would give with the files, arguments and other jobs' results as they are now, however they changed since (edited, put back, deleted, created), and it refers to exactly the jobs it asked for this time. A job is cooked at most once in a session, and not at all when nothing that its result was made from has changed. Once the deferred jobs are cooked, every job that a checked job refers to is checked, too, and so on; a job stays as long as something refers to it or the session has seen it, and goes away after that; the database hears exactly once of every result that is replaced or goes away, while the database is still there. Asking whether a job is cooked changes nothing.",
         "histories inputs", "every set of jobs and recipes (references in cycles, nested cooks), every history of edits, sessions, roots and handles",
         "The repository has no tests of cooking; staleness shows only after particular sequences of edits and sessions.",
         ["repos/plywood/src/cook/ply-cook/CookJob.cpp", "repos/plywood/src/cook/ply-cook/CookJob.h"],
         [("what a result was made from", "Dependency, DependencyType::hasChanged, CookResult::openFileAsDependency"), ("once per session, then deferred jobs", "CookContext::ensureCooked, checkedJobs, deferredJobs, cookDeferred"), ("jobs live by reference", "DependencyTracker::getOrCreateCookJob, setRootReferences, CookJob::~CookJob")],
         ["all jobs of the tracker in order; each result's output, errors, references; how often each job was cooked and unlinked; live results"])
