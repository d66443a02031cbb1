"""Writes properties.jsonl."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TX = "plotline/src/schema/transaction.rs"
GUARD = "plotline/src/schema/guard.rs"
SAVE = "plotline/src/schema/ops/save.rs"
DELETE = "plotline/src/schema/ops/delete.rs"
TRIG = "plotline/src/schema/trigger.rs"
RES = "plotline/src/schema/resource.rs"
SCHEMA = "plotline/src/schema/mod.rs"
GRAPH = "plotline/src/graph/mod.rs"
PROXY = "plotline/src/graph/proxy.rs"
LAZY = "plotline/src/document/lazy.rs"
DEREF = "plotline/src/deref.rs"
TREE = "plugins/interval/src/tree.rs"
NODE = "plugins/interval/src/node.rs"
DATE = "plugins/interval/src/date.rs"
IVL = "plugins/interval/src/lib.rs"
PLUGIN = "plugins/interval/src/plugin.rs"
REPO = "plotline-cli/src/repository.rs"
DOC = "plotline-cli/src/document.rs"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))


prop("C01", "A committed transaction applies all of its writes, in order",
     "When the closure of a transaction succeeds, the graph afterwards is the graph before with every save and delete "
     "the closure registered applied in the order they were registered: a later write to an identifier replaces an "
     "earlier one, and identifiers the transaction did not write are untouched. The value the closure returned is what "
     "the caller gets. Writes registered through committed nested transactions count as registered where the nested "
     "transaction committed. None of this depends on what becomes of the contexts the closures are given.",
     ["inputs", "programs"], "every initial graph, every sequence of saves and deletes with any identifiers and payloads, and every identifier looked up afterwards",
     "The tests commit no transaction at all; whether two writes collide, in which order, and on what the graph already held multiplies beyond any sample.",
     [TX, GUARD, GRAPH, SCHEMA],
     [("the transaction's log is applied to the graph when the closure succeeds", TX), ("a committed nested transaction hands its log to its parent", TX)],
     [("ops", "the writes registered so far, in order", TX), ("graph", "the committed nodes behind the schema's lock", SCHEMA)],
     ["Schema::read() after Transaction::with"])

prop("C02", "A failed transaction changes nothing and returns its error",
     "When the closure of a transaction fails, at any point and with any error, the graph afterwards is exactly the graph "
     "before, whatever the closure, or nested transactions that had already committed within it, had written. The caller "
     "gets the closure's error, and the schema accepts further transactions. A transaction that is created and never run changes nothing either.",
     ["inputs", "programs", "fault_sequences"], "every initial graph, every sequence of writes and every point and kind of failure",
     "The tests never fail a transaction; a leak shows only for particular writes before a particular failure.",
     [TX, GUARD, SCHEMA],
     [("writes are kept in the transaction's log until the closure succeeds", TX)],
     [("ops", "the writes registered so far", TX)], ["Schema::read() after Transaction::with returned an error"])

prop("C03", "Reads inside a transaction show the graph with its own writes applied",
     "At every moment inside a transaction, looking up any identifier, asking whether it is there, and resolving a proxy "
     "made from the transaction answer as the committed graph would with all writes registered so far applied in order, "
     "those of enclosing transactions included.",
     ["inputs", "programs"], "every initial graph, every sequence of writes, every identifier looked up after each of them, at any nesting depth",
     "No test reads through a transaction; the answer depends on which of the writes so far hit the identifier and which came last.",
     [TX, PROXY],
     [("lookups search the log from its end before the enclosing view", TX)],
     [("ops", "the writes registered so far", TX)], ["Context as a Source: get, contains, node"])

prop("C04", "A nested transaction takes effect in its parent if, and only if, it commits",
     "A nested transaction starts from the view of the one it was opened in. If its closure succeeds, its writes become the parent's, "
     "after those the parent already had; if it fails, the parent's view and what it will commit are as if it had never run. "
     "While it is open nobody but itself sees its writes, and the graph changes only when the outermost transaction commits.",
     ["programs", "histories"], "every program of writes, commits, failures and nested transactions, siblings that are open at the same time included",
     "No test nests transactions; the combinations of levels, outcomes and colliding identifiers are unbounded.",
     [TX],
     [("a nested transaction has a log of its own, appended to its parent's on commit", TX), ("a nested view falls back to the enclosing one", TX)],
     [("ops", "each level's own writes", TX)], ["Context at every level", "Schema::read() at the end"])

prop("C05", "Concurrent transactions are atomic, isolated and lose no update",
     "When several threads run transactions, operations and direct accesses on one schema, each top-level transaction behaves as if it ran alone: "
     "others see all of its writes or none, what it reads stays what it read until it ends, and the final graph is that of some serial order of the "
     "committed ones. No thread hangs or panics.",
     ["schedules", "inputs"], "every interleaving of the threads' synchronisation steps within the stated number of preemptions, for every value read and written",
     "The tests are single-threaded; a lost update or a torn read needs a particular interleaving.",
     [TX, GUARD, SCHEMA, SAVE, DELETE],
     [("a transaction holds the graph's write lock from before its first read until its writes are applied", TX)],
     [("graph", "the nodes, behind a reader-writer lock", SCHEMA)], ["Schema::read(), Schema::write(), Transaction::with on several threads"])

prop("C06", "A panic inside a transaction discards it and leaves the schema usable",
     "If a transaction's closure, a trigger around an operation, or code holding direct access to the graph or to a resource panics, the panic reaches the caller and nothing "
     "of the panicking transaction is applied. Transactions that enclose it and catch the panic go on with their own writes only. The schema, its graph "
     "and its other resources remain readable and writable afterwards, by any thread.",
     ["crash_points", "inputs", "schedules"], "every level and point a panic can come from, whoever catches it, and every later access",
     "No test panics inside a transaction; poisoned locks and half-applied logs only show after one.",
     [TX, GUARD, RES, SAVE, DELETE],
     [("a poisoned lock is entered all the same", GUARD), ("writes are applied only after the closure has returned", TX)],
     [("graph", "the nodes, behind a lock that a panic poisons", SCHEMA)], ["std::panic::catch_unwind around Transaction::with, then Schema::read() and another transaction"])

prop("C07", "Saving runs the triggers around the write of the target, or changes nothing",
     "Saving a node runs every trigger scheduled before saves in order of registration, then writes the node as those triggers left it, then runs those scheduled after "
     "saves, which see the write. If any of them fails, the save fails with that error, later ones do not run and nothing is changed. Triggers of other "
     "operations do not run.",
     ["inputs", "configurations", "fault_sequences"], "every node, every initial graph and every set of triggers that succeed, fail, or change the node's identifier or payload",
     "The tests save nothing; order, failure and changes made by triggers combine.",
     [SAVE, TRIG, TX],
     [("one transaction spans the triggers and the write", SAVE)],
     [("target", "the node triggers share", TX)], ["Save::execute, what triggers see, Schema::read()"])

prop("C08", "Deleting runs the triggers around the removal, or changes nothing",
     "Deleting an identifier that is in the graph runs the triggers scheduled before deletes in order of registration, given the node about to go, removes that identifier's node and no other, and runs those scheduled after "
     "deletes, which no longer find it. If any of them fails, the delete fails with that error and nothing is changed. Deleting an identifier that is not in the graph "
     "reports that there was nothing to do, runs no trigger and changes nothing.",
     ["inputs", "configurations", "fault_sequences"], "every identifier, every initial graph and every set of triggers that succeed, fail, or change the node they are given",
     "The tests delete nothing; presence, order, failure and changes made by triggers combine.",
     [DELETE, TRIG, TX],
     [("one transaction spans the lookup, the triggers and the removal", DELETE)],
     [("target", "the node triggers share", TX)], ["Delete::execute, what triggers see, Schema::read()"])

prop("C09", "Exactly the triggers scheduled run, in order, up to the first failure",
     "Selecting a schedule and executing the selection runs exactly the triggers registered for that schedule, each once, in order of registration, with each of its arguments made from the current "
     "context and passed in its place. It stops at the first that fails, with that failure, and succeeds if none fails.",
     ["configurations", "inputs", "fault_sequences"], "every assignment of triggers to schedules, of outcomes to triggers, and of numbers of arguments from none to eight",
     "The only test runs one trigger under one schedule.",
     [TRIG, SCHEMA],
     [("triggers are kept per schedule type, in a list", TRIG)],
     [("triggers", "per schedule, the registered triggers", TRIG)], ["TriggerSelect::execute", "Save and Delete"])

prop("C10", "What triggers write is applied with the operation, or not at all",
     "Writes made by triggers in transactions they open, and by operations they execute in turn, become visible together with the operation they surround, when that is committed, and only then; if the operation fails "
     "or its enclosing transaction does, none of them is applied. A transaction a trigger opens and lets fail leaves no trace even if the operation succeeds.",
     ["configurations", "inputs", "fault_sequences"], "every set of triggers committing or failing nested writes, around a save or a delete, on its own or inside another transaction",
     "No test has a trigger that writes; atomicity across a cascade depends on which step fails.",
     [SAVE, DELETE, TRIG, TX],
     [("triggers get a context whose transactions nest in the operation's", TX)],
     [("ops", "the operation's log", TX)], ["Save::execute, Delete::execute, then Schema::read()"])

prop("C11", "All handles to a context's target share one value; other contexts do not",
     "Every handle to the target of one context shows the same node, and a change through any of them is seen through all, by later triggers and by the operation itself. "
     "A context has no target until it is given one, a nested context does not inherit its parent's, and giving a context or a handle a new target leaves older handles on theirs.",
     ["inputs", "histories"], "every sequence of changes through any of the handles, before and after targets are replaced, at any nesting",
     "No test changes a target; sharing shows only across handles and over several steps.",
     [TX, DEREF],
     [("a target is a shared, locked cell", TX)],
     [("target", "the shared cell", TX)], ["Target::with, with_mut, set; Context::target"])

prop("C12", "A resource is one shared value per type, the last registered",
     "Looking a resource up by type finds the value last registered under that very type, and nothing if there is none. All handles to it, "
     "whether from the schema, a transaction or a trigger, share that one value, so a change through any is seen through all. Resources of other types are unaffected.",
     ["configurations", "histories", "inputs"], "every sequence of registrations and accesses, over several types",
     "The tests register one or two types once and read them.",
     [RES, SCHEMA],
     [("resources are kept per type, behind a shared lock each", RES)],
     [("resources", "per type, the shared cell", RES)], ["Res::with, with_mut, exists"])

prop("C13", "Scoped access to several values is all or nothing, each in its place",
     "Accessing several resources and targets at once, to read or, if they are different ones, to write, calls the closure exactly once with every value in its place and returns its result, if all of them exist; if any is missing the closure is not called and nothing is "
     "returned. Either way, and also if the closure panics, no value remains locked afterwards.",
     ["configurations", "inputs"], "every combination of existing and missing values, for two to six values, in any position, of resources, targets of several contexts and types of a user's own",
     "The tests cover one combination of a pair.",
     [DEREF, RES, TX],
     [("tuples of guards resolve only if each of them does", DEREF)],
     [], ["with and with_mut on tuples"])

prop("C14", "A graph is a map from ids to nodes",
     "A graph holds, under each identifier, the node last inserted (or collected) with it and not removed since. Inserting returns the node it replaces, removing the node it "
     "removes, lookup and membership agree, and iterating visits every node exactly once, by ascending identifier.",
     ["histories", "inputs"], "every sequence of insertions and removals on an empty or collected graph, and every identifier looked up",
     "One test looks at successors in a fixed graph; none inserts over, removes or iterates.",
     [GRAPH],
     [("nodes are kept in an ordered map under their own identifier", GRAPH)],
     [("nodes", "the map", GRAPH)], ["Graph::insert, remove, get, contains, iteration"])

prop("C15", "A proxy stands for the node with its id and leads along its edges",
     "A proxy resolves to the node its source holds under its identifier and is virtual if there is none at the time of asking; once resolved it keeps what it resolved to, however many threads ask, and asks its source only once. Its successors of a type are one proxy for each "
     "edge of that type, in the order the node gives them, bearing the edge's identifier; a virtual node has none. This holds for any graph, cycles, self-loops, repeated and dangling "
     "edges included, and over what a transaction sees.",
     ["inputs", "histories", "schedules"], "every graph of the stated size with any edges, every walk over it, every change of the source between steps, and every interleaving of threads resolving one proxy",
     "One test looks at the successors of one node in a fixed graph.",
     [PROXY, GRAPH, TX],
     [("the node is looked up when first needed and kept", PROXY)],
     [("node", "the node, once looked up", PROXY)], ["NodeProxy::try_deref, is_virtual, successors, clone"])

prop("C16", "A lazy document is loaded when first needed, until found, and then kept",
     "A lazy document asks its repository for its identifier when its content is first needed and keeps what it found: it never asks again, never changes, and copies made later have it too. While "
     "the repository has none it resolves to nothing and asks again the next time; made from a document, it never asks. Threads that load it at the same time all get the document.",
     ["histories", "schedules", "inputs"], "every history of repository contents, loads and copies, and every interleaving of threads loading one document",
     "There is no test of lazy documents at all.",
     [LAZY],
     [("the document is kept in a cell that is set once", LAZY)],
     [("document", "the document, once loaded", LAZY)], ["LazyDocument::try_deref, id, clone"])

prop("C17", "An interval tree tells whether any of its intervals meets the one asked about",
     "Whatever intervals were inserted and deleted, in whatever order, asking an interval tree whether anything in it meets a given interval answers yes if, and only if, some interval in it has a point in common "
     "with it, end points included.",
     ["inputs", "histories"], "every multiset of intervals, order of insertion, and query, shared, equal and nested bounds included",
     "The tests query a few fixed intervals; a wrongly kept subtree maximum or a wrong comparison shows for particular shapes only.",
     [TREE, NODE, IVL],
     [("each node keeps the greatest upper bound of its subtree, by which the search is pruned", NODE)],
     [("max", "the greatest upper bound in a subtree", NODE)], ["IntervalSearchTree::intersects"])

prop("C18", "An interval tree visits exactly its intervals that meet the one asked about",
     "Whatever intervals were inserted and deleted, in whatever order, visiting the intersections of a given interval calls the closure once for each interval in the tree that has a point in common with it, "
     "equal intervals as often as they were inserted, and for no other.",
     ["inputs", "histories"], "every multiset of intervals, order of insertion, and query, shared, equal and nested bounds included",
     "The tests query a few fixed intervals; a pruned subtree that should have been visited shows for particular shapes only.",
     [TREE, NODE, IVL],
     [("each node keeps the greatest upper bound of its subtree, by which the search is pruned", NODE)],
     [("max", "the greatest upper bound in a subtree", NODE)], ["IntervalSearchTree::for_each_intersection"])

prop("C19", "Deleting from an interval tree removes one such interval and nothing else",
     "Deleting an interval that an interval tree holds removes exactly one interval equal to it, whatever the shape of the tree, and deleting one it does not hold removes nothing; in both cases it ends, and "
     "every later insertion, deletion and query is answered as for the remaining intervals.",
     ["histories", "inputs"], "every history of insertions and deletions, of intervals that are there or not, and every query after it",
     "The tests delete in one or two fixed trees; joining the subtrees of a deleted node depends on their shape.",
     [TREE, NODE],
     [("the subtrees of a deleted node are joined in its place", NODE)],
     [("max", "the greatest upper bound in a subtree", NODE)], ["IntervalSearchTree::delete, then queries"])

prop("C20", "Dates are ordered by their components, the most significant first",
     "Two dates compare as their components do at the most significant position where they differ: the first one of big-endian dates, the last one of little-endian dates. "
     "Equality, ordering and all comparison operators agree, and a date seen as an interval spans exactly itself.",
     ["inputs"], "every pair and triple of dates of one to four components, signed or not, in both orders of significance",
     "There is no test of dates at all.",
     [DATE],
     [("components are compared in order of significance", DATE)],
     [], ["Ord, PartialOrd, PartialEq and Interval of dates"])

prop("C21", "The interval index of a schema follows the intervals of its nodes",
     "With the interval plugin installed, saving a node puts its intervals in the shared index and deleting it takes them out, so that the index always holds exactly the intervals of the nodes in "
     "the graph.",
     ["histories", "inputs"], "every history of saves and deletes of nodes with any intervals",
     "The plugin is compiled by no build and reached by no test.",
     [PLUGIN],
     [("triggers around saves and deletes keep a resource in step", PLUGIN)],
     [], ["IntervalPlugin, through Save and Delete"])

prop("C22", "A document's content is that of the file it is named after",
     "In a local repository, the document with a relative identifier is the file at that path below the repository's directory, with a dot and the repository's extension appended, and no other; there is none if there is no such file, or no such directory. What is found has the identifier asked for. "
     "A listed document resolves to the bytes its own file holds when its content is first needed, and keeps them; while the file is away it resolves to nothing and looks again the next time. "
     "This holds for any names, dots in them included, and for extensions of several parts or with characters special to regular expressions.",
     ["inputs", "histories"], "every name of a file and every identifier within the stated length, several spellings of the directory, several extensions, and every history of changes to the files",
     "There is no test of plotline-cli at all; whether an identifier leads back to its file depends on where the dots are in both.",
     [REPO, DOC, LAZY],
     [("the file of an identifier is found by appending the extension", REPO), ("identifiers are the paths of files without it", REPO)],
     [("context", "the repository's directory", REPO), ("extension", "the extension of its files", REPO)],
     ["LocalDocumentRepository::find_by_id", "LocalDocumentRepository::all, then LazyDocument::try_deref"])

prop("C23", "The documents of a directory are its files with the extension, each once",
     "A local repository lists, exactly once, each visible file in its directory or below whose name ends in a dot and the extension, taken literally, under its path relative to the directory without that ending, and nothing else: no directory, and no "
     "hidden file (one with a path component that begins with a dot). A link to a file counts as a file; links to directories are not followed, and links to nothing and special files are no documents. What may not be read or entered keeps nothing else from being listed. Listing never fails or panics, whatever the extension, and lists nothing if there is no such directory. `plotline doc list` "
     "prints, one per line and in order, the identifiers of the documents in the working directory with extension md, or in the directory given by -C/--context with the one given by -e/--extension.",
     ["inputs"], "every tree of a few files, directories and links of any names within the stated length, several spellings of the directory, several extensions, and every placing of the options",
     "There is no test of plotline-cli at all; which entries match is decided by names nobody thought of.",
     [REPO, DOC, "plotline-cli/src/main.rs"],
     [("entries of the walk are filtered by name and kind", REPO), ("the command line decides the directory and the extension", "plotline-cli/src/main.rs")],
     [("context", "the repository's directory", REPO), ("extension", "the extension of its files", REPO)],
     ["LocalDocumentRepository::all", "the output of the program"])

prop("C24", "Each document command does what it says to the document named, or fails",
     "`doc ID save [CONTENT]` leaves in the graph the document with that identifier and that content (none: empty) and all others as they were; `doc ID delete` takes exactly the document with that identifier out, and fails, "
     "changing nothing, if there is none; both fail, changing nothing, without an identifier or if a trigger of the schema refuses, and print nothing. `doc list` prints the identifier of each document in the graph once, in order, and changes nothing. "
     "The program succeeds exactly when its command does.",
     ["programs", "inputs"], "every sequence of commands with any identifiers and contents over any files, and every command line of the program of the stated form",
     "There is no test of plotline-cli at all; commands act on a graph made from files through triggers, transactions and lazily loaded documents.",
     [DOC, "plotline-cli/src/main.rs", SAVE, DELETE],
     [("commands are operations in a transaction on the graph", DOC)],
     [("schema", "the graph of documents", DOC)],
     ["DocumentCli::execute, then Schema::read", "the output and exit status of the program"])


if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fd.write(json.dumps(p) + "\n")
