"""What is decided for each property, with which harnesses, within which bounds.

A level is a set of harness parameters (sizes), and `_preempt`, the number of preemptions of a
running thread. The first level of a run must be decided for the property to hold; the following
ones are explored as far as the budget goes, and the evidence says which were.
"""

CRATES = ["core", "ivl", "cli"]
# The crate whose native binary replays the harnesses of another.
REPLAY = {"cli": "clireplay"}

# base: for each mandatory level; total and level: for the optional ones. Seconds.
BUDGET = {
    "quick": dict(total=150, base=400, level=45, deadline=700, cross=200, samples=12),
    "thorough": dict(total=2400, base=1500, level=1500, deadline=6000, cross=2000, samples=40),
}

ASSUMPTIONS = [
    "rustc 1.99.1 and its LLVM IR (fat LTO, opt-level 2, overflow checks on): the code decided is the IR the "
    "optimiser hands to the code generator, with the standard library compiled in",
    "the symbolic executor (/verif/engine) and z3; sampled queries are asked to a second solver, and sampled paths "
    "are run natively and have to pass the same checks in the same order",
    "node identifiers and payloads are one byte wide: the code is generic over them and only compares, clones and moves them",
    "allocation succeeds; addresses are concrete and distinct",
]

THREADS = [
    "threads interleave at synchronisation operations (atomics, futex, thread-locals that are shared), sequentially "
    "consistent; at most the stated number of preemptions; data races are outside (no unsafe code in the repository)",
    "a schema is shared between threads by a wrapper of the harness, as dyn resources and triggers carry no Send or Sync bound",
]

FILES = [
    "the environment of plotline-cli is a model (harness/shim): a tree of files, directories, links and special files, the system calls that read it, the walker of "
    "the crate ignore over it (hidden names skipped, links shown and not followed; no ignore files), and the crate regex's matching of the patterns made; "
    "counterexamples and sampled paths are run over real files with the real crates",
]


def run(entry, what, quick, thorough=(), covers=("end",), **kw):
    return dict(entry=entry, what=what, quick=list(quick), thorough=list(thorough), covers=list(covers), **kw)


PA = ("present", "absent")
SAVE = ("done", "failed")
DELETE = ("done", "failed", "noop")

PLAN = {
    "C01": dict(
        title="A committed transaction applies all of its writes, in order",
        crate="core",
        runs=[
            run("h_commit", "a transaction of arbitrary saves and deletes over an arbitrary graph, then an arbitrary lookup",
                [dict(nodes=2, ops=3), dict(nodes=1, ops=2, rounds=2)], [dict(nodes=3, ops=3), dict(nodes=2, ops=4), dict(nodes=1, ops=5)], PA),
            run("h_commit_long", "many operations, with an arbitrary extra one among them, flat or nested", [dict(n=40), dict(n=150, slots=7), dict(n=250, slots=3)],
                [dict(n=80), dict(n=250, slots=12)]),
            run("h_commit_mixed", "many writes to few ids, with an arbitrary extra one among them", [dict(n=30, ids=7), dict(n=100, ids=11, slots=5), dict(n=250, ids=40, slots=3)],
                [dict(n=60, ids=16), dict(n=250, ids=100, slots=5)]),
            run("h_many", "many transactions, one with an arbitrary operation and outcome", [dict(n=10), dict(n=60, slots=4)], [dict(n=30), dict(n=200, slots=4)]),
            run("h_rich", "nodes that own memory, under textual identifiers", [dict(nodes=0, ops=1), dict(nodes=1, ops=1)], [dict(nodes=1, ops=2), dict(nodes=0, ops=3)]),
            run("h_kept", "contexts that are never let go of, in and around a nested transaction, committed or not", [dict(nodes=1, ops=1)], [dict(nodes=2, ops=1), dict(nodes=0, ops=2)], ("end", "kept inside", "kept outside")),
            run("h_nested", "any program of writes and nested transactions, with lookups after each", [dict(depth=2, steps=2)], [dict(depth=2, steps=3)]),
            run("h_chain", "writes at every level of a chain of nested transactions", [dict(depth=2), dict(depth=3)], [dict(depth=4)]),
            run("h_wide_commit", "a great many writes, one of them arbitrary, part of them nested or not, that commit or fail", [dict(n=300, slots=3), dict(n=1100, slots=2), dict(n=2100, ids=40, slots=2)], [dict(n=300, slots=20), dict(n=5000, slots=3)], ("committed", "failed")),
            run("h_wide_many", "a great many operations and transactions, one of them arbitrary", [dict(n=300, slots=3), dict(n=1100, slots=2)], [dict(n=300, slots=30), dict(n=5000, slots=2)]),
        ]),
    "C02": dict(
        title="A failed transaction changes nothing and returns its error",
        crate="core",
        runs=[
            run("h_rollback", "arbitrary writes, with an inner transaction committed, failed or absent, then a failure",
                [dict(nodes=2, ops=2), dict(nodes=2, ops=3)], [dict(nodes=3, ops=4), dict(nodes=2, ops=6)]),
            run("h_nested", "any program of writes and nested transactions, with lookups after each", [dict(depth=2, steps=2)], [dict(depth=2, steps=3)]),
            run("h_siblings", "contexts open side by side, none of which is committed", [dict(ops=2), dict(ops=3)], [dict(ops=4)]),
            run("h_rollback_long", "a failure after any number of many writes", [dict(n=80), dict(n=1000)], [dict(n=250), dict(n=5000)]),
            run("h_many", "many transactions, one with an arbitrary operation and outcome", [dict(n=10), dict(n=60, slots=4)], [dict(n=30), dict(n=200, slots=4)]),
            run("h_kept", "contexts that are never let go of, in and around a nested transaction, committed or not", [dict(nodes=1, ops=1)], [dict(nodes=2, ops=1), dict(nodes=0, ops=2)], ("end", "kept inside", "kept outside")),
            run("h_deep", "a deep chain of nested transactions, one of which fails or panics, and one of which carries on", [dict(depth=4), dict(depth=16, slots=3)],
                [dict(depth=8), dict(depth=60, slots=2)], ("committed", "failed")),
            run("h_wide_commit", "a great many writes, one of them arbitrary, part of them nested or not, that commit or fail", [dict(n=300, ids=40, slots=3), dict(n=1100, slots=2)], [dict(n=1100, ids=40, slots=10)], ("committed", "failed")),
        ]),
    "C03": dict(
        title="Reads inside a transaction show the graph with its own writes applied",
        crate="core",
        runs=[
            run("h_overlay", "lookups and proxies after each of arbitrary writes", [dict(nodes=2, ops=4), dict(nodes=2, ops=5)],
                [dict(nodes=3, ops=6), dict(nodes=2, ops=7)], PA),
            run("h_overlay_long", "many writes to two ids", [dict(n=100), dict(n=1000)], [dict(n=250), dict(n=4000)]),
            run("h_rich", "nodes that own memory, under textual identifiers", [dict(nodes=0, ops=1), dict(nodes=1, ops=1)], [dict(nodes=1, ops=2), dict(nodes=0, ops=3)]),
            run("h_chain", "lookups at every level of a chain of nested transactions", [dict(depth=2), dict(depth=1, after=1), dict(depth=3)], [dict(depth=4)]),
            run("h_nested", "any program of writes and nested transactions, with lookups after each", [dict(depth=2, steps=2)], [dict(depth=2, steps=3)]),
            run("h_siblings", "writes to a parent and two open nested transactions, in any order", [dict(ops=3)], [dict(ops=5)]),
            run("h_wide_overlay", "lookups among a great many writes, part of them nested or not", [dict(n=300, slots=3), dict(n=1100, slots=2)], [dict(n=300, slots=15), dict(n=5000, slots=2)]),
        ]),
    "C04": dict(
        title="A nested transaction takes effect in its parent if, and only if, it commits",
        crate="core",
        runs=[
            run("h_nested", "an arbitrary program of writes, commits, failures and nested transactions",
                [dict(fuel=4, depth=2)], [dict(fuel=5, depth=2), dict(fuel=5, depth=3), dict(nodes=0, fuel=6, depth=2)],
                ("end", "inner commit", "inner failure")),
            run("h_siblings", "writes to a parent and two open nested transactions, in any order", [dict(ops=4)], [dict(ops=5), dict(ops=6)]),
            run("h_interleaved_siblings", "a sibling committing or failing while another is open", [dict()]),
            run("h_chain", "a chain of nested transactions, all of which commit", [dict(depth=2), dict(depth=3)], [dict(depth=4)]),
            run("h_kept", "contexts that are never let go of, in and around a nested transaction, committed or not", [dict(nodes=1, ops=1)], [dict(nodes=2, ops=1), dict(nodes=0, ops=2)], ("end", "kept inside", "kept outside")),
            run("h_deep", "a deep chain, one of which fails or panics, and one of which carries on", [dict(depth=4), dict(depth=6), dict(depth=16, slots=3)],
                [dict(depth=9), dict(depth=24, slots=5), dict(depth=60, slots=2)], ("committed", "failed")),
            run("h_wide_deep", "a very deep chain, one level of which fails and one of which carries on", [dict(n=20), dict(n=70, slots=4), dict(n=300, slots=2)], [dict(n=64), dict(n=600, slots=3)], ("committed", "failed")),
        ]),
    "C05": dict(
        title="Concurrent transactions are atomic, isolated and lose no update",
        crate="core",
        assumptions=THREADS,
        runs=[
            run("h_thread_atomic", "a reader against a transaction writing two nodes", [dict(nested=1, _preempt=2), dict(nested=1, _preempt=3)],
                [dict(nested=1, _preempt=4), dict(nested=1, _preempt=5)], threads=True),
            run("h_thread_rmw", "transactions that read, then write what they read plus something",
                [dict(threads=2, _preempt=2), dict(threads=2, _preempt=3)],
                [dict(threads=2, _preempt=4), dict(threads=3, _preempt=1), dict(threads=3, _preempt=2)], threads=True),
            run("h_thread_operations", "a save against a delete of the same node, with a reader",
                [dict(_preempt=2), dict(_preempt=3)], [dict(_preempt=4), dict(_preempt=5)], ("save first", "delete first"), threads=True),
            run("h_thread_guards", "a transaction against an explicit read or write access", [dict(_preempt=2), dict(_preempt=3)],
                [dict(_preempt=4), dict(_preempt=5)], threads=True),
            run("h_thread_isolated", "a transaction that reads again and again while another thread writes", [dict(_preempt=1), dict(_preempt=2)],
                [dict(_preempt=3)], threads=True),
            run("h_thread_skew", "transactions that each read what the other writes", [dict(threads=2, _preempt=2), dict(threads=2, _preempt=3),
                dict(threads=2, reader=1, _preempt=1), dict(threads=3, _preempt=1)],
                [dict(threads=2, _preempt=4), dict(threads=2, reader=1, _preempt=2), dict(threads=3, _preempt=2)], threads=True),
        ]),
    "C06": dict(
        title="A panic inside a transaction discards it and leaves the schema usable",
        crate="core",
        assumptions=THREADS,
        runs=[
            run("h_panics", "a panic at any level, before or after the writes, caught at any level", [dict(depth=1, nodes=1), dict(depth=1, nodes=1, elsewhere=1)],
                [dict(depth=2, nodes=0), dict(depth=2, nodes=1)], ("caught inside", "panicked")),
            run("h_deep", "a panic at some depth, caught at another or not at all", [dict(depth=4), dict(depth=6)], [dict(depth=9), dict(depth=24, slots=5)],
                ("committed", "failed")),
            run("h_panic_in_guard", "a panic while the graph is accessed for reading or writing", [dict()]),
            run("h_res_panics", "a panic while a resource is accessed", [dict()]),
            run("h_save", "a panic in a trigger around a save", [dict(nb=1, na=1, fx=8, inside=1)], [dict(nb=2, na=1, fx=8)],
                ("done", "failed", "panicked", "inside")),
            run("h_delete", "a panic in a trigger around a delete", [dict(nb=1, na=1, fx=8, inside=1)], [dict(nb=2, na=1, fx=8)],
                ("done", "failed", "noop", "panicked", "inside")),
            run("h_save", "the operation a second time, after it was done, failed or panicked", [dict(nb=1, na=1, fx=8, again=1), dict(nb=1, na=1, fx=8, inside=1, again=1)], [dict(nb=2, na=1, fx=8, again=1)], ("done", "failed", "panicked", "again")),
            run("h_delete", "the operation a second time, after it was done, failed or panicked", [dict(nb=1, na=1, fx=8, again=1), dict(nb=1, na=1, fx=8, inside=1, again=1)], [dict(nb=2, na=1, fx=8, again=1)], ("done", "failed", "noop", "panicked", "again")),
            run("h_thread_panics", "a panicking transaction against another thread's", [dict(_preempt=2), dict(_preempt=3)],
                [dict(_preempt=4), dict(_preempt=5)], threads=True),
        ]),
    "C07": dict(
        title="Saving runs the triggers around the write of the target, or changes nothing",
        crate="core",
        runs=[
            run("h_save", "triggers that fail or change the target's payload or id, before and after",
                [dict(nb=2, na=1, fx=4), dict(nb=1, na=2, fx=4), dict(nb=2, na=2, fx=4), dict(nodes=2, nb=2, na=1, fx=4), dict(nb=3, na=3, fx=3)],
                [dict(nodes=2, nb=3, na=3, fx=4), dict(nodes=3, nb=2, na=2, fx=4)], SAVE),
            run("h_save", "triggers that write as well, the node itself included", [dict(nb=1, na=1, fx=7)], [dict(nb=2, na=1, fx=7), dict(nb=1, na=2, fx=7)], ("done", "failed")),
            run("h_save", "triggers before only, after only, or none", [dict(nb=0, na=2, fx=4), dict(nb=2, na=0, fx=4), dict(nb=0, na=0, fx=4)],
                [], ("done", "failed")),
            run("h_save", "within an enclosing transaction", [dict(nb=1, na=1, fx=4, inside=1)], [dict(nodes=2, nb=2, na=1, fx=4, inside=1)],
                ("done", "failed", "inside")),
            run("h_save", "the operation a second time, after it was done, failed or panicked", [dict(nb=1, na=1, fx=5, again=1)], [dict(nb=2, na=1, fx=5, again=1)], ("done", "failed", "again")),
            run("h_save_after_panic", "a trigger that survives a panic of its own while it changes the target", [dict()], [dict(nodes=3)], ("end", "saved")),
            run("h_sequence", "any sequence of saves and deletes", [dict(ops=3), dict(ops=4)], [dict(nodes=2, ops=4), dict(nodes=0, ops=6)]),
            run("h_sequence_long", "many saves and deletes, one of them arbitrary", [dict(n=12), dict(n=60, slots=4)], [dict(n=40), dict(n=200, slots=4)]),
            run("h_save_long", "many triggers that change the target and write, one of which may fail", [dict(n=8), dict(n=40), dict(n=130, slots=4)],
                [dict(n=60), dict(n=250, slots=8)], ("done", "failed")),
            run("h_spread", "saves that trigger further saves, deep", [dict(n=6), dict(n=10)], [dict(n=16), dict(n=60, slots=6)],
                ("all", "some", "none")),
            run("h_wide_many", "a great many operations and transactions, one of them arbitrary", [dict(n=300, slots=3)], [dict(n=1100, slots=4)]),
        ]),
    "C08": dict(
        title="Deleting runs the triggers around the removal, or changes nothing",
        crate="core",
        runs=[
            run("h_delete", "triggers that fail or change the target's payload or id, before and after",
                [dict(nb=2, na=1, fx=4), dict(nb=1, na=2, fx=4), dict(nb=2, na=2, fx=4), dict(nodes=2, nb=2, na=1, fx=4), dict(nb=3, na=3, fx=3)],
                [dict(nodes=2, nb=3, na=3, fx=4), dict(nodes=3, nb=2, na=2, fx=4)], DELETE),
            run("h_delete", "triggers that write as well, the node itself included", [dict(nb=1, na=1, fx=7)], [dict(nb=2, na=1, fx=7), dict(nb=1, na=2, fx=7)], DELETE),
            run("h_delete", "triggers before only, after only, or none", [dict(nb=0, na=2, fx=4), dict(nb=2, na=0, fx=4), dict(nb=0, na=0, fx=4)],
                [], DELETE),
            run("h_delete", "within an enclosing transaction", [dict(nb=1, na=1, fx=4, inside=1)], [dict(nodes=2, nb=2, na=1, fx=4, inside=1)],
                ("done", "failed", "noop", "inside")),
            run("h_delete", "the operation a second time, after it was done, failed or panicked", [dict(nb=1, na=1, fx=5, again=1)], [dict(nb=2, na=1, fx=5, again=1)], ("done", "failed", "noop", "again")),
            run("h_delete_missing", "deleting what is, or is not, there", [dict(nodes=4)], [dict(nodes=7)], ("missing", "present")),
            run("h_sequence", "any sequence of saves and deletes", [dict(ops=3), dict(ops=4)], [dict(nodes=2, ops=4), dict(nodes=0, ops=6)]),
            run("h_sequence_long", "many saves and deletes, one of them arbitrary", [dict(n=12), dict(n=60, slots=4)], [dict(n=40), dict(n=200, slots=4)]),
            run("h_save_long", "many triggers that change the target and write, one of which may fail", [dict(n=8), dict(n=40), dict(n=130, slots=4)],
                [dict(n=60), dict(n=250, slots=8)], ("done", "failed")),
            run("h_cascade", "deletes that trigger further deletes", [dict(nodes=3)], [dict(nodes=5)], ("done", "failed")),
            run("h_wide_many", "a great many operations and transactions, one of them arbitrary", [dict(n=300, slots=3)], [dict(n=1100, slots=4)]),
        ]),
    "C09": dict(
        title="Exactly the triggers scheduled run, in order, up to the first failure",
        crate="core",
        runs=[
            run("h_dispatch", "triggers of arbitrary schedule, outcome and number of arguments", [dict(triggers=3, again=1), dict(triggers=4)],
                [dict(triggers=4, again=1), dict(triggers=5), dict(triggers=6)], ("failed", "many", "none")),
            run("h_schedules", "schedules alike in name or size, triggers that are no functions or run another schedule", [dict(n=2), dict(n=3)], [dict(n=4)],
                ("nested", "none", "some")),
            run("h_dispatch_long", "many triggers, one of another schedule, one failing", [dict(n=40), dict(n=130, slots=6), dict(n=250, slots=3)],
                [dict(n=80), dict(n=250, slots=16)]),
            run("h_install", "triggers registered by plugins", [dict(n=3), dict(n=6)], [dict(n=9)]),
            run("h_save", "the triggers of a save", [dict(nb=2, na=2, fx=2)], [dict(nb=4, na=4, fx=2)], SAVE),
            run("h_delete", "the triggers of a delete", [dict(nb=2, na=2, fx=2)], [dict(nb=4, na=4, fx=2)], DELETE),
            run("h_spread", "saves that trigger further saves, deep", [dict(n=6), dict(n=10)], [dict(n=16), dict(n=60, slots=6)],
                ("all", "some", "none")),
            run("h_cascade", "deletes that trigger further deletes", [dict(nodes=3)], [dict(nodes=5)], ("done", "failed")),
            run("h_wide_dispatch", "a great many triggers that write, one of another schedule, one failing", [dict(n=300, slots=4), dict(n=1100, slots=3)], [dict(n=300, slots=40), dict(n=3000, slots=3)], ("done", "failed")),
        ]),
    "C10": dict(
        title="What triggers write is applied with the operation, or not at all",
        crate="core",
        runs=[
            run("h_save", "triggers committing or undoing nested writes, around a save", [dict(nb=1, na=1, fx=7, inside=1)],
                [dict(nb=2, na=1, fx=7), dict(nb=1, na=2, fx=7), dict(nb=2, na=1, fx=7, inside=1)], ("done", "failed", "inside")),
            run("h_delete", "triggers committing or undoing nested writes, around a delete", [dict(nb=1, na=1, fx=7, inside=1)],
                [dict(nb=2, na=1, fx=7), dict(nb=1, na=2, fx=7), dict(nb=2, na=1, fx=7, inside=1)], ("done", "failed", "noop", "inside")),
            run("h_cascade", "triggers running further deletes", [dict(nodes=3)], [dict(nodes=5)], ("done", "failed")),
            run("h_spread", "saves that trigger further saves, deep", [dict(n=6), dict(n=10), dict(n=30, slots=4)], [dict(n=16), dict(n=60, slots=6)],
                ("all", "some", "none")),
            run("h_save_long", "many triggers that change the target and write, one of which may fail", [dict(n=8), dict(n=40)],
                [dict(n=60), dict(n=250, slots=8)], ("done", "failed")),
            run("h_wide_dispatch", "a great many triggers that write, one of another schedule, one failing", [dict(n=300, slots=4), dict(n=1100, slots=3)], [dict(n=300, slots=40), dict(n=3000, slots=3)], ("done", "failed")),
        ]),
    "C11": dict(
        title="All handles to a context's target share one value; other contexts do not",
        crate="core",
        runs=[
            run("h_target", "changes through any handle, nested contexts, replaced targets", [dict(ops=3), dict(ops=5)], [dict(ops=7)]),
            run("h_save", "changes passed from trigger to trigger and to the save", [dict(nb=2, na=2, fx=4)], [dict(nb=3, na=3, fx=4)], SAVE),
            run("h_delete", "changes passed from trigger to trigger around a delete", [dict(nb=2, na=2, fx=4)], [dict(nb=3, na=3, fx=4)], DELETE),
        ]),
    "C12": dict(
        title="A resource is one shared value per type, the last registered",
        crate="core",
        runs=[
            run("h_registry", "any sequence of registrations of four types", [dict(regs=5), dict(regs=7)], [dict(regs=9)], ("all", "some missing")),
            run("h_registry_long", "sixteen types, any of them registered again", [dict()]),
            run("h_types", "types of the same name, empty types, boxes and the like", [dict()]),
            run("h_install", "resources registered by plugins", [dict(n=3), dict(n=6)], [dict(n=9)]),
            run("h_sharing", "changes from outside, transactions, triggers and nested operations", [dict()]),
            run("h_res_panics", "accesses after a panic", [dict()]),
        ]),
    "C13": dict(
        title="Scoped access to several values is all or nothing, each in its place",
        crate="core",
        assumptions=THREADS,
        runs=[
            run("h_tuples", "two to six values, any of which may be missing", [dict()], [], ("all", "missing")),
            run("h_mixed", "a target and a resource, in both orders", [dict()]),
            run("h_spied", "values of a user's own, counting locks, one missing or not, a panic or not", [dict()], [], ("all", "missing")),
            run("h_places", "targets of several contexts and resources, one of them in two places, a panic or not", [dict()], [], ("end", "panicked")),
            run("h_thread_resources", "threads that access the same resources and target, alone and together", [dict(threads=2, _preempt=2), dict(threads=2, _preempt=3)],
                [dict(threads=2, _preempt=4), dict(threads=3, _preempt=1), dict(threads=3, _preempt=2)], threads=True),
        ]),
    "C14": dict(
        title="A graph is a map from ids to nodes",
        crate="core",
        runs=[
            run("h_graph_map", "collected or empty, then any sequence of insertions and removals",
                [dict(ops=3, nodes=1), dict(ops=3, nodes=2), dict(ops=2, nodes=3)], [dict(ops=4, nodes=1), dict(ops=4, nodes=2), dict(ops=3, nodes=4)],
                PA + ("collected",)),
            run("h_graph_long", "many nodes inserted in any rotation, one replaced, one removed", [dict(n=8), dict(n=24, slots=6), dict(n=60, slots=2), dict(n=14)],
                [dict(n=24), dict(n=60, slots=8), dict(n=200, slots=3)]),
            run("h_graph_ids", "identifiers that are signed, pairs, lists, or ordered the other way round", [dict(ops=2), dict(ops=3)], [dict(ops=4)]),
            run("h_wide_graph", "a great many nodes, identifiers repeated, collected, chained, or inserted and removed", [dict(n=300, slots=3), dict(n=1100, ids=400, slots=2)], [dict(n=300, ids=100, slots=12), dict(n=5000, ids=1500, slots=2)], ("collected", "chained", "changed")),
        ]),
    "C15": dict(
        title="A proxy stands for the node with its id and leads along its edges",
        crate="core",
        assumptions=THREADS,
        runs=[
            run("h_traverse", "arbitrary nodes and edges, cycles and dangling edges included",
                [dict(nodes=3, links=1, depth=2), dict(nodes=3, links=2, depth=1), dict(nodes=3, links=1, depth=3), dict(nodes=2, links=2, depth=2)],
                [dict(nodes=3, links=2, depth=2), dict(nodes=4, links=1, depth=4)], ("successors", "virtual")),
            run("h_traverse_ctx", "the same over what a transaction sees", [dict(links=1, depth=1), dict(links=2, depth=2)], [dict(links=2, depth=3)],
                ("successors", "virtual")),
            run("h_traverse_long", "a node with many edges, and a long walk", [dict(n=12), dict(n=60, slots=3)], [dict(n=40), dict(n=200, slots=3)],
                ("successors", "virtual")),
            run("h_proxy_once", "a source that changes over time", [dict(ops=4), dict(ops=5)], [dict(ops=6)], ("copied", "resolved")),
            run("h_thread_proxy", "threads resolving one proxy", [dict(threads=2, _preempt=2), dict(threads=3, _preempt=3)],
                [dict(threads=3, _preempt=4), dict(threads=3, _preempt=5)], threads=True),
            run("h_wide_edges", "nodes with a great many edges", [dict(n=300, slots=3), dict(n=1100, slots=3)], [dict(n=300, slots=40), dict(n=5000, slots=3)]),
        ]),
    "C16": dict(
        title="A lazy document is loaded when first needed, until found, and then kept",
        crate="core",
        assumptions=THREADS,
        runs=[
            run("h_lazy", "a repository that changes over time, copies, failed loads", [dict(ops=4)], [dict(ops=5), dict(ops=6)],
                ("copied", "loaded", "asked again")),
            run("h_lazy_long", "a document asked for many times", [dict(n=20), dict(n=150, slots=8)], [dict(n=100)], ("there", "missing")),
            run("h_lazy_nodes", "documents moved in and out of a graph", [dict()]),
            run("h_thread_lazy", "threads loading one document", [dict(threads=2, _preempt=2), dict(threads=3, _preempt=3)],
                [dict(threads=3, _preempt=4), dict(threads=3, _preempt=5)], ("there", "missing"), threads=True),
        ]),
    "C17": dict(
        title="An interval tree tells whether any of its intervals meets the one asked about",
        crate="ivl",
        runs=[
            run("h_query", "any intervals in any order, then any query", [dict(n=3, tags=0), dict(n=3), dict(n=0, tags=0)], [dict(n=4, tags=0), dict(n=5, tags=0)], ("hit", "miss")),
            run("h_history", "any history of insertions and deletions, then any query", [dict(ops=3), dict(ops=4)], [dict(ops=4, tags=0), dict(ops=5)],
                ("hit", "miss", "deleted", "nothing to delete")),
            run("h_query_long", "many intervals and an arbitrary one, then any query", [dict(n=8)], [dict(n=12), dict(n=16)], ("hit", "miss")),
            run("h_bounds", "bounds that are signed, wide, pairs or all the same, and intervals that own memory", [dict(n=2, dels=0), dict(n=2, dels=1)],
                [dict(n=3, dels=0), dict(n=3, dels=1)], ("hit", "miss")),
            run("h_big", "a large tree of some shape, deletions, an arbitrary interval or not, any query",
                [dict(n=20, extra=0), dict(n=100, extra=0, dels=1, slots=1, point=1), dict(n=10, extra=1), dict(n=20, extra=0, dels=3, slots=3, point=1)],
                [dict(n=40, extra=0, dels=1, slots=3), dict(n=200, extra=0, dels=1, slots=1, point=1), dict(n=30, extra=1, dels=1, slots=2, point=1)], ("hit", "miss")),
            run("h_wide", "a great many intervals, a run of them deleted, some put back, and a short query anywhere", [dict(n=300, slots=2, dels=10), dict(n=1100, slots=1, dels=6)], [dict(n=300, slots=8), dict(n=1100, slots=4, dels=100)], ("hit", "miss")),
        ]),
    "C18": dict(
        title="An interval tree visits exactly its intervals that meet the one asked about",
        crate="ivl",
        runs=[
            run("h_query", "any intervals in any order, then any query", [dict(n=3), dict(n=3, tags=0), dict(n=0, tags=0)], [dict(n=4), dict(n=4, tags=0)], ("hit", "miss")),
            run("h_history", "any history of insertions and deletions, then any query", [dict(ops=3), dict(ops=4)], [dict(ops=4, tags=0), dict(ops=5)],
                ("hit", "miss", "deleted", "nothing to delete")),
            run("h_query_long", "many intervals and an arbitrary one, then any query", [dict(n=8)], [dict(n=12), dict(n=16)], ("hit", "miss")),
            run("h_bounds", "bounds that are signed, wide, pairs or all the same, and intervals that own memory", [dict(n=2, dels=0), dict(n=2, dels=1)],
                [dict(n=3, dels=0), dict(n=3, dels=1)], ("hit", "miss")),
            run("h_big", "a large tree of some shape, deletions, an arbitrary interval or not, any query",
                [dict(n=20, extra=0), dict(n=100, extra=0, dels=1, slots=1, point=1), dict(n=10, extra=1), dict(n=20, extra=0, dels=3, slots=3, point=1)],
                [dict(n=40, extra=0, dels=1, slots=3), dict(n=200, extra=0, dels=1, slots=1, point=1), dict(n=30, extra=1, dels=1, slots=2, point=1)], ("hit", "miss")),
            run("h_wide", "a great many intervals, a run of them deleted, some put back, and a short query anywhere", [dict(n=300, slots=2, dels=10), dict(n=1100, slots=1, dels=6)], [dict(n=300, slots=8), dict(n=1100, slots=4, dels=100)], ("hit", "miss")),
        ]),
    "C19": dict(
        title="Deleting from an interval tree removes one such interval and nothing else",
        crate="ivl",
        runs=[
            run("h_drain", "any intervals, then any of them deleted", [dict(n=3, dels=2), dict(n=3, dels=1, tags=0), dict(n=3, dels=3)],
                [dict(n=4, dels=2), dict(n=4, dels=3, tags=0)], ("hit", "miss")),
            run("h_history", "any history of insertions and deletions, of what is there or not", [dict(ops=3), dict(ops=4)],
                [dict(ops=4, tags=0), dict(ops=5)], ("hit", "miss", "deleted", "nothing to delete")),
            run("h_delete_long", "many intervals, any deleted, one more inserted or not", [dict(n=6, dels=1), dict(n=7, dels=2)],
                [dict(n=10, dels=2), dict(n=12, dels=2)], ("hit", "miss")),
            run("h_bounds", "bounds that are signed, wide, pairs or all the same, and intervals that own memory", [dict(n=2, dels=1)],
                [dict(n=3, dels=1), dict(n=3, dels=2)], ("hit", "miss")),
            run("h_big", "a large tree of some shape, deletions, an arbitrary interval or not, any query",
                [dict(n=20, extra=0, dels=2, slots=3, point=1), dict(n=100, extra=0, dels=2, slots=1, point=1), dict(n=6, extra=1, dels=1)],
                [dict(n=40, extra=0, dels=3, slots=3, point=1), dict(n=200, extra=0, dels=2, slots=1, point=1), dict(n=30, extra=1, dels=1, slots=2, point=1)],
                ("hit", "miss")),
            run("h_empty", "a large tree emptied one by one", [dict(n=8), dict(n=30, slots=6, point=1)], [dict(n=14), dict(n=40, slots=20, point=1)], ("hit", "miss")),
            run("h_wide", "a great many intervals, a run of them deleted, some put back, and a short query anywhere", [dict(n=300, slots=3, dels=10), dict(n=1100, slots=1, dels=6)], [dict(n=300, slots=8), dict(n=1100, slots=4, dels=100)], ("hit", "miss")),
        ]),
    "C20": dict(
        title="Dates are ordered by their components, the most significant first",
        crate="ivl",
        assumptions=["dates have no public constructor: the harness makes one by reinterpreting an array of components, after checking the sizes agree"],
        runs=[
            run("h_date_order", "dates of one to four signed or unsigned one-byte components, in either order", [dict()]),
            run("h_date_components", "components of other types and widths, none to five of them", [dict()]),
            run("h_date_laws", "any three dates", [dict()]),
            run("h_date_interval", "a date as an interval", [dict()]),
        ]),
    "C22": dict(
        title="A document's content is that of the file it is named after",
        crate="cli",
        assumptions=FILES,
        runs=[
            run("h_contents", "files that change, go away and come back", [dict(steps=4, anew=1), dict(steps=4), dict(steps=3, contexts=8), dict(steps=4, long=8193), dict(steps=5)], [dict(steps=5, anew=1), dict(steps=6), dict(steps=7), dict(steps=6, anew=1)],
                ("there", "missing", "away")),
            run("h_lookup", "any identifier, with a file of any name there",
                [dict(name=5, exts=8), dict(name=4, exts=4, contexts=8, asked=7, kinds=5), dict(name=4, exts=1, kinds=5, long=100), dict(name=4, exts=8, any=1), dict(name=3, exts=2, long=9000), dict(name=6, exts=6)],
                [dict(name=8, exts=8, contexts=8, asked=7, kinds=5), dict(name=8, exts=8, any=1, contexts=8, asked=7, kinds=5), dict(name=3, exts=8, long=200000)], ("found", "missing")),
            run("h_listing", "what is listed, with files, directories, links and pipes of any names",
                [dict(nodes=1, name=6, exts=8, kinds=8, contexts=8), dict(nodes=1, name=3, exts=1, kinds=8, contexts=2, long=100), dict(nodes=1, name=14, exts=4, kinds=8, contexts=2), dict(nodes=1, name=2, exts=8, any=1, kinds=1), dict(nodes=1, name=4, exts=1, contexts=1, long=70000),
                 dict(nodes=2, name=4, contexts=1, exts=1, kinds=3)],
                [dict(nodes=2, name=4, contexts=4, exts=4, kinds=4), dict(nodes=1, name=4, exts=8, any=1, kinds=1), dict(nodes=3, name=3, contexts=1, exts=2, kinds=2)],
                ("document", "none", "another name")),
            run("h_listing_wide", "a great many files, side by side or one below the other, an odd entry among them", [dict(n=300), dict(n=60, deep=1)], [dict(n=1100), dict(n=150, deep=1)], ("listed", "changed", "printed")),
            run("h_listing_long", "many files, some deep down", [dict(wide=5, depth=3), dict(wide=2, depth=8, name=2)], [dict(wide=40, depth=6), dict(wide=3, depth=30)], ("document",)),
            run("h_absent", "a directory that is not there, or is none, until it is", [dict(name=3)], [dict(name=6)], ("nothing", "later")),
        ]),
    "C23": dict(
        title="The documents of a directory are its files with the extension, each once",
        crate="cli",
        assumptions=FILES,
        runs=[
            run("h_listing", "files, directories, links and pipes of any names, in the context or below it",
                [dict(nodes=1, name=6, exts=8, kinds=8, contexts=8), dict(nodes=1, name=3, exts=1, kinds=8, contexts=2, long=100), dict(nodes=1, name=14, exts=4, kinds=8, contexts=2), dict(nodes=1, name=2, exts=8, any=1, kinds=8), dict(nodes=2, name=4, contexts=1, exts=1, kinds=8),
                 dict(nodes=2, name=3, contexts=2, exts=2, kinds=4), dict(closed=1, nodes=1, name=4, exts=2, kinds=3, contexts=2)],
                [dict(nodes=2, name=4, contexts=4, exts=4, kinds=4), dict(nodes=2, name=5, contexts=2, exts=2), dict(nodes=1, name=4, exts=8, any=1, kinds=1),
                 dict(nodes=3, name=3, contexts=1, exts=2), dict(closed=1, nodes=2, name=4, exts=1, kinds=2, contexts=1)],
                ("document", "none", "another name")),
            run("h_listing_wide", "a great many files, side by side or one below the other, an odd entry among them", [dict(n=300), dict(n=60, deep=1)], [dict(n=1100), dict(n=150, deep=1)], ("listed", "changed", "printed")),
            run("h_listing_long", "many files, some deep down", [dict(wide=5, depth=3), dict(wide=2, depth=8, name=2)], [dict(wide=40, depth=6), dict(wide=3, depth=30)], ("document",)),
            run("h_absent", "a directory that is not there, or is none, until it is", [dict(name=3)], [dict(name=6)], ("nothing", "later")),
            run("h_absent", "the program, of a directory that is not there", [dict(program=1)], [dict(program=1, name=2)], ("list", "delete", "save")),
            run("h_names", "documents of odd names, as the program lists them", [dict(), dict(files=1, name=2, tails=6)], [dict(tails=6), dict(name=2)], ("listed",)),
            run("h_program", "what the program lists, of which directory and extension", [dict(files=1), dict(files=1, opts=7, ends=8, places=6), dict(files=2, opts=4, ends=3)], [dict(files=2, opts=7, ends=8, places=6), dict(files=3)], ("list",)),
        ]),
    "C24": dict(
        title="Each document command does what it says to the document named, or fails",
        crate="cli",
        assumptions=FILES,
        runs=[
            run("h_commands", "any sequence of commands over any files", [dict(files=1, cmds=2), dict(files=2, cmds=1, odd=5), dict(files=1, cmds=1, bodies=11), dict(files=1, cmds=1, tails=7, bodies=7), dict(files=2, cmds=2), dict(files=2, cmds=1, len=2), dict(files=1, cmds=1, len=3),
                 dict(files=1, cmds=2, subs=2), dict(files=2, cmds=1, subs=2), dict(files=1, cmds=3), dict(files=1, cmds=1, contexts=8), dict(files=1, cmds=1, tails=8), dict(files=2, cmds=1, tails=4)],
                [dict(files=2, cmds=2, subs=2), dict(files=1, cmds=2, tails=8), dict(files=2, cmds=1, tails=8), dict(files=2, cmds=3), dict(files=1, cmds=2, len=2), dict(files=3, cmds=2), dict(files=1, cmds=4)],
                ("list", "deleted", "nothing to delete", "saved", "no id")),
            run("h_commands", "commands that a trigger of the schema may refuse, or over files that are gone", [dict(files=1, cmds=1, triggers=5, away=1)],
                [dict(files=1, cmds=2, triggers=5, away=1), dict(files=2, cmds=2, triggers=5, away=1)],
                ("list", "deleted", "nothing to delete", "saved", "refused", "away")),
            run("h_absent", "the program, of a directory that is not there", [dict(program=1)], [dict(program=1, name=2)], ("list", "delete", "save")),
            run("h_program", "the program, from its command line to its output", [dict(files=1), dict(files=1, subs=2), dict(files=1, len=2, opts=4, ends=3), dict(files=1, tails=8), dict(files=1, bodies=11), dict(files=2)], [dict(files=1, opts=7, ends=8, places=6), dict(files=2, len=3), dict(files=3)],
                ("list", "deleted", "nothing to delete", "saved", "no id")),
        ]),
}
