"""Regenerates /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

K = "curver/kernel/"
add("C01", "Threads sharing objects get single-threaded answers",
    "When several threads query the same surfaces, curves, arcs, laminations, mapping classes, subgroups or groups, every query gives exactly the answer it gives when it runs alone, whatever the interleaving. No query fails with an error it does not raise when run alone, and no query is left blocked or running forever. After the threads have finished, further queries on the shared objects still give the right answers.",
    ["schedules", "programs"], "for every set of queries on shared objects issued by two or three threads, and every interleaving of their execution",
    "The suite is single threaded; one execution under one schedule says nothing about the others, and a preemption between two statements of a cache lookup never happens by chance in a test.",
    [K + "decorators.py", K + "lamination.py", K + "triangulation.py", K + "encoding.py", K + "finite.py", K + "curve.py", K + "arc.py"],
    [("answers remembered on the object on first use", K + "decorators.py"), ("promotion shares remembered answers between two views of a lamination", K + "lamination.py"), ("values are immutable by convention", K)],
    [("remembered answers", "per object cache of earlier answers", K + "decorators.py")],
    ["return value or exception of each public call", "public attributes of the shared objects after the join"])
add("C02", "An interrupted query leaves nothing behind",
    "If a query is interrupted at an arbitrary point (Ctrl-C, a timeout raised by a signal handler, memory exhaustion, recursion limit), the interruption reaches the caller instead of a wrong or partial answer. Afterwards asking the same question again, or any other question about the same objects, gives the answer it would have given had the interruption never happened, and does so in a bounded number of steps.",
    ["crash_points", "fault_sequences", "programs"], "for every query, every point in its execution at which an interruption can be delivered, every kind of interruption and every sequence of interruptions followed by retries",
    "Tests never interrupt a call; the number of interruption points is the number of executed instructions, thousands per query.",
    [K + "decorators.py", K + "lamination.py", K + "triangulation.py", K + "encoding.py", K + "finite.py", K + "mappingclassgroup.py", K + "structures.py", K + "curvegraph.py"],
    [("an answer is remembered only once it is complete", K + "decorators.py"), ("work happens on local values that an unwinding stack discards", K)],
    [("remembered answers", "per object cache, including remembered failures", K + "decorators.py")],
    ["exception seen by the interrupted caller", "answers of the retry and of other queries afterwards"])
add("C03", "Queries never modify what they are given",
    "No call, whether it completes, fails or is interrupted at any point, changes the observable value of the object it is called on, of any other curver object it is passed, or of any list, dictionary, set or array that belongs to the caller.",
    ["programs", "crash_points", "inputs"], "for every public call on every kind of object, with caller-owned containers as arguments, run to completion, to its own failure, or to an interruption at any point",
    "Tests compare results, almost never the arguments after the call, and never after a call which stopped half way.",
    [K + "lamination.py", K + "triangulation.py", K + "encoding.py", K + "moves.py", K + "mappingclassgroup.py", K + "finite.py", K + "homology.py", K + "permutation.py", "curver/load.py"],
    [("constructors and operations copy before they write", K), ("all curver values except the incremental partition are immutable by convention", K)],
    [], ["deep value of receivers, arguments and caller-owned containers before and after each call"])
add("C04", "Answers do not depend on what was asked before",
    "The answer to a query depends only on the value of the objects and arguments involved: not on which queries were made earlier in the process, on these or on other objects, in which order, how often, with which other arguments, or whether they succeeded. Asking again gives the same answer, and equal objects built separately give the same answer.",
    ["histories", "programs"], "for every history of queries over a shared pool of objects, including repeated queries, the same query with different arguments, failing queries, and objects replaced by equal fresh ones part way",
    "Unit tests ask each object a handful of questions in one fixed order; remembered answers, shared results and process wide state only matter across long mixed histories.",
    [K + "decorators.py", K + "lamination.py", K + "triangulation.py", K + "encoding.py", K + "finite.py", K + "arc.py", K + "curve.py", K + "curvegraph.py", K + "mappingclassgroup.py"],
    [("answers are remembered per object, per function and per argument", K + "decorators.py"), ("promotion shares remembered answers between equal objects", K + "lamination.py")],
    [("remembered answers", "per object and per function caches", K + "decorators.py")],
    ["return value or exception of each public call in the history"])
add("C05", "Lazy enumerations are isolated from each other",
    "Every lazily produced sequence (group words, disjoint arcs and triangulations, encodings of a given length, isometries, vertex cycles, straight line programs) yields exactly the items it yields when consumed alone and in one go. This holds when several consumers are advanced in any interleaving, when consumers are abandoned or closed part way, when other queries run in between, and when a consumer is interrupted and a new one is started.",
    ["schedules", "histories", "crash_points"], "for every interleaving of the steps of several enumerations over shared objects, every point at which one is closed, dropped or interrupted, and all queries in between",
    "Tests drain each generator at once; none interleaves two live generators or abandons one.",
    [K + "mappingclassgroup.py", K + "arc.py", K + "curve.py", K + "triangulation.py", K + "structures.py", K + "permutation.py", K + "encoding.py"],
    [("enumeration state lives in the generator frame only", K)],
    [], ["items yielded by each enumeration", "answers of queries made in between"])
add("C06", "Saved objects survive crash and restart",
    "An object that was saved (pickled, copied, or written as its signature or packaged form) at any moment of its life, including after interrupted queries, is restored in another process as an equal object of the same kind that answers every query as the original would. If the stream fails while saving or restoring, or the stored stream is cut short, the failure is reported as an error rather than a silently different object; the original is unaffected and saving again works.",
    ["crash_points", "fault_sequences", "histories"], "for every savable object, every history of (possibly interrupted) queries before the save, every point at which the write or the read fails or the process dies, and restart in a process with another hash seed",
    "The suite pickles fresh objects inside one process and never restores in a new one, after use, or from a failing stream.",
    [K + "triangulation.py", K + "lamination.py", K + "encoding.py", K + "moves.py", K + "twist.py", K + "crush.py", K + "utilities.py", K + "permutation.py"],
    [("objects are saved as the data they were built from, without remembered answers", K + "encoding.py"), ("moves package to a small descriptor which the source surface re-encodes", K + "moves.py")],
    [], ["restored object compared with the original", "answers of the restored object", "exceptions at save and restore"])
add("C07", "Runs are reproducible",
    "A computation gives identical results in every process, whatever the string hash seed, memory layout, or clock. Random words and random mapping classes are a function of the state of the standard random number generator only, consist of the requested number of admissible letters, and repeating a run from the same generator state repeats them.",
    ["configurations", "histories"], "for every program of queries, every hash seed and process, and every state of the random number generator",
    "The suite runs under one fixed hash seed and never compares two processes.",
    [K + "mappingclassgroup.py", K + "triangulation.py", K + "lamination.py", K + "encoding.py", K + "finite.py", "curver/load.py"],
    [("choices are made in label order, letters are sorted before drawing", K + "mappingclassgroup.py")],
    [], ["complete transcript of a program of queries in several processes"])
add("C08", "All routes through a history of moves agree",
    "A history of moves (flips, relabellings, twists, half twists, inverses and powers) applied to a lamination or homology class gives the same result whether the moves are applied one at a time, as one composed mapping, in batches, through accelerated powers, through a simplified, flip-only or recombined form of the mapping, or after undoing and redoing some of them. The result also agrees with replaying the elementary flips and relabellings on a plain model, and is the same when the history is checkpointed, the process crashes and the history is resumed from the checkpoint.",
    ["histories", "crash_points"], "for every history of moves on every surface, every way to batch, accelerate, rewrite, undo and redo it, and every checkpoint and crash point",
    "Tests sample few short mappings and check single identities; agreement must hold for every history and every split of it.",
    [K + "moves.py", K + "twist.py", K + "encoding.py", K + "create.py", K + "triangulation.py", K + "lamination.py", K + "curve.py", K + "arc.py", K + "homology.py", K + "PL.py"],
    [("moves are paired with their inverses", K + "create.py"), ("high powers are applied through shortening", K + "encoding.py"), ("rewriting into flips", K + "moves.py")],
    [], ["weights of the images of tracked laminations and homology classes after each step"])
add("C09", "Topological invariants are conserved along histories",
    "Along every history of moves, pairwise intersection numbers of tracked curves and arcs, numbers and multiplicities of components, peripherality, fillingness and topological type never change, and intersection numbers are symmetric and add up over components. Checkpointing, crashing and resuming, and interrupting and retrying a step or a measurement do not change them either.",
    ["histories", "crash_points", "fault_sequences"], "for every history of flips, relabellings and twists on every surface, with a measurement, an interruption or a restart after any step",
    "Tests evaluate invariants after one sampled mapping with five samples per test; conservation is a statement over all histories.",
    [K + "lamination.py", K + "curve.py", K + "arc.py", K + "moves.py", K + "twist.py", K + "triangulation.py"],
    [("invariants are computed on a shortened copy of the lamination", K + "lamination.py")],
    [], ["invariants of the tracked laminations after every step"])
add("C10", "The viewer always shows what it was asked to show",
    "After any sequence of user events (choosing a tab or object, changing options, resizing, zooming, panning, pressing keys, exporting), the viewer's canvas, labels, highlighted options and list of tabs correspond to the currently selected object and options, exactly as in a viewer freshly opened and brought directly to the same selection and options. No event makes an operation on the screen fail.",
    ["schedules", "histories"], "for every set of objects shown and every sequence and interleaving of user, resize and timer events",
    "The graphical viewer has no tests at all; it is an event driven program whose state depends on the whole event history.",
    ["curver/application/main.py", "curver/application/pieces.py", "curver/application/options.py", "curver/application/vector.py"],
    [("every event ends in a full redraw", "curver/application/main.py"), ("options notify on change", "curver/application/options.py")],
    [("canvas objects", "vertices, edges, triangles and curve pieces drawn", "curver/application/main.py")],
    ["simulated canvas contents", "simulated widgets"])
add("C11", "Viewer failures are reported and contained",
    "When saving the picture fails at any point (disk full, permission denied, missing folder, the drawing backend raising its own error), the user is told that it failed and the viewer keeps working with its view unchanged; cancelling a dialog changes nothing and writes nothing. A missing icon or window system feature does not stop the viewer from opening, and objects it cannot show are refused with an error before a window is left behind in a broken state.",
    ["fault_sequences", "histories"], "for every fault of the file system or window system, at any point of any event history",
    "The viewer has no tests and real disk or window system faults cannot be provoked by one.",
    ["curver/application/main.py", "curver/application/pieces.py"],
    [("export errors are caught and shown", "curver/application/main.py"), ("icon errors are ignored", "curver/application/main.py")],
    [], ["dialogs shown", "simulated files written", "canvas before and after"])
add("C12", "Incremental partitions track exactly what was joined",
    "After any history of joins and lookups, in any order and from callers taking turns, two items are in the same class of a union-find partition if and only if a chain of performed joins connects them, and iteration, size and length agree with that. An interrupted join leaves the partition as it was before or as if some of the requested joins had been done, and repeating the join completes it; lookups, which may overlap with other lookups, never change the classes.",
    ["histories", "crash_points", "schedules"], "for every sequence of joins and lookups, every interruption point inside them and every interleaving of concurrent lookups",
    "Tests perform a few joins from one caller; the only mutable public structure needs arbitrary histories and interruption points.",
    [K + "structures.py"], [("union by rank with path shortening", K + "structures.py")],
    [("parent forest", "representative links", K + "structures.py")], ["classes, len and lookups after each step"])
# --- pure functions: stated, not claimed.
def pure(id, title, statement, text, files, mech):
    add(id, title, statement, ["inputs"], text,
        "Tests sample a few inputs per run; the claim is about all inputs.", files, mech)
pure("P01", "Equality of mapping classes solves the word problem",
    "Two mapping classes compare equal exactly when they are the same element of the mapping class group, and equal ones have equal hashes.",
    "for all pairs of mapping classes on a common surface", [K + "encoding.py"], [("compare images of enough curves", K + "encoding.py")])
pure("P02", "Intersection numbers are the geometric ones",
    "The intersection number reported for two laminations is their geometric intersection number.",
    "for all pairs of integral laminations", [K + "lamination.py"], [("shorten then count", K + "lamination.py")])
pure("P03", "Nielsen-Thurston classification is right",
    "Order, periodicity, reducibility, pseudo-Anosov type, invariant laminations and translation lengths reported for a mapping class are the true ones.",
    "for all mapping classes", [K + "encoding.py", K + "curvegraph.py"], [("bounds from the literature", K + "curvegraph.py")])
pure("P04", "Conjugacy of finite order elements is decided correctly",
    "Two finite order mapping classes or finite subgroups are reported conjugate exactly when they are.",
    "for all pairs of finite subgroups", [K + "finite.py"], [("quotient orbifold signature", K + "finite.py")])
pure("P05", "Shortening is correct and polynomial",
    "Shortening a lamination returns a mapping to a surface on which it is short, in time polynomial in the bit size of its weights.",
    "for all laminations", [K + "lamination.py"], [("flips reduce weight by a definite ratio", K + "lamination.py")])
pure("P06", "Topological types are complete invariants",
    "Two multicurves or multiarcs have the same topological type exactly when some mapping class takes one to the other.",
    "for all pairs of laminations", [K + "lamination.py"], [("labelled adjacency graph", K + "lamination.py")])
pure("P07", "Curve complex distances and geodesics are exact",
    "Distances, geodesics and tight geodesics between curves are the true ones.",
    "for all pairs of curves", [K + "curvegraph.py"], [("bounded search", K + "curvegraph.py")])
pure("P08", "Signatures are a bijection",
    "A signature determines a triangulation up to equality and every triangulation has exactly one.",
    "for all triangulations and all strings", [K + "triangulation.py", K + "utilities.py"], [("factorial number system", K + "permutation.py")])
pure("P09", "Standard surfaces and generators are right",
    "The loaded group for genus g and n punctures is on that surface and its named twists and half twists generate its mapping class group.",
    "for all (g, n)", ["curver/load.py"], [("hard-coded triangulations and curves", "curver/load.py")])
pure("P10", "The word language means what it says",
    "A word evaluates to the composition of the named generators with powers, inverses and parentheses, and anything that is not a word is rejected.",
    "for all strings", [K + "mappingclassgroup.py", K + "structures.py"], [("tokeniser and stack", K + "mappingclassgroup.py")])
pure("P11", "Slopes and relative twisting are right",
    "The slope of a lamination about a curve and the relative twisting of two laminations are the true ones up to the documented error.",
    "for all curves and laminations", [K + "curve.py"], [("formulae on short curves", K + "curve.py")])
pure("P12", "Crushing and lifting are inverse on the remaining curves",
    "Crushing along a multicurve gives the surface cut along it, and lifting brings each of its curves back.",
    "for all multicurves and laminations", [K + "crush.py", K + "curve.py"], [("side weights", K + "crush.py")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
