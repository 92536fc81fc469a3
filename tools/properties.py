#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, observe=observe, hook=hook))


GEN = ("TLC enumerates the specification exhaustively at the stated bounds and samples it at larger ones; every exported "
       "behaviour is replayed into the compiled code under ASan/UBSan and result and state are compared after every step. ")
TRUST = "Trusts the driver's projection of the state and TLC; bounded histories, not a proof."

prop("C01", "A dictionary is a map from keys to typed values; the last write wins",
     "After any sequence of insertions, assignments, removals and constructions, a dictionary holds exactly the keys most recently "
     "written and not removed since, each with the value and the type of its last write. Reading by key returns that value unchanged, and "
     "the queries for presence, emptiness, sub-dictionary-ness and the key list all agree with it. Reads change nothing; a list construction keeps the first of several entries for a key.",
     ["histories", "inputs"], "every history of public calls on a dictionary, every key string and stored type",
     "The tests insert two or three keys once each and read them back; they never overwrite, interleave removal with re-insertion, or compare all queries with each other.",
     ["include/NeoFOAM/core/dictionary.hpp", "src/core/dictionary.cpp"],
     [("insert/remove/operator[]/contains/keys on one hash map", "src/core/dictionary.cpp"), ("typed get through any_cast", "include/NeoFOAM/core/dictionary.hpp")],
     "TLA+ spec Dictionary.tla checked with TLC; generated behaviours replayed into the code", GEN + TRUST,
     state=[("data_", "key to typed value", "include/NeoFOAM/core/dictionary.hpp")])
prop("C02", "A failed typed look-up is reported and changes nothing",
     "Looking up a missing key or index, or asking for a type other than the stored one, always fails with the matching exception (out of range, bad cast) and never "
     "yields a value, inserts an entry, converts a value or moves a cursor. The message of a failed typed look-up names the key or index and the requested and stored types; that of a missing key names the key and every key present, and that of a bad index the size.",
     ["histories", "inputs"], "every container state, every key or index, every pair of stored and requested type",
     "Tests probe one missing key and one wrong type; whether any other pair of types converts silently or a failed read leaves an entry behind is untested.",
     ["include/NeoFOAM/core/dictionary.hpp", "src/core/dictionary.cpp", "include/NeoFOAM/core/tokenList.hpp", "src/core/tokenList.cpp", "include/NeoFOAM/core/demangle.hpp"],
     [("rethrow after logging", "include/NeoFOAM/core/dictionary.hpp"), ("logOutRange/logBadAnyCast", "include/NeoFOAM/core/demangle.hpp")],
     "TLA+ specs Dictionary.tla and TokenList.tla checked with TLC; behaviours with failing look-ups replayed, messages judged", GEN + TRUST)
prop("C03", "Nested dictionaries: copies are independent, references stay connected",
     "Storing or copying a dictionary copies it deeply: later changes to either side never show on the other. A reference obtained to a (sub-)dictionary keeps designating that very entry, "
     "seeing and making changes to it, until that entry itself is overwritten or removed, whatever happens to other entries. Storing part of a dictionary under one of its own enclosing keys stores the value it had before the call.",
     ["histories", "inputs"], "every tree of dictionaries, every interleaving of writes through owners, copies and held references",
     "Tests nest one level and read back; aliasing, deep copies and the lifetime of references across growth are not exercised.",
     ["include/NeoFOAM/core/dictionary.hpp", "src/core/dictionary.cpp"],
     [("value semantics of stored entries, node-stable map", "src/core/dictionary.cpp")],
     "TLA+ spec Dictionary.tla (trees, handles, references) checked with TLC; behaviours replayed under ASan", GEN + TRUST)
prop("C04", "Every new document gets an identity no other document has",
     "A document created without an identity receives one that no other document of the process received, also when many threads create documents at once. A supplied identity is kept, "
     "and copying, moving or re-wrapping a document keeps its identity.",
     ["schedules", "histories"], "every interleaving of creations by several threads, every history of creations and copies",
     "The tests create documents one after another in one thread and compare two of them.",
     ["include/NeoFOAM/core/database/document.hpp", "src/core/database/document.cpp"],
     [("atomic counter in generateID", "include/NeoFOAM/core/database/document.hpp"), ("id inserted only if absent", "src/core/database/document.cpp")],
     "TLA+ specs Document.tla and DocumentIds.tla: replay, trace validation of recorded concurrent runs, atomicity discharged by TSan", GEN +
     "Recorded multi-threaded runs are checked against DocumentIdsTrace.tla; the model's atomic step is discharged with ThreadSanitizer on the executed schedules. " + TRUST,
     state=[("counter", "next identity", "include/NeoFOAM/core/database/document.hpp")])
prop("C05", "No document exists that fails its own validation",
     "Creating a document whose content does not satisfy the given validator always fails with an error and yields no document; otherwise the document holds exactly the given content plus an identity. "
     "Validating later judges the current content with the same validator, also for copies and moved documents, and reports failure by an error, never by a silent result.",
     ["histories", "inputs"], "every content, every validator, every history of modification, copy and validation",
     "Tests use one validator and one failing content.",
     ["include/NeoFOAM/core/database/document.hpp", "src/core/database/document.cpp"],
     [("validate() in the constructor", "src/core/database/document.cpp")],
     "TLA+ spec Document.tla checked with TLC; behaviours replayed into the code", GEN + TRUST)
prop("C06", "A collection returns exactly the documents stored in it",
     "A collection returns each stored document under its identity and fails for any other; a query returns the identities of exactly the documents satisfying its predicate, each once, and the sorted key list is all identities in ascending order. "
     "Size always equals the number of stored documents, and references to a document stay valid and connected while other documents are added.",
     ["histories", "inputs"], "every sequence of insertions and modifications, every predicate, any number of documents",
     "Tests store up to three documents and run one query.",
     ["include/NeoFOAM/core/database/collection.hpp", "src/core/database/collection.cpp"],
     [("find/doc/size/sortedKeys over one map", "include/NeoFOAM/core/database/collection.hpp")],
     "TLA+ spec Database.tla checked with TLC; behaviours replayed into the code", GEN + TRUST)
prop("C07", "A type-erased collection behaves as the collection inside it",
     "Every operation through the generic collection interface gives the same result, on the same documents, as on the concrete collection it wraps, whatever that type is. Recovering the concrete type succeeds exactly for the type put in and yields the wrapped object itself, "
     "and moving the generic object around keeps its contents.",
     ["histories", "inputs"], "every concrete collection type, every sequence of operations through either interface and of moves",
     "Tests wrap one collection type and call a few functions.",
     ["include/NeoFOAM/core/database/collection.hpp", "src/core/database/collection.cpp"],
     [("CollectionConcept/CollectionModel", "include/NeoFOAM/core/database/collection.hpp"), ("as<T> by dynamic_cast", "include/NeoFOAM/core/database/collection.hpp")],
     "TLA+ spec Database.tla (loose collections) checked with TLC; behaviours replayed with three collection types", GEN + TRUST)
prop("C08", "A database never replaces a collection that is already registered",
     "Inserting a collection under a new name stores it; under a taken name it changes nothing; both return the stored collection. Presence, number, retrieval and removal always agree, retrieving a missing name or as the wrong type fails with an error, removal reports whether there was something to remove, "
     "and references to a collection stay valid until that collection is removed.",
     ["histories", "inputs"], "every history of insertions, retrievals and removals over every set of names",
     "Tests insert one or two collections in order.",
     ["include/NeoFOAM/core/database/database.hpp", "src/core/database/database.cpp"],
     [("try_emplace", "src/core/database/database.cpp")],
     "TLA+ spec Database.tla checked with TLC; behaviours replayed into the code", GEN + TRUST)
prop("C09", "A token list is a sequence with a read position only sequential reads move",
     "A token list holds exactly the tokens inserted and not removed, in order, each with its type and value; taking the front token returns an equal token and removes just it. Sequential reads return the token at the read position and advance it by one, also through read-only access; "
     "failed reads and every other call leave the position as it is, and a copy starts with its own copy of the position.",
     ["histories", "inputs"], "every sequence of insertions, removals, positional and sequential reads, copies",
     "Tests read one list from front to back.",
     ["include/NeoFOAM/core/tokenList.hpp", "src/core/tokenList.cpp"],
     [("next()/popFront()/get() over a vector and a mutable index", "include/NeoFOAM/core/tokenList.hpp")],
     "TLA+ spec TokenList.tla checked with TLC; behaviours replayed into the code", GEN + TRUST)
prop("C11", "The per-mesh cache never replaces what it already holds",
     "Storing under a name not present makes the value retrievable under it; storing under a present name leaves the cached object untouched, so every user of a name shares one object. Presence, typed and untyped retrieval agree, failing retrievals raise an error and create nothing, "
     "and references to a cached object stay valid while others are added.",
     ["histories", "inputs"], "every history of stores and retrievals, names and types",
     "Tests do not cover the cache directly; users store once.",
     ["include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp", "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"],
     [("emplace keeps the first", "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp")],
     "TLA+ spec StencilCache.tla checked with TLC; behaviours replayed into the code", GEN + TRUST)
prop("C12", "Selecting by name builds exactly that type or ends the program",
     "Creating by a registered name builds an object of exactly the type registered under it from exactly the arguments given, references and move-only arguments included. An unknown name never yields an object: the program ends with status 1 after naming it and every valid name. "
     "Listings, counts, documentation and schema cover exactly the registered names, directly and by base-class name, and registering again or later changes only that entry.",
     ["histories", "inputs", "configurations"], "every set of registered types, every name, every argument kind, any order of registrations and creations",
     "Tests register four types without arguments and create each once; unknown names are never tried.",
     ["include/NeoFOAM/core/runtimeSelectionFactory.hpp"],
     [("keyExistsOrError before the look-up", "include/NeoFOAM/core/runtimeSelectionFactory.hpp"), ("addSubType/REGISTERED", "include/NeoFOAM/core/runtimeSelectionFactory.hpp")],
     "TLA+ spec Factory.tla checked with TLC; behaviours replayed (unknown names in child processes)", GEN + TRUST)
prop("C13", "A failed check never continues silently",
     "A fatal assertion or error whose condition fails ends the program with status 1 (all ranks when built with MPI) and a throwing one throws, both with a message containing the condition or message, the location and, for equality checks, both values. A holding check has no effect and evaluates its condition exactly once; debug-only checks are active exactly in debug builds and evaluate nothing otherwise. "
     "Every check behaves as one statement wherever a statement may stand and compares its operands as whole expressions.",
     ["programs", "configurations", "inputs"], "every macro, condition, operand expression, statement position and build mode",
     "Failing checks end the process, so no test exercises them.",
     ["include/NeoFOAM/core/error.hpp", "include/NeoFOAM/core/info.hpp"],
     [("NF_ASSERT*/NF_THROW/NF_ERROR_EXIT", "include/NeoFOAM/core/error.hpp")],
     "TLA+ spec Errors.tla checked with TLC; behaviours replayed in child processes in five build modes", GEN + "cpptrace and MPI_Abort are stand-ins. " + TRUST)
prop("C14", "Bounds-checked views report the first access outside and nothing else",
     "In debug builds an element access outside a view ends the program, or, when so configured, records the index of the first such access and keeps it. Accesses inside a view always read and write exactly the addressed element and report nothing, in every build.",
     ["inputs", "histories", "configurations"], "every view length and index (views of at least one element), every history of accesses, both build modes",
     "Tests access one index outside one view.",
     ["include/NeoFOAM/core/view.hpp"], [("checked operator[]", "include/NeoFOAM/core/view.hpp")],
     "TLA+ spec View.tla checked with TLC; behaviours replayed in both build modes", GEN + "Kokkos::abort is a stand-in. " + TRUST)

import properties_kokkos
properties_kokkos.add(prop, NA)
import properties_fv
properties_fv.add(prop, NA)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            a["hook_needed"] = p["hook"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    na = {i for i, _ in NA}
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"],
                          thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["id"] not in na],
             not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes="Specifications in spec/ (TLA+, TLC), drivers in harness/, runner tools/check.py. No hooks in /repo.")
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        import re
        n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)


if __name__ == "__main__":
    main()
