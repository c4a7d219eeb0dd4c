#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC, HN = "pkg/document/document.go", "pkg/hnsw/"
P = []

def prop(id, title, statement, over, text, why, files, mech, level="exploration", note="", technique="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, technique=technique, observe=observe or []))

prop("C01", "Acknowledged documents survive any restart",
     "Once a request to add documents was answered with success, every one of these documents can be looked up by its id, with exactly the properties it was stored with, and is found by a search with its own vector. This holds in the same process and in every process started later on the same store, whether the earlier one was shut down or killed, and it stays true when more documents are added after the restart.",
     ["histories", "crash_points", "inputs"], "every history of adds, lookups, searches and restarts (orderly or by kill) on any number of collections, any vector length",
     "the tests add a fixed list of documents in one process and never open the stored data in another one, nor add to it there",
     [DOC, HN+"index.go", HN+"insert.go", HN+"vertex.go", HN+"startup.go"],
     [("documents and vectors are flushed and committed before the answer", DOC), ("stored nodes and entrypoint are read back", HN+"index.go"), ("cached nodes are written with all their links", HN+"vertex.go")],
     technique="runtime monitor: reference model of acknowledged documents, compared with what restarted processes on the recorded store answer",
     note="random histories over the Go client and the REST API, restarts at random places")
prop("C02", "Every search hit is right: existing, within bounds, true distance, in order",
     "Every document a nearest-neighbour search returns exists in the searched collection in the version last stored, appears once, comes with the cosine distance between its vector and the query, and lies within the requested maximum distance. Hits come in order of increasing distance and there are at most as many as the requested limit (no limit when it is 0).",
     ["inputs", "histories"], "every collection content (copies, near copies, opposite and zero vectors included), query vector of any dimension, maximum distance and limit",
     "the tests compare a handful of queries with expected ids; distances, order, bounds and duplicates are not judged for arbitrary content",
     [DOC, HN+"search.go", HN+"search_with_max_dist.go", HN+"distancer/", "adapters/handlers/documents.go"],
     [("distance-bounded search", HN+"search_with_max_dist.go"), ("layer search", HN+"search.go"), ("results are matched with stored documents", DOC)],
     technique="runtime monitor: every answer is judged hit by hit against float64 distances computed from the documents stored",
     note="random histories and queries; float tolerance 2e-4")
prop("C03", "Searching a small collection misses nothing",
     "In a collection of up to 60 vectors a search returns every document within the maximum distance (one at exactly this distance included) or, when a limit applies, the nearest ones up to the limit. This holds regardless of the order in which documents were added, of copies, of replacements and of restarts in between.",
     ["inputs", "histories"], "every content of up to 60 vectors, every insertion order, every query, distance and limit",
     "the tests check recall on a few fixed sets and queries; an index that loses single nodes for some insertion orders passes",
     [DOC, HN+"insert.go", HN+"neighbor_connections.go", HN+"heuristic.go", HN+"search.go", HN+"search_with_max_dist.go"],
     [("every new node is connected in both directions", HN+"neighbor_connections.go"), ("exploration factor of at least 800", DOC)],
     technique="runtime monitor: every answer is compared with the exact answer computed from the reference model",
     note="random histories and queries, exact oracle")
prop("C04", "Large collections: nearest documents found with high recall",
     "In a collection of thousands of documents added in an order unrelated to their similarity, a search finds at least 95% of the true nearest documents on average and (nearly) every document is found by its own vector. This is also so after restarts in between and when searches ask for all documents within a distance.",
     ["inputs", "histories", "configurations"], "every point distribution, dimension, size and number of restarts while the collection is filled",
     "the tests measure recall for one distribution and size in one process only, and not of stored and reopened indexes",
     [HN+"insert.go", HN+"neighbor_connections.go", HN+"heuristic.go", HN+"search.go", HN+"index.go"],
     [("neighbour selection heuristic", HN+"heuristic.go"), ("search and connection at every layer", HN+"neighbor_connections.go"), ("random layer assignment", HN+"insert.go")],
     technique="runtime monitor: recall measured against exact brute force on indexes of thousands of vectors built, flushed and reopened",
     note="statistical thresholds far below what the unchanged code reaches")
prop("C05", "Text search is search by the embedding of the text",
     "Searching by a text gives the same documents and distances as searching by the vector the vectorizer service returns for exactly this text. A document stored without a vector is found by the embedding of its listed properties, in the order listed, and one stored with a vector by that vector, whichever number representation it came in.",
     ["inputs", "histories"], "every text, list of properties, vector representation, distance and limit",
     "the tests have no vectorizer with known embeddings, so they cannot tell which text or vector was used",
     [DOC, "pkg/vectorizer/rest/vectorizer.go", "pkg/vectorizer/vector.go", "adapters/handlers/documents.go"],
     [("the listed properties are joined and vectorized", DOC), ("request to and answer of the vectorizer", "pkg/vectorizer/rest/vectorizer.go")],
     technique="runtime monitor: scriptable vectorizer that records every request; text and vector answers compared with each other and with the exact answer",
     note="random histories and texts")
prop("C06", "Lookup by an indexed value is exact",
     "Looking up a document by an indexed property returns a document of this collection whose property has exactly the value asked for, and finds one whenever there is one. A value no document has gets an error, never another document.",
     ["inputs", "histories"], "every stored string, number, list or map value and every value asked for, close misses (prefixes, neighbours, other case) included",
     "the tests look up values that are there, so an answer with the next entry of the index passes",
     [DOC, "adapters/handlers/documents.go"],
     [("the document found is compared with the value", DOC)],
     technique="runtime monitor: lookups of stored values and of near misses, judged against the reference model",
     note="random histories; operators and large numbers are known findings of the dependency")
prop("C07", "Collections do not affect each other",
     "Operations on one collection (creating, adding to, searching, deleting it) never change what another collection contains, lists, or answers. This includes collections holding the same document ids, the same vectors, or having similar names.",
     ["histories", "inputs"], "every interleaved history of operations on several collections, restarts included",
     "the tests work on one collection at a time",
     [DOC, HN+"index.go", HN+"vertex.go"],
     [("one index and one pair of tables per collection", DOC), ("cache keys contain the collection", DOC)],
     technique="runtime monitor: every collection is compared with its own model after operations on the others",
     note="random histories on several collections with colliding ids and names")
prop("C08", "Collections exist exactly from acknowledged create to acknowledged delete",
     "The list of collections is exactly those created and not deleted, each with exactly the indexes it was created with, in this process and after any restart. Creating an existing collection again keeps its documents; a deleted collection has no documents, also when it is created again.",
     ["histories", "crash_points"], "every history of creates, deletes, adds, searches, lookups and restarts",
     "the tests create and delete once in one process; what the list says after a restart or a repeated create is not tested",
     [DOC, "adapters/handlers/collections.go"],
     [("create and delete are committed before the answer", DOC), ("index is dropped with the collection", DOC)],
     technique="runtime monitor: reference model of the collections compared with list, lookups and searches",
     note="random histories over client and REST, restarts")
prop("C09", "Adding a document under an existing id replaces it as a whole",
     "After a document was added again under the same id, lookups and searches return only its new version: the old properties, indexed values and vector do not lead to it any more, and it is found by the new ones. There is one document per id, and other documents are unaffected.",
     ["histories", "inputs"], "every sequence of versions with equal or different values and vectors, in the same or in different requests, restarts included",
     "the tests never add an id twice",
     [DOC, HN+"insert.go"],
     [("results are matched with the vector id of the stored document", DOC)],
     technique="runtime monitor: versions recorded in a reference model; old and new values and vectors queried after every replacement",
     note="random histories; findings of the dependency listed")
prop("C10", "Concurrent requests: nothing lost, mixed up or invented",
     "When requests run concurrently, every document of an acknowledged add is there afterwards (and after a restart) just as if requests had run one after another, and no two documents share a vector or an identity. A lookup or search running meanwhile returns only versions of documents that were stored or being stored at that time, with the right distance, and finds every document that was acknowledged before it began and is not being replaced.",
     ["schedules", "histories"], "every interleaving of adds, lookups, searches, creates and deletes by any number of clients",
     "the tests run one request at a time",
     [DOC, HN+"insert.go", HN+"index.go", HN+"search.go", HN+"vertex.go"],
     [("requests that add are serialised", DOC), ("locks of nodes and caches", HN+"index.go")],
     technique="runtime monitor: call and return events of concurrent requests recorded, offline checker over the intervals of document versions, final state compared with the model",
     note="threads, delays injected into the store, barriers; schedules sampled")
prop("C11", "No data races or deadlocks among concurrent requests",
     "Whatever requests run concurrently, on one collection or several, through the API or directly on one index, the process has no data race in its own code, does not panic, and every request is answered. Closing or dropping an index meanwhile does not hang.",
     ["schedules"], "every interleaving of requests and of background maintenance",
     "the tests do not run concurrently and not with the race detector",
     [DOC, HN+"index.go", HN+"insert.go", HN+"vector_cache.go", HN+"search.go", HN+"visited/pool.go"],
     [("locks of client, index, nodes and caches", HN)],
     technique="Go race detector on stress workloads, reports filtered to accesses made by FaVe; watchdog for requests that are never answered",
     note="race detector over repeated stress runs")
prop("C12", "A failing store: errors are reported and nothing acknowledged is lost",
     "When reads or writes of data in the store fail during an operation, the operation is answered (with an error if it could not be completed), the process goes on, and everything acknowledged before remains intact: every acknowledged document can be looked up and found, now and after a restart. Of an operation that was answered with an error nothing or only what was handed in can be seen.",
     ["fault_sequences", "histories"], "every operation, every position of one or more failing reads or writes in it",
     "the tests use a store that never fails",
     [DOC, HN+"index.go", HN+"insert.go", HN+"vertex.go"],
     [("errors are passed on", DOC), ("vector ids are not reused after a failure", DOC)],
     level="fault_enumeration",
     technique="fault injection into the store under a runtime monitor: model of acknowledged documents compared after every faulted operation, after more work and after a restart",
     note="faults at sampled positions of adds, creates and deletes; feed updates are fairOS's own (DESIGN.md)")
prop("C15", "No size of a collection falls off the end of a cache",
     "Documents are found regardless of how many there are: also beyond the number of vectors, nodes or documents the caches and preallocated tables hold, also when more of them are added before a flush than a cache holds, and after a restart.",
     ["inputs", "histories"], "every number of vectors and every order of ids, around and beyond the sizes of caches and tables",
     "the tests stay far below the sizes of the caches",
     [HN+"index.go", HN+"vector_cache.go", HN+"maintainance.go", HN+"visited/", DOC],
     [("tables grow", HN+"maintainance.go"), ("nodes evicted from the cache are kept until flushed", HN+"index.go")],
     technique="runtime monitor: stress beyond the cache sizes, every vector searched by itself before and after reopening",
     note="ids around the table sizes up to 200001, 10500 vectors between flushes")
prop("C16", "The stored index is the index that wrote it",
     "An index opened from the store answers every search exactly as the index that was flushed to it does, whoever wrote it and however often it was reopened. The stored graph has only links between stored vectors, at layers both have, within the configured number of links, and it is searched from its top layer.",
     ["histories", "configurations"], "every sequence of adds, flushes and reopenings, every number of links",
     "the tests never compare an index with its reopened copy",
     [HN+"index.go", HN+"vertex.go", HN+"insert.go", HN+"neighbor_connections.go"],
     [("nodes are written when they changed", HN+"vertex.go"), ("flush writes entrypoint, count and nodes", HN+"index.go")],
     technique="runtime monitor: answers of writer and reader compared query by query, structural invariants asserted on the stored nodes",
     note="random insertion orders and link limits")
prop("C21", "Filtered and unlimited index searches agree with brute force",
     "A search restricted to a set of allowed vectors returns exactly the nearest allowed ones and nothing else, whether it is done by scanning the set or by walking the graph. A search for everything within a distance returns exactly the vectors within it, however many there are.",
     ["inputs", "configurations"], "every allowed set, number of neighbours, distance, search breadth and cutoff between scan and walk",
     "the tests have few filtered searches, on one configuration",
     [HN+"flat_search.go", HN+"search.go", HN+"search_with_max_dist.go"],
     [("flat search below the cutoff", HN+"flat_search.go"), ("results are filtered by the allow list", HN+"search.go"), ("distance search widens until done", HN+"search.go")],
     technique="runtime monitor: answers compared with brute force over the allowed set",
     note="random indexes of up to 60 vectors, all configurations of breadth and cutoff")

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
P.sort(key=lambda p: p["id"])
NA = globals().get("NOT_APPLICABLE", [])

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": [x.rstrip("/") for x in p["files"]], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None,
             "observe_at": p["observe"] or ["answers of the Go client, the REST API and the index"]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "verif", "enable": "none needed: the checks use exported interfaces, a store of their own and reflection", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"} for p in P],
     "not_applicable": NA,
     "notes": "Go monitors in harness/ linked with FaVe from /repo's working tree; see DESIGN.md. Findings: known-findings.json."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
