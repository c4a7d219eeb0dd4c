prop("C14", "What cannot be served is refused as a whole and without harm",
     "A request that cannot be served (malformed or incomplete requests, documents or vectors that do not fit the collection, unknown collections, a vectorizer that fails or answers nonsense) is answered with an error, in JSON over HTTP. Nothing of it is stored, everything stored before stays as it is, and valid requests are served afterwards.",
     ["inputs", "fault_sequences", "histories"], "every unusable request, at any place in a batch, on empty and filled collections, over client and HTTP; every failure of the vectorizer",
     "the tests send valid requests only",
     ["adapters/handlers/documents.go", "adapters/handlers/collections.go", DOC, "pkg/vectorizer/rest/vectorizer.go", "models/", "restapi/operations/", HN+"insert.go"],
     [("requests are validated before anything is stored", DOC), ("handlers check the request", "adapters/handlers/"), ("status and answer of the vectorizer are checked", "pkg/vectorizer/rest/vectorizer.go")],
     technique="runtime monitor: catalogue of unusable requests and mutated JSON bodies, failing vectorizer; answers judged and the whole store compared with the model after each",
     note="about 40 kinds of bad requests at random places in random histories, mutated bodies")
prop("C13", "A crash at any moment of a write leaves everything acknowledged intact",
     "When the process is killed between any two writes of a request that adds documents or creates or deletes a collection, FaVe starts again on what is stored. Killed before the request began to update the feeds of the pod, all that was acknowledged before is intact, the interrupted request has taken effect as handed in or not at all, and repeating it and going on works, also after being killed again. Killed while the feeds are updated, the other collections are intact and usable, and what is answered about the affected one is right or an error.",
     ["crash_points", "histories"], "every position in the sequence of writes of every add, create and delete, with everything that was acknowledged before, repeated kills included",
     "the tests never stop in the middle of a request nor start on what such a stop leaves behind",
     [DOC, HN+"insert.go", HN+"index.go"],
     [("documents, then vectors, then one commit of all feeds", DOC), ("nodes are written before entrypoint and count", HN+"insert.go")],
     level="fault_enumeration",
     technique="runtime monitor: the write journal of the store is cut at every position of a request; a new process on each cut is compared with the model of what was acknowledged",
     note="every cut of the recorded requests (sampled for long ones); kills during the feed commit of fairOS are judged by the weaker clause")
prop("C17", "The commit log replays to exactly what was logged",
     "Reading a commit log of an index gives the graph that the logged operations describe (nodes, levels, links, entrypoint, tombstones, quantizer). A log cut off at any byte gives exactly the operations written completely before the cut, and reports their length as valid. Condensing logs and combining files, interrupted or not, and switching files while operations are logged do not change what they replay to, and the log of an index describes the graph of the index, as do the files it lists for a backup.",
     ["inputs", "crash_points", "histories", "schedules"], "every sequence of logged operations, every cut, every splitting into files, condensing and combining at any moment",
     "the tests replay a few fixed logs and cut none at every byte",
     [HN+"commit_logger.go", HN+"deserializer.go", HN+"condensor.go", HN+"commit_log_combiner.go", HN+"corrupt_commit_logs_fixer.go", HN+"bufiowriter.go", HN+"commit_logger_buffered_links_logger.go", HN+"startup.go", HN+"backup.go"],
     [("one entry per operation", HN+"commit_logger.go"), ("entries are applied one by one", HN+"deserializer.go"), ("a log is rewritten from its replayed state", HN+"condensor.go"), ("small files are joined", HN+"commit_log_combiner.go")],
     technique="runtime monitor: an independent model of the operations against the replay of whole, cut, condensed and combined logs; background maintenance running while logging",
     note="random operation sequences; condensing tombstones and cleared nodes away is a known finding")
prop("C18", "Distances are what they are defined to be, for vectors of any length",
     "The distance functions (cosine, dot product, squared Euclidean, Manhattan, Hamming, geographic; assembly and portable versions alike) return the mathematical value up to float32 rounding for vectors of any length and alignment, whole or step by step, by either way of calling them. They read nothing beyond the vectors, leave them unchanged, and refuse vectors of different length. Normalizing gives a vector of length 1 and the same direction, and the zero vector for the zero vector.",
     ["inputs"], "every length (multiples of the vector registers and what remains), alignment, scale and value",
     "the tests compare a few lengths; reads beyond the end of a vector cannot be seen by comparing results",
     [HN+"distancer/", HN+"distancer/asm/"],
     [("assembly kernels for amd64", HN+"distancer/asm/"), ("providers of distances", HN+"distancer/")],
     technique="runtime monitor: results against a float64 reference; vectors placed against inaccessible guard pages on either side so that any access outside faults",
     note="all lengths up to several hundred, random values and scales")
prop("C19", "Queues and visited lists behave as their definitions say",
     "The priority queues of the search return their elements in order of distance, all of them, whatever the order of insertions and removals. A list of visited nodes reports as visited exactly the nodes visited since it was last reset, however often it is reset and however far it has to grow. The pool of lists hands out each list to one user at a time, clean, and of sufficient size.",
     ["inputs", "histories", "schedules"], "every sequence of operations, any number of resets and any node id, concurrent users of the pool",
     "the tests run a few operations; the counter of a visited list wraps around after 255 resets only",
     [HN+"priorityqueue/", HN+"visited/", HN+"pools.go"],
     [("binary heaps", HN+"priorityqueue/"), ("a marker per reset", HN+"visited/list_set.go"), ("reuse of lists", HN+"visited/pool.go")],
     technique="runtime monitor: random operation sequences in lockstep with plain models; ownership monitor on a concurrently used pool",
     note="sequences of hundreds of operations, several wrap-arounds of the marker")
prop("C20", "What is configured is what is used",
     "A configuration of an index takes every value given, whichever way numbers are represented, the documented default for every value left out, and is refused when a value is not allowed (fewer than 4 connections or candidates, unknown encoder, no whole number). Written as JSON it reads back the same. Updates change what may change and are refused otherwise, and search uses the exploration factor that results, fixed or dynamic, from then on. The server takes its settings from the environment, and defaults for what is not set.",
     ["inputs", "configurations"], "every combination of given and missing values, every number including too large ones, every update, every environment",
     "the tests list a few configurations and never look at what a search does with them",
     [HN+"user_config.go", HN+"pq_config.go", HN+"config.go", HN+"config_update.go", HN+"search.go", "adapters/handlers/environment.go", "adapters/handlers/defaults.go"],
     [("values are taken from the map", HN+"user_config.go"), ("fixed fields are compared", HN+"config_update.go"), ("exploration factor", HN+"search.go"), ("environment variables", "adapters/handlers/environment.go")],
     technique="runtime monitor: generated configurations against an independent reading of them; searches under a configured exploration factor compared with the full search of the same sparse graph",
     note="thousands of configurations, environments and updates; 16 sparse indexes")
prop("C22", "The server, started from the environment, serves the documented API durably",
     "fave-server started with a Bee, an Ethereum node, a vectorizer, a user and a pod in the environment serves every operation of its specification as documented, also at the same time, and rejects what is no operation. Killed or terminated at any time between requests and started again it has all that was acknowledged. What is in one pod does not show in another. Uploads carry the configured postage batch. With credentials, a chain or services that do not work it ends with an error instead of serving.",
     ["histories", "configurations", "crash_points"], "every history of requests, kills, terminations and starts with any environment",
     "the tests never run the server",
     ["cmd/fave-server/main.go", "restapi/configure_fave.go", "restapi/server.go", "restapi/operations/", "adapters/handlers/", DOC],
     [("settings, login and pod", "adapters/handlers/handler.go"), ("operations are bound to handlers", "restapi/configure_fave.go"), ("listening and shutdown", "restapi/server.go")],
     technique="runtime monitor: the server binary as a child process against Bee, Ethereum and vectorizer stand-ins on loopback; answers compared with the reference model, over kills and restarts",
     note="tens of server runs with random histories; stand-ins record what is uploaded")
prop("C23", "Requests leave nothing behind",
     "However many requests have been answered - documents added, searched and looked up, requests refused, requests that failed because the vectorizer or the store failed - no goroutine of FaVe keeps running for them and no file or connection of theirs stays open. A collection that was deleted keeps neither memory of its index nor background work, however often collections are created, used and deleted, a collection first asked for by many requests at once costs no more than one asked for once, and an index dropped or shut down runs nothing any more.",
     ["histories", "schedules"], "every sequence of requests of any length, of any kind and outcome; concurrent first requests",
     "the tests end after a few requests; what accumulates shows only over many",
     [DOC, "adapters/handlers/", "pkg/vectorizer/rest/vectorizer.go", HN+"index.go", HN+"vector_cache.go", HN+"compressed_vector_cache.go"],
     [("an index per open collection", DOC), ("a goroutine per vector cache", HN+"vector_cache.go"), ("one connection per vectorized text", "pkg/vectorizer/rest/vectorizer.go")],
     technique="runtime monitor: goroutines attributed to FaVe, open descriptors and live heap of the process sampled at quiescence before and after rounds of each kind of request",
     note="24 (150) rounds per workload; what the dependency keeps in memory is bounded, not attributed")
