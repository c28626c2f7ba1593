#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then run this file."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = False
    assert len(title) <= 80, (id, len(title))
    P.append(d)

HTTP = ["HTTP status and body of GET /folders/{id}, /folders/{id}/{hash}, /folders/{id}/facts?name=&contextref="]

p("C01", "Every answer is the one a freshly started server would give",
  "Whatever requests were served before or are being served at the same time, the answer to a request (status and body) is the one a freshly started server with nothing cached gives to that request over the same stored files. No request can change what a later or overlapping request is answered, whatever identifiers, hashes, fact names or context references it carries.",
  ["histories", "schedules", "inputs"],
  "For all finite histories of catalog, network, fact and document requests over any set of filings, including repeated, overlapping, unknown and adversarially chosen identifiers, and all interleavings of the servers' goroutines.",
  "The existing tests issue each request once against an empty cache and never repeat, overlap or mix requests, so a stale, poisoned or mixed-up cache entry is never read back.",
  ["pkg/cache/cache.go", "pkg/hydratables/global.go", "pkg/hydratables/measurement.go", "internal/web/web.go"],
  [("request-result cache with asynchronous fill", "pkg/cache/cache.go MarshalCatalog/MarshalRenderable/MarshalExpressable/hydratable"),
   ("shared cache of reference data", "pkg/hydratables/global.go HydrateGlobalSchema/HydrateEntityNames; measurement.go HydrateUnitTypeRegistry")],
  HTTP,
  [("cache contents", "what later requests are answered from", "pkg/cache/cache.go appCache")])

p("C02", "The same request over the same files always gives the same bytes",
  "For fixed stored files, the answer to a request is byte for byte the same in every execution. Goroutine interleaving, map iteration order, storage delays and process restarts have no effect on it.",
  ["schedules", "inputs", "configurations"],
  "For all well-formed filings (any number of linkbases, languages, label roles, dimensions, typed members, footnotes), all goroutine interleavings and all map iteration orders.",
  "A test sees one schedule and one map order per run, and the fixtures have at most one linkbase of each kind, so order-dependent output is accepted or seen as flakiness.",
  ["pkg/renderables/renderable.go", "pkg/renderables/labelPack.go", "pkg/renderables/typedMember.go", "pkg/renderables/factualQuadrant.go", "pkg/renderables/label.go", "pkg/serializables/folder.go", "pkg/hydratables/instance.go"],
  [("three grids built concurrently and merged", "pkg/renderables/renderable.go MarshalRenderable"),
   ("selection and merging across linkbases held in maps", "pkg/renderables/presentationGrid.go, calculationGrid.go, dimensionRelationshipSet.go, label.go, relationshipSet.go"),
   ("concurrent discovery filling shared maps", "pkg/serializables/folder.go")],
  HTTP)

p("C03", "Opening a filing loads exactly what its entry document reaches",
  "When opening a filing succeeds, it holds exactly the schemas, presentation, definition, calculation and label linkbases that are reachable from the entry document over local schema references, includes, imports and linkbase references and that exist and are well formed, plus the folder's JPEG and PNG images. Each is held under the location it was referenced by, with the content of that file, every namespace that was brought into scope maps to a location it was declared with, and none of this changes after opening has returned.",
  ["schedules", "inputs"],
  "For all reference graphs between the files of a folder (trees, diamonds, shared files, missing and malformed targets, remote targets) and all interleavings of the discovery goroutines.",
  "The fixtures have one schema and one linkbase of each kind, and a lost or late write into the result only shows under particular interleavings.",
  ["pkg/serializables/folder.go", "pkg/serializables/schemaFile.go", "pkg/serializables/presentationLinkbaseFile.go", "pkg/serializables/definitionLinkbaseFile.go", "pkg/serializables/calculationLinkbaseFile.go", "pkg/serializables/labelLinkbaseFile.go", "pkg/serializables/document.go"],
  [("recursive goroutine fan-out joined by wait groups", "pkg/serializables/folder.go schemaRef/includeSchema/importSchema/linkbaseRefSchema"),
   ("result maps filled under a lock", "pkg/serializables/folder.go Folder.wLock"),
   ("image sniffing", "pkg/serializables/folder.go processImages")],
  ["the filing returned by serializables.Discover, and the order of its file reads relative to its return"])

p("C04", "Opening a filing always finishes, with work linear in its references",
  "Opening a filing finishes on every reference graph, including files that include or import themselves or each other. The number of file reads and goroutines it uses is bounded by a constant times the number of files and references written in them.",
  ["inputs", "schedules"],
  "For all reference graphs between the files of a folder: self references, cycles of any length, mutual import and include, layered diamonds; all interleavings.",
  "No fixture has a cycle or a shared import, and a test cannot tell a non-terminating fan-out from a slow one.",
  ["pkg/serializables/folder.go"],
  [("recursion along includes and imports", "pkg/serializables/folder.go includeSchema/importSchema")],
  ["return of serializables.Discover, count of file reads and started goroutines"])

p("C05", "A storage failure yields an error or the exact answer, never a partial one",
  "When reading a stored file fails, returns less than asked or stalls, while the server starts or while a request is being served, the answer is either an error status or exactly the answer given without the failure. A partial or altered result is never reported as success; only the entity display name may fall back to its raw identifier when the name list cannot be read.",
  ["fault_sequences", "schedules", "inputs"],
  "For all placements of one or more storage faults (I/O error, permission error, too many open files, failing directory listing, stall) on the file operations of a request history, and all interleavings.",
  "The tests run on a healthy disk; no existing test makes a read fail, let alone at a chosen point of a concurrent discovery.",
  ["pkg/serializables/folder.go", "pkg/serializables/underscore.go", "pkg/serializables/global.go", "pkg/serializables/instanceFile.go", "pkg/hydratables/hydratable.go", "pkg/hydratables/instance.go", "pkg/hydratables/query.go", "pkg/hydratables/measurement.go", "internal/web/web.go"],
  [("error propagation out of concurrent discovery", "pkg/serializables/folder.go"),
   ("error propagation out of hydration and queries", "pkg/hydratables/instance.go, query.go, measurement.go, global.go"),
   ("error to status mapping", "internal/web/web.go")],
  HTTP)

p("C06", "Failures are not remembered: once storage recovers, answers are exact",
  "Once storage faults stop, every request is answered exactly as if they had never happened, and a request that failed because a file was missing is answered exactly once that file is in place. No failed attempt leaves anything behind that changes a later answer.",
  ["fault_sequences", "histories", "schedules"],
  "For all fault histories followed by a fault-free period, all requests that overlapped the faults, and all interleavings of pending cache fills with later requests.",
  "It needs a failure followed by success within one process, which no test performs.",
  ["pkg/cache/cache.go", "pkg/hydratables/global.go", "pkg/hydratables/measurement.go", "pkg/hydratables/hydratable.go"],
  [("caching of results of failed work", "pkg/cache/cache.go; pkg/hydratables/global.go; pkg/hydratables/measurement.go")],
  HTTP,
  [("cache contents", "must hold results of successful work only", "pkg/cache/cache.go appCache")])

p("C07", "No filing and no request can crash, wedge or starve the server",
  "Whatever a stored filing contains and whatever a request asks for, the process does not terminate, does not deadlock, and answers every request. Requests for other, healthy filings that overlap or follow it are answered correctly.",
  ["inputs", "histories", "schedules"],
  "For all stored contents (well-formed, inconsistent, truncated, corrupted), all request identifiers and parameters, and all interleavings.",
  "The fixtures are well formed; a panic in a helper goroutine or a lock left held needs a specific malformed reference or request identifier followed by more requests.",
  ["pkg/cache/cache.go", "pkg/renderables/renderable.go", "pkg/renderables/contexts.go", "pkg/renderables/expressable.go", "pkg/hydratables/document.go", "pkg/hydratables/instance.go", "pkg/serializables/folder.go", "pkg/serializables/document.go", "pkg/attr/name.go"],
  [("work done in helper goroutines without recovery", "pkg/renderables/renderable.go, pkg/hydratables/document.go, pkg/serializables/document.go"),
   ("locks held across operations that can panic", "pkg/cache/cache.go, pkg/hydratables/global.go")],
  HTTP + ["process exit, panics, blocked goroutines"])

p("C08", "Concurrent serving has no data races",
  "While any mix of requests is served concurrently, no two goroutines access the same memory without synchronisation when one of them writes. Values read from one part of an answer are never torn between two executions.",
  ["schedules", "inputs"],
  "For all mixes of concurrent requests over plain and inline filings and all interleavings.",
  "The suite runs without the race detector, one request at a time, and one schedule per run.",
  ["pkg/renderables/renderable.go", "pkg/serializables/document.go", "pkg/hydratables/document.go", "pkg/serializables/folder.go", "pkg/cache/cache.go", "pkg/hydratables/global.go"],
  [("shared variables captured by goroutines", "pkg/renderables/renderable.go, pkg/serializables/document.go, pkg/hydratables/document.go"),
   ("shared maps guarded by locks", "pkg/serializables/folder.go, pkg/serializables/document.go")],
  ["happens-before race reports of the instrumented build under the simulated scheduler"])

p("C09", "Creating a filing folder is exactly-once and all-or-nothing",
  "When creating a folder succeeds, the returned identifier opens with exactly the given entry name, and no other creation ever returned it as new; for one key at most one creation succeeds and the others report that it already exists, with the same identifier, and different keys have different identifiers. A creation that fails or is interrupted at any point leaves nothing that can be taken for a folder with other or missing metadata, and creating again with the same key once storage works succeeds or reports a complete folder.",
  ["schedules", "fault_sequences", "crash_points", "inputs"],
  "For all numbers of concurrent creators over shared, distinct and empty keys, all placements of storage errors, short writes and full disk, and a crash after any file operation.",
  "No test creates a folder concurrently, on a failing disk, or across a crash.",
  ["pkg/serializables/underscore.go"],
  [("check, create directory, write metadata", "pkg/serializables/underscore.go NewFolder"), ("read metadata", "pkg/serializables/underscore.go GetEntryFileName")],
  ["results of serializables.NewFolder and serializables.GetEntryFileName, stored files after the run"],
  [("folder directory and its metadata file", "durable record of the folder", "<working dir>/folders/<id>/_")])

p("C10", "Every grid cell shows its own fact and its own footnotes",
  "In every rendered grid, the columns are exactly the contexts in which the entity reports some concept of the rows, each column is labelled with that context's own period and members, and each cell holds the value reported for its row's concept in its column's context, or nothing when none is reported. The footnote numbers of a cell lead to exactly the footnotes attached to that fact.",
  ["inputs", "schedules"],
  "For all filings (concepts, contexts, entities, dimensions, footnotes) the generator can express, all map iteration orders and all interleavings of the concurrent grid builders.",
  "The tests compare a few cells of fixed filings under one schedule and one map order; cross-wiring of rows, columns and notes needs other shapes and orders.",
  ["pkg/renderables/factualQuadrant.go", "pkg/renderables/contexts.go", "pkg/renderables/contextualQuadrant.go", "pkg/renderables/presentationGrid.go", "pkg/renderables/calculationGrid.go", "pkg/renderables/dimensionRelationshipSet.go", "pkg/hydratables/fact.go", "pkg/hydratables/instance.go"],
  [("row and column selection and cell lookup", "pkg/renderables/contexts.go, factualQuadrant.go; pkg/hydratables/fact.go"),
   ("footnote numbering", "pkg/renderables/factualQuadrant.go")],
  ["body of GET /folders/{id}/{hash}"])

p("C11", "The catalog lists exactly the networks that can be retrieved",
  "The catalog of a filing lists exactly the reporting entities of its contexts and exactly the relationship sets its schemas declare, and every listed network retrieved by its listed hash describes that same entity and relationship set. A hash that is not listed is answered with an error, before and after any other request.",
  ["inputs", "histories", "schedules"],
  "For all filings and all orders and overlaps of catalog and network requests.",
  "The tests look up one hard-coded hash per fixture and never compare the catalog with what is retrievable.",
  ["pkg/renderables/catalog.go", "pkg/renderables/renderable.go", "pkg/renderables/relationshipSet.go", "pkg/renderables/utility.go", "pkg/cache/cache.go"],
  [("hash of entity and relationship set", "pkg/renderables/catalog.go hash"), ("lookup by hash", "pkg/renderables/renderable.go MarshalRenderable")],
  HTTP)

p("C12", "A fact lookup returns that fact, in its own context, with its own footnotes",
  "Looking up a tagged name and context of an inline filing returns the concept, period, dimension members, value and footnotes of exactly that fact, in agreement with what the grids of the same filing show. Pairs for which the filing reports no fact give an empty answer and never another fact's data.",
  ["inputs", "histories", "schedules"],
  "For all inline filings, all pairs of tagged and untagged names and contexts, in any order and overlap, and all interleavings of the document scan.",
  "The tests look up a handful of facts of one filing once each.",
  ["pkg/renderables/expressable.go", "pkg/hydratables/document.go", "pkg/serializables/document.go", "pkg/cache/cache.go", "internal/web/web.go"],
  [("concurrent scan of the inline document", "pkg/serializables/document.go, pkg/hydratables/document.go"), ("fact lookup", "pkg/renderables/expressable.go")],
  ["body of GET /folders/{id}/facts?name=&contextref="])

p("C13", "The source document is served whole, with its own images in place",
  "Requesting an inline filing's entry document returns the stored document, in which each image element that names a JPEG or PNG file of the same folder carries that file's data instead of its name, and which is otherwise the same document. The document is never served truncated, empty, or with an image of another name or filing.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "For all inline documents and image sets, all request histories, interleavings and storage faults.",
  "One fixture with one image is requested once, on a healthy disk.",
  ["pkg/serializables/image.go", "pkg/serializables/folder.go", "pkg/serializables/document.go", "pkg/cache/cache.go"],
  [("image substitution", "pkg/serializables/image.go TransformInlineImages"), ("document caching", "pkg/cache/cache.go MarshalRenderable")],
  ["body of GET /folders/{id}/{entry document}"])

p("C14", "An interrupt lets requests in progress finish, within the grace period",
  "After an interrupt no new request is accepted, every request in progress that can finish within the grace period is answered completely before the process exits, and the process exits no later than the grace period allows. Without an interrupt the server keeps serving.",
  ["schedules", "fault_sequences", "configurations"],
  "For all moments of the interrupt relative to start-up and to requests in progress, all request durations (stalled storage), grace periods, and interleavings.",
  "No test starts the server, and the outcome depends on timing.",
  ["cmd/telefacts/main.go"],
  [("signal wait, shutdown with deadline, exit", "cmd/telefacts/main.go listenForShutdown"), ("server start", "cmd/telefacts/main.go main, setupServer")],
  ["exit time and code of the process, responses of requests in progress"])

p("C15", "Missing or broken optional reference data never fails a filing",
  "When the entity name list is absent, unreadable or malformed, every catalog, network and fact request is still answered as otherwise, with the raw entity identifier as the display name. When the list is available, each entity is shown under its listed name.",
  ["configurations", "fault_sequences", "histories", "schedules"],
  "For all states of the name list (absent, malformed, unreadable for part of the history, complete), all request histories and interleavings.",
  "All tests run with the one name list of the fixtures in place.",
  ["pkg/renderables/renderable.go", "pkg/renderables/catalog.go", "pkg/hydratables/query.go", "pkg/hydratables/global.go", "pkg/serializables/global.go"],
  [("entity name lookup and fallback", "pkg/hydratables/query.go EntityQuery; pkg/renderables/catalog.go, renderable.go")],
  HTTP)

p("C16", "Serving reads only the requested filings' files and changes nothing",
  "Whatever a filing's documents refer to and whatever a request asks for, the server reads only below the requested filings' own folders, the shared taxonomy, the name list and the web pages, wherever these are configured to be. While serving it never creates, changes or removes a stored file, and files elsewhere have no influence on any answer.",
  ["inputs", "histories", "configurations", "schedules"],
  "For all references in stored documents and metadata (parent directories, absolute paths, odd URLs, encoded separators), all request targets, all configured locations, all histories and interleavings.",
  "The fixtures refer to plain file names only, and a test sees the answer but not which files were read or written for it.",
  ["pkg/serializables/folder.go", "pkg/serializables/global.go", "pkg/serializables/underscore.go", "internal/web/web.go", "cmd/telefacts/main.go"],
  [("resolving references of a filing", "pkg/serializables/folder.go Discover/schemaRef/includeSchema/importSchema/linkbaseRefSchema"),
   ("resolving taxonomy addresses", "pkg/serializables/global.go UrlToFilename"), ("configured locations", "cmd/telefacts/main.go setupServer")],
  ["every file operation with its path; stored files after the run"] + HTTP)

p("C17", "An opened filing is served from memory for as long as the process runs",
  "Once a filing has been answered successfully and the server has come to rest, every request for that filing is answered exactly as over the files it was opened from, for as long as the process runs. It makes no difference whether the files have become unreadable, have changed or are gone, or how much time has passed.",
  ["histories", "fault_sequences", "schedules"],
  "For all request histories before and after, all moments and ways in which storage of the filing fails, changes or disappears, all idle times, and all interleavings.",
  "No test keeps a server running while its files change, fail or disappear, or lets hours pass.",
  ["pkg/cache/cache.go", "pkg/hydratables/hydratable.go", "pkg/hydratables/query.go", "pkg/hydratables/global.go"],
  [("opened filings and answers kept without expiry", "pkg/cache/cache.go"), ("shared schemas of a filing kept with it", "pkg/hydratables/hydratable.go, query.go")],
  HTTP, [("cache contents", "what later requests are answered from", "pkg/cache/cache.go appCache")])

p("C18", "Answered requests leave no goroutines and no open files behind",
  "Once all requests have been answered and time has passed, the process has no more goroutines and no more open files than before the first request. This holds also for requests that failed, for damaged filings and after storage errors.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "For all request histories over healthy and damaged filings, all placements of storage faults and stalls, and all interleavings.",
  "The tests end right after the answer and look neither at goroutines nor at open files.",
  ["pkg/serializables/folder.go", "pkg/renderables/renderable.go", "pkg/cache/cache.go", "pkg/serializables/schemaFile.go", "pkg/serializables/instanceFile.go"],
  [("goroutines started per request", "pkg/serializables/folder.go, pkg/renderables/renderable.go, pkg/cache/cache.go"), ("file reads", "pkg/serializables")],
  ["goroutines of the process by the place that started them, and open file handles, at rest"])

p("C19", "Slow storage of one filing does not hold up requests for others",
  "While reading the files of one filing takes long, requests for other filings are answered correctly without waiting for it. Requests for filings that are already open do not wait for storage at all.",
  ["schedules", "fault_sequences", "histories"],
  "For all placements and lengths of storage stalls, all sets of open and unopened filings, and all interleavings of overlapping requests.",
  "No test makes storage slow or overlaps requests.",
  ["pkg/cache/cache.go", "pkg/hydratables/global.go", "pkg/hydratables/measurement.go", "pkg/serializables/folder.go"],
  [("locks around cache access but not around opening", "pkg/cache/cache.go hydratable; pkg/hydratables/global.go")],
  ["simulated time between request and answer"] + HTTP)

p("C20", "Asking for what does not exist takes up no memory",
  "The memory the server keeps is bounded by the filings it has opened. Requests for unknown filings, networks, facts, contexts, documents or pages, and repetitions of earlier requests, leave nothing in memory, however many there are.",
  ["histories", "inputs", "schedules"],
  "For all lengths of request histories and all unknown names in every position of a request, before and after the filing is open.",
  "It takes many different requests to one process and a look at its memory; the tests make each request once.",
  ["pkg/cache/cache.go", "pkg/hydratables/global.go", "internal/web/web.go"],
  [("request-result cache keyed by request parameters", "pkg/cache/cache.go")],
  ["memory in use after collection, between rounds of requests"])

p("C21", "Clients that are slow, stop reading or go away affect nobody else",
  "Clients that take their answers slowly, stop reading or disconnect at any moment have no effect on others: every other request, at the same time or later, is answered exactly and without waiting for them. A slow client that can still take its whole answer in time gets exactly that answer.",
  ["fault_sequences", "schedules", "histories"],
  "For all mixes of healthy, slow, stuck and disconnecting clients over the same and other filings, all moments of disconnecting relative to the work done for the request, with and without slow storage, and all interleavings.",
  "The tests call the handlers with recorders that never block, never fail and never go away.",
  ["internal/web/web.go", "pkg/cache/cache.go", "cmd/telefacts/main.go"],
  [("writing of answers", "internal/web/web.go Catalog/Renderable/Expressable"),
   ("locks around shared results", "pkg/cache/cache.go lock"),
   ("write timeout", "cmd/telefacts/main.go setupServer")],
  ["simulated time between request and answer"] + HTTP)

p("N01", "Numbers are shown with the digits and scale that were reported",
  "The displayed parts of a numeric fact put together give the reported value at the reported precision, with its sign and unit.",
  ["inputs"], "For all reported numeric strings, decimals and units.",
  "Only a few values are covered.",
  ["pkg/renderables/fact.go", "pkg/hydratables/precision.go"], [("splitting a number for display", "pkg/renderables/fact.go render")], ["cells of rendered grids"])
p("N02", "Periods are described correctly in every language",
  "The text for a context's period names the same instant or interval in each supported language.",
  ["inputs"], "For all pairs of dates and languages.",
  "Only a few dates are covered.",
  ["pkg/renderables/english.go", "pkg/renderables/spanish.go", "pkg/renderables/formatPeriod.go"], [("period formatting", "pkg/renderables/english.go, spanish.go")], ["period headers of rendered grids"])
p("N03", "Definition grids list exactly the members the dimension rules allow",
  "The members offered for a line item and axis are exactly those the definition relationships make usable for it.",
  ["inputs"], "For all definition relationship trees.",
  "Only a few trees are covered.",
  ["pkg/renderables/effectiveDomainGrid.go", "pkg/renderables/dimensionRelationshipSet.go", "pkg/hydratables/definitionLinkbase.go"], [("effective domain computation", "pkg/renderables/effectiveDomainGrid.go")], ["definition part of rendered grids"])
p("N04", "Labels shown are those assigned to the concept, role and language",
  "Each label shown for a concept is the text its label linkbase assigns for that role and language.",
  ["inputs"], "For all label linkbases.",
  "Only a few labels are covered.",
  ["pkg/renderables/label.go", "pkg/renderables/labelPack.go", "pkg/hydratables/labelLinkbase.go"], [("label lookup", "pkg/renderables/label.go GetLabel")], ["labels of rendered grids"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
