import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Element lookups report the true rank, data and neighbours",
"For any list content, looking up a set of element IDs returns exactly those that exist, each once and ordered by rank, with its stored score, tie-breaker, update time and payload. Elements above and below are counted in the order: higher score first, then higher tie-breaker, then earlier update time, then lower ID. With a neighbour radius the result also holds the nearest elements on each side, nearest first, as many as exist up to the radius, across internal partition boundaries.",
["inputs","histories","configurations"],
"Every list content (ties on any prefix of the sort key, extreme 64/32-bit values, any payload), every split/merge size and partition layout, every set of requested IDs incl. unknown and repeated ones, every radius.",
"Tests sample uniformly random scores with few layouts; ties, equal keys spanning a partition edge, tiny partitions and radii longer than a partition are hardly reached.",
["list.go","segments.go","elements.go","rankedelement.go"],
[("List.GetElements / findRanked","list.go"),("Elements.Sorter, Ranked","elements.go"),("Segments.topIndexElement, elementRanges","segments.go")],
["List.GetElements"],
[("segments + index","list partitioned by score, index partitioned by element ID","segments.go")])

p("C02","Top, bottom, score, percentile and size queries match the sorted list",
"For any list content, reading from an offset from the top or from the bottom, reading from a score downwards, reading a percentile, the length and the statistics all agree with the same list fully sorted. Offsets at or beyond the length are rejected as out of bounds; a score below every element yields an empty result; an empty list has no percentile element. Ranks reported with the elements and neighbours are list-wide, not partition-relative.",
["inputs","histories","configurations"],
"Every list content and layout, every offset/limit/score/percentile/radius incl. boundary values and values that fall exactly on a partition edge.",
"Tests use a handful of offsets on a few thousand random elements; they do not vary layouts with tied scores or an empty last partition and never query an empty list.",
["list.go","segments.go"],
[("List.GetRankTop/GetRankBottom/GetRankScoreDesc/GetPercentile/Len/Stats","list.go")],
["List.GetRankTop","List.GetRankBottom","List.GetRankScoreDesc","List.GetPercentile","List.Len","List.Stats"])

p("C03","Writes leave exactly the intended content and report true ranks",
"After any sequence of populating, inserting and updating, the list holds exactly the last written version of each element and nothing else. An update returns every written element once with its rank and neighbours in the list after the whole batch and, for elements that existed before, the score and the list-wide rank before the batch. An update that carries no payload keeps the payload stored earlier.",
["inputs","histories","configurations"],
"Every history of populate/insert/update batches, of any size and score distribution (moves within a partition, across partitions, to the extremes), under every split/merge size.",
"Tests perform one or two bulk updates and compare a few fields; they never follow a long history against a model, nor check previous ranks or payload retention.",
["list.go","segments.go","elements.go"],
[("List.UpdateElements / updateElements","list.go"),("List.Insert/Populate/insert/populate","list.go"),("Elements.Merge/Update/Add","elements.go")],
["List.UpdateElements","List.Insert","List.Populate"])

p("C04","Deleting elements removes exactly those elements",
"After deleting a set of element IDs none of them can be found by any query, every other element keeps its data and relative order, and length and ranks shrink accordingly. Deleting unknown IDs is not an error and changes nothing. Deleted elements can be added again, and a list emptied by deletion keeps working.",
["inputs","histories","configurations"],
"Every list content/layout, every set of IDs (all, none, unknown, repeated, whole partitions), every later history.",
"Tests delete a few elements from one list; emptied partitions, re-adding and deletion of everything are not systematically explored.",
["list.go","segments.go","segment.go"],
[("List.DeleteElements","list.go"),("Segments.DeleteElements","segments.go"),("segment.deleteElements","segment.go")],
["List.DeleteElements"])

p("C05","Splitting and merging partitions never changes what a list contains",
"Splitting or merging a list's partitions, however often and at whatever sizes, leaves the result of every query unchanged and a list that passes verification. Once repeated splitting settles, no partition holds as many elements as the configured split size (elements with equal score and tie-breaker cannot be separated), and neighbouring partitions that fit in the merge size together have been joined.",
["inputs","histories","configurations"],
"Every content (incl. all-equal scores), every valid merge/split size pair, every history of writes, deletes and splits.",
"Tests split lists built with one fixed configuration; the interplay of tiny sizes, equal scores and emptied partitions is not covered.",
["list.go","segments.go"],
[("List.ForceSplit / split","list.go"),("Segments.splitSegment, mergeWithNext, newSegments, addSegment, replaceSegment","segments.go")],
["List.ForceSplit","List.Stats"])

p("C06","Verification accepts every reachable list and rejects damaged ones",
"Verification, shallow and of all elements, reports no error for any list that was produced by the public operations. If stored data of a list is lost, undecodable, or has an element added, removed, duplicated, put out of order, moved to another score range or missing from the element index, verification of all elements reports an error, unless what was lost is the index as a whole, which may be rebuilt. Verification never modifies the list and never crashes.",
["inputs","histories","fault_sequences"],
"Every history for the positive half; for the negative half every generated tampering of the stored blobs of such a list.",
"Tests call verify on healthy lists and on one or two hand-made defects.",
["list.go","segments.go","segment.go"],
[("List.Verify, VerifyElements","list.go"),("Segments.Verify, VerifyElements","segments.go")],
["List.Verify","List.VerifyElements"])

p("C07","Reindex and repair restore a correct list",
"Re-indexing rebuilds the element lookup so that every stored element is found again, without changing content, whatever happened to the stored index. Repair turns a list with lost or corrupt stored data into one that passes full verification and keeps every element that is still readable, each once; elements in readable partitions are never lost, and when it cannot read a partition it fails without harm unless told to drop it. Neither leaves locks held: the list stays usable whatever the outcome.",
["histories","fault_sequences"],
"Every list history followed by any combination of lost/corrupted index or partition blobs, or duplicates.",
"Tests cover a lost index or a single lost partition with default sizes.",
["list.go","segments.go"],
[("List.Repair, Reindex","list.go"),("List.reindex / loadSegments recovery","list.go")],
["List.Repair","List.Reindex","all queries afterwards"])

p("C08","Unloading, caching and reloading are invisible",
"Releasing a list's memory, evicting cached data at any time, using any cache or none, and re-opening the saved list from the store through a new process state never changes the result of any query: everything acknowledged earlier is still there. This holds also if the list catalogue was saved before later element writes.",
["histories","configurations"],
"Every history of writes interleaved with release/evict/reopen steps, with no cache, tiny caches and large shared caches, with and without index preloading.",
"Tests reload a list once after populating it; interleavings of writes and unloads are not explored.",
["list.go","segments.go","cache.go","lists.go"],
[("List.ReleaseSegments, loadSegments","list.go"),("segments cache","cache.go"),("Segments save/load","segments.go")],
["every List query before/after release or reopen"])

p("C09","Storage failures are reported and never silently lose data",
"When the backing store fails on any read, write or delete, an operation that reports success has taken full effect durably, and one that could not complete reports an error. No failure crashes or wedges the process: when the store works again the list answers, elements not named in the failed operation keep their stored value, those named have their old or new value or are absent, and other lists are unaffected.",
["fault_sequences","histories"],
"Every position at which a store call fails (single, repeated or permanent; read, write or delete) in every operation of every history.",
"Tests inject failures in a few hand-picked calls.",
["list.go","segments.go","segment.go","blobstore/teststorage.go"],
[("error propagation in segment load/save","segment.go, segments.go"),("List operations' error returns","list.go")],
["List operations over a failing blobstore.Store"])

p("C10","Concurrent use loses no update, and never deadlocks or crashes",
"Any number of goroutines may read, update, insert, delete, split, release, re-index, verify and clone the same list at the same time: every call returns, acknowledged writes to distinct elements are all present afterwards, and the list then passes verification. A concurrent reader never sees an element that was stable throughout as missing, duplicated or with another value.",
["schedules","histories"],
"Every mix of concurrent operations on one or several lists sharing a cache and store, at every interleaving.",
"Tests run a couple of concurrent smoke loops with fixed operation mixes and large partitions.",
["list.go","segments.go","segment.go"],
[("List.RWMutex, Segments lock, per-segment locks, update lock","list.go, segments.go")],
["public List methods from many goroutines"])

p("C11","Lists are isolated and deleting a list removes all its stored data",
"Operations on one list never change what another list in the same store and catalogue returns, even with equal element IDs and a shared cache. Stored data that a list no longer refers to is removed: after deleting a list nothing of it remains in the store, and while it lives the store holds only the data it uses.",
["histories","configurations"],
"Every interleaving of operations over several lists, incl. populate-over, split, merge, re-index, repair, clone and delete.",
"Tests check one list at a time and do not account for stored blobs.",
["list.go","segments.go","manager.go"],
[("List.DeleteAll","list.go"),("Segments.deleteAll/replaceSegment","segments.go"),("Manager.DeleteList","manager.go")],
["blobstore content","other lists' queries"])

p("C12","A cloned list is an equal but independent copy",
"Cloning gives the new list the same elements, payloads, order and ranks as the source at that moment, whatever split/merge sizes or storage set it uses. Later changes to either list never show in the other, and deleting one leaves the other intact. If the copy cannot be made completely, the clone fails with an error.",
["histories","configurations","fault_sequences"],
"Every source content and layout, every target sizes/set, every history applied to both afterwards, failures while cloning.",
"Tests clone one list once with equal settings.",
["list.go","segments.go"],
[("List.cloneElements, WithListOption.Clone","list.go")],
["NewList with Clone option"])

p("C13","Backup then restore reproduces every list",
"Restoring a backup into any database recreates each backed-up list with the same elements, payloads, metadata and settings, under its original ID with the requested prefix and suffix; existing lists are kept or replaced as requested and lists not in the backup are untouched. Damaged or truncated backup data yields an error or a named failed list, never a crash, and no list is reported restored with wrong content. Unless the job was cancelled, its status names every list that was, or was not, backed up.",
["inputs","histories","fault_sequences"],
"Every set of lists (incl. empty ones, unknown IDs), every prefix/suffix/replace choice, every truncation or corruption position, store failures during backup and restore.",
"Tests round-trip one fixed server state and never damage the stream.",
["backup/job.go","backup/restore.go","list.go"],
[("Request.Start","backup/job.go"),("RestoreInfo.Restore","backup/restore.go"),("List.Backup, RestoreList","list.go")],
["backup.Request.Start","RestoreInfo.Restore","ID.Status"])

p("C14","Stored formats round-trip exactly and reject garbage without crashing",
"Encoding then decoding any element, element collection, partition table, list or ID collection gives back the same value, through both the buffer and the stream form. Loading stored data that is arbitrary, truncated or corrupted returns a value or an error but never panics, hangs or allocates without bound in relation to the input.",
["inputs"],
"Every value of the stored types; every byte string, incl. mutations of valid encodings.",
"Generated tests only encode zero values.",
["element_gen.go","elements_gen.go","segment_gen.go","segments_gen.go","list_gen.go","list-id_gen.go","msgppool.go","lists.go"],
[("generated msgp codecs","*_gen.go"),("versioned header, pools","msgppool.go")],
["MarshalMsg/UnmarshalMsg/EncodeMsg/DecodeMsg, Lists.Load, RestoreList"])

p("C15","The list catalogue survives saving, loading and loss of its main copy",
"Loading a saved catalogue gives exactly the lists saved, with their IDs, sets, metadata, sizes and content. Saving reports an error when the catalogue was not stored; when the primary copy is missing or unreadable the most recent backup copy is loaded, and a fresh store starts empty. A failed or damaged load never leaves a half-loaded catalogue or crashes.",
["histories","fault_sequences","inputs"],
"Every set of lists, every history of add/delete/save, every loss or corruption of stored catalogue copies and every storage failure while saving or loading.",
"Tests save and load a fixed set of lists once.",
["manager.go","lists.go"],
[("Manager.SaveLists, LoadLists","manager.go"),("Lists.Save, Load","lists.go")],
["Manager.SaveLists","Manager.LoadLists","Lists.*"])

p("C16","Catalogue paging and selection return exactly the right lists",
"Paging forwards or backwards from any list ID returns the nearest lists on that side in lexicographic order, at most as many as asked, with the true number of lists before and after the page; walking all pages visits every list once. Selecting by metadata and storage set returns exactly the lists that match all metadata values together with all lists of the named sets. Existence checks, lookups and deletes reflect the lists present.",
["inputs","histories"],
"Every set of list IDs, every start ID (existing or not), page size, metadata query and set selection.",
"Tests page through a few equally spaced IDs.",
["lists.go","list-id.go"],
[("Lists.SortedIDsAfter/SortedIDsBefore/MatchAll/Exists/ByIDs","lists.go"),("ListIDs.Deduplicate","list-id.go")],
["Lists methods"])

p("C17","The write-behind store behaves like the store it fronts",
"Through the delayed-write store every read returns the value of the latest write or delete of that key, at any moment, whether or not it has been written to the backing store. Every write reaches the backing store some time after the delay. After shutdown the backing store holds the last value of every key, and nothing else, if the backing store accepted the writes within a few attempts; later calls are refused. Delays, queue limits, slow or temporarily failing backing stores and concurrent callers do not make it return or persist an older value.",
["histories","schedules","fault_sequences","configurations"],
"Every history of set/get/delete over keys and sets (incl. names containing separators), every queue size/delay/saver count, slow and failing backing store, shutdown at any point.",
"Tests run the generic store smoke test with one configuration.",
["blobstore/lazysaver.go"],
[("LazySaver queue, savers, in-flight tracking, Shutdown","blobstore/lazysaver.go")],
["LazySaver.Set/Get/Delete/Shutdown + backing store content"])

p("C18","The size-limiting store stores any blob losslessly within the limit",
"Reading returns exactly the bytes last written for a key, of any length, and not-found after delete, while no blob handed to the backing store exceeds the limit. Overwriting with longer or shorter data or deleting leaves no leftover pieces, values beyond the supported total are refused, and a missing or failing piece gives an error, never wrong data. A failed write leaves the old value, the new value or nothing readable, never a mixture.",
["inputs","histories","fault_sequences"],
"Every limit, value length (around multiples of the limit), overwrite/delete history and failing or lost part.",
"Tests use one limit and a few sizes on a healthy store.",
["blobstore/maxsize.go"],
[("MaxSizeStore.Set/Get/Delete","blobstore/maxsize.go")],
["MaxSizeStore + backing store content"])

p("C19","Retrying retries what is transient and only that",
"An operation succeeds if some attempt permitted by its back-off succeeds, and its effect is as if it had been made once; otherwise the backing store's error is returned. Permanent errors, built in or configured on that store, are returned at once without further attempts and without affecting other stores. A cancelled or expired context ends the retrying, and each attempt is bounded by its own time limit.",
["fault_sequences","configurations"],
"Every sequence of transient/permanent outcomes, every back-off per operation kind, configured permanent errors, cancellation at any attempt, several stores with different settings.",
"Tests run the generic smoke test without a single failure.",
["blobstore/retry.go"],
[("RetryStore.retry options","blobstore/retry.go")],
["RetryStore.Get/Set/Delete + attempts seen by the backing store"])

p("C20","Every storage backend is a faithful map of (set, key) to bytes",
"The in-memory, file and log-structured backends return the bytes last stored for a set and key, not-found for absent or deleted ones, keep the sets and keys they accept apart whatever characters they contain, and accept deletes of absent keys. A call that is refused leaves the stored value as it was. Stored and returned values are private copies: later changes to a caller's buffer never show. For the persistent ones all acknowledged operations survive closing and re-opening.",
["inputs","histories"],
"Every history of set/get/delete/reopen over arbitrary set/key names and values; concurrent callers on distinct keys.",
"Tests run random keys from one alphabet and never reopen the database or reuse buffers.",
["blobstore/memstore/memstore.go","blobstore/boltstore/boltstore.go","blobstore/badgerstore/badger.go","blobstore/blobstore.go"],
[("MemBlobStore","blobstore/memstore/memstore.go"),("BoltStore","blobstore/boltstore/boltstore.go"),("BadgerStore","blobstore/badgerstore/badger.go"),("StoreWithSet","blobstore/blobstore.go")],
["blobstore.Store methods of each backend"])

p("C21","Float scores map to integers in the same order and back exactly",
"Converting any 64-bit float to a sortable integer preserves order, maps different numbers to different integers, and converting back yields the identical bits, including infinities, extreme and denormal values. Negative zero equals zero, and every NaN sorts below all numbers and comes back as a NaN.",
["inputs"],
"Every 64-bit float bit pattern (and every integer for the reverse mapping).",
"Tests check a short table of values.",
["sortfloat/float.go"],[("SortableFloat64/ReverseFloat64","sortfloat/float.go")],["sortfloat functions"])

p("C22","In-memory element collections obey set and ordering laws",
"Sorting, inserting, adding, updating, deleting, merging (with and without de-duplication), de-duplicating and splitting element collections yield a correctly ordered collection with exactly the expected elements: nothing lost, invented or duplicated. De-duplication keeps, per ID, the latest update and on equal time the higher score; de-duplicating merge lets new elements replace existing ones. Lookups, ranks and ID-set operations agree with their definitions, and cloned data shares nothing with its origin.",
["inputs"],
"Every pair of collections (overlapping or disjoint ranges, ties, duplicates), every insert position and split size.",
"Tests exercise random collections with almost no ties and few sizes.",
["elements.go","element.go","rankedelement.go"],
[("Elements methods","elements.go"),("ElementIDs methods","element.go"),("RankedElements methods","rankedelement.go")],
["exported Elements/ElementIDs/RankedElements methods"])

p("C23","The element endpoints answer like the ranked list they expose",
"Over HTTP, creating, reading, updating, deleting and listing elements - alone, in bulk, around an element, by range, by percentile, and for one element across lists - returns what the sorted reference list returns: rank from top and bottom, neighbours (best first) in the documented range, previous rank and score on updates, found and not-found sets. Missing lists or elements give not-found and creating an existing element gives a conflict that changes nothing.",
["inputs","histories"],
"Every history of element requests with generated scores, tie-breakers, payloads, ranges, limits and offsets over lists with tiny partitions, in both JSON and MessagePack.",
"Tests make a few requests per endpoint on fixed data with at most one neighbour.",
["api/elements.go","api/multilist.go","api/services.go","api/morph"],
[("elements controller","api/elements.go"),("result morphing","api/morph")],
["HTTP responses of /lists/{id}/elements..."])

p("C24","The list and multi-list endpoints act on exactly the addressed lists",
"Over HTTP, creating, reading, paging, cloning, re-indexing, verifying, repairing, backing up, restoring and deleting lists behave as documented, and multi-list operations apply to exactly the lists named or selected by metadata or sets - never to any other - and report the outcome of every one of them. Creating an existing list conflicts unless replacing was asked for, invalid settings are rejected, and deleting a missing list succeeds.",
["inputs","histories"],
"Every set of lists with metadata and sets, every selection, every history of list-level requests.",
"Tests use one selection form per endpoint on fixed lists.",
["api/lists.go","api/multilist.go","api/backup.go"],
[("lists controller","api/lists.go"),("multilist controller, onEveryList, selection","api/multilist.go"),("backup controller","api/backup.go")],
["HTTP responses of /lists, /xlist, /backup"])

p("C25","Access tokens grant exactly their scopes, lists and elements",
"With access control on, a request succeeds only with a valid, unexpired token signed by a trusted key that carries the scope the endpoint requires, and, if the token is limited to certain lists or elements, only when everything it addresses is among them. A limit that cannot be understood is never ignored. Any other request is refused and neither changes nor reveals anything; requests within the token's rights are not refused. Documentation served without a token never includes anything else.",
["inputs","configurations"],
"Every combination of endpoint, scopes, list and element limits, signing key/algorithm, validity times and addressed lists/elements incl. bulk requests.",
"Tests run with access control off.",
["api/jwt.go","api/elements.go","api/lists.go","api/multilist.go"],
[("JWT middleware and hasAccessToList/Element","api/jwt.go")],
["HTTP status and body, state afterwards"])

p("C26","Malformed requests are refused cleanly and change nothing",
"Any request that does not satisfy the documented API - undecodable body, wrong types, values out of range, bad identifiers, unknown routes or methods - gets a client-error response. It never crashes the server, never results in a server error, never leaves the list state changed, and the server keeps serving other requests.",
["inputs"],
"Every generated mutation of valid requests: path, query, headers, body bytes, content type.",
"Tests send a few bad values.",
["api/services.go","api/elements.go","api/lists.go","api/multilist.go","api/app"],
[("goa validation, error middleware","api/services.go, api/app")],
["HTTP status, state afterwards"])

p("C27","Background maintenance never loses data and stops cleanly",
"With periodic saving, pruning and automatic splitting running while lists are used, every query keeps returning the right result and lists that grow past the split size get split. On shutdown each maintenance job finishes and acknowledges, and the catalogue saved at that point contains every list and loads with all acknowledged content.",
["schedules","histories","configurations"],
"Every interval configuration and history of operations, with shutdown at any point.",
"Tests start the jobs once with a single list.",
["manager.go","lists.go"],
[("Manager.StartIntervalSaver/StartListPruner/StartListSplitter","manager.go"),("Lists.Prune","lists.go")],
["Manager jobs, reloaded catalogue"])

p("C28","A server restarted on its storage has everything it acknowledged",
"After an orderly shutdown, at any moment and with requests in progress, the server process ends by itself, and started again on the same storage it shows every list, setting and element exactly as acknowledged and passes verification. Requests arriving during shutdown are answered or refused; one that was cut off took effect fully or not at all. With a store that queues no writes, element writes acknowledged to saved lists even survive the process being killed while idle.",
["histories","schedules","configurations"],
"Every history of list and element requests, every persistent storage configuration (with and without delayed writes, caches, retries and short save intervals), every moment of shutdown, repeated restarts.",
"Tests never stop and restart a server; they use a memory store.",
["api/rankdb.go","api/shutdown.go","api/services.go","manager.go","blobstore/lazysaver.go","blobstore/boltstore/boltstore.go","blobstore/badgerstore/badger.go"],
[("StartServer, shutdown stages and store closing order","api/rankdb.go"),("ShutdownMiddleware","api/shutdown.go"),("StartIntervalSaver shutdown save","manager.go")],
["HTTP responses of a restarted server"])

p("C29","A server on damaged storage isolates, reports and repairs the damage",
"When stored data of some lists was lost or became undecodable while the server was down, the server starts with every list in its catalogue and serves the undamaged lists exactly as before. Requests on a damaged list give right data or an error, never wrong data, omissions passed off as complete, or a crash. Verification and backups name the damaged lists and no others; repair on request restores every element still readable, drops the lost ones only with permission, and leaves lists that verify, stay usable and survive a restart.",
["inputs","faults","histories","configurations"],
"Every combination of lost, cut, outdated or undecodable stored blobs (partitions, index, tables) of any lists, every order of reads, verification, backup and repair requests in all their forms.",
"Tests damage a list in memory only once and never through the API.",
["api/lists.go","api/multilist.go","list.go","segments.go","backup/job.go","backup/restore.go"],
[("ListsController.Verify/Repair/Reindex","api/lists.go"),("MultilistController.Verify, onEveryList","api/multilist.go"),("List.Repair, Verify, VerifyElements","list.go")],
["HTTP responses, state after repair and restart"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
