"""What each check runs."""


def part(pkg, test, checks, shards=6, budget=60, **kw):
    d = dict(pkg=pkg, test=test, checks=checks, shards=shards, budget=budget)
    d.update(kw)
    return d


CHECKS = {
    "C01": dict(parts=[part("core", "TestC01", 2500)]),
    "C02": dict(parts=[part("core", "TestC02", 2500)]),
    "C03": dict(parts=[part("core", "TestC03", 2500)]),
    "C04": dict(parts=[part("core", "TestC04", 2500)]),
    "C05": dict(parts=[part("core", "TestC05", 2500)]),
    "C06": dict(parts=[part("core", "TestC06", 4000)]),
    "C07": dict(parts=[part("core", "TestC07", 4000)]),
    "C08": dict(parts=[part("core", "TestC08", 3000)]),
    "C09": dict(parts=[part("core", "TestC09", 5000)]),
    "C10": dict(parts=[part("core", "TestC10", 6000)]),
    "C11": dict(parts=[part("core", "TestC11", 2000)]),
    "C13": dict(parts=[part("bk", "TestC13", 2500)]),
    "C14": dict(parts=[part("codec", "TestC14", 6000)]),
    "C21": dict(parts=[part("codec", "TestC21", 20000)]),
    "C22": dict(parts=[part("codec", "TestC22", 12000)]),
    "C12": dict(parts=[part("core", "TestC12", 3000)]),
    "C17": dict(parts=[part("stores", "TestC17", 1200)]),
    "C18": dict(parts=[part("stores", "TestC18", 6000)]),
    "C19": dict(parts=[part("stores", "TestC19", 2500)]),
    "C20": dict(parts=[part("stores", "TestC20", 1500)]),
    "C27": dict(parts=[part("core", "TestC27", 4000)]),
    # The msgpack codec needs its "safe" mode with current Go releases.
    "C23": dict(parts=[part("api", "TestC23", 1500, tags="safe")]),
    "C24": dict(parts=[part("api", "TestC24", 1000, tags="safe")]),
    "C25": dict(parts=[part("api", "TestC25", 1000, tags="safe")]),
    "C26": dict(parts=[part("api", "TestC26", 1500, tags="safe")]),
    "C28": dict(parts=[part("api", "TestC28", 300, tags="safe")]),
    "C29": dict(parts=[part("api", "TestC29", 400, tags="safe")]),
    "C15": dict(parts=[part("core", "TestC15", 4000)]),
    "C16": dict(parts=[part("core", "TestC16", 6000)]),
}

NOTES = {}
_model = "stateful property-based testing (rapid) against a reference model of the list"
_trust = "Random search over generated list histories; trusts the in-memory reference model and store of the harness. "
NOTES["C01"] = (_model, _trust + "Lists up to some hundred elements in up to dozens of partitions; every element and radius boundary compared.")
NOTES["C02"] = (_model, _trust + "Offsets, limits, scores and percentiles at and beyond every boundary.")
NOTES["C03"] = (_model, _trust + "Content, ranks, previous ranks and payloads compared after every write.")
NOTES["C04"] = (_model, _trust + "Content compared after every delete, including unknown and repeated IDs and deleting everything.")
NOTES["C05"] = (_model + "; metamorphic (split/merge changes no answer) and size bounds", _trust + "Settled partition sizes checked when elements can be separated.")

NOTES["C06"] = ("property-based testing with generated data corruption against a known-damage oracle", _trust + "Damage is done to the stored blobs behind the list; a lost index table is rebuilt on load and therefore not required to be reported.")
NOTES["C07"] = ("property-based testing with generated data corruption; oracle: readable elements, de-duplicated", _trust + "Up to three damages per case; lock leaks found by VerifyUnlocked and by following operations.")
NOTES["C08"] = (_model + "; metamorphic (eviction, release and re-open change no answer)", _trust + "Only element writes happen between saving a catalogue and loading it.")
NOTES["C09"] = ("stateful property-based testing with generated storage faults against a reference model", _trust + "A fault is one or all storage operations from the n-th on failing before or after taking effect, or a cancelled context. Blobs left behind by failed deletes are allowed; elements named in a failed write may end in the old or new state or be missing.")
NOTES["C11"] = (_model + " of several lists; exact accounting of stored blobs", _trust)
NOTES["C12"] = (_model + " of source and copies, with generated storage faults", _trust)

NOTES["C13"] = ("property-based testing: backup/restore round trip against the model at the time of the backup, with generated destination, storage and cancellation faults and stream mutation", _trust + "S3 is a stand-in; a cancelled job may leave lists it did not reach unnamed in its status. The destination server of server-to-server backups is a stand-in here; the real one is used by C24.")

NOTES["C14"] = ("property-based testing: round trip through both forms, structure-aware mutation fuzzing of every stored format with allocation and crash oracles", _trust + "The raw generated decoders are not given more declared entries than bytes (known finding); all loading paths are.")
NOTES["C21"] = ("property-based testing: order, injectivity and round-trip laws over generated bit patterns", "All NaNs map to one value below all others and -0 to +0, as the code documents; every other double is exact.")
NOTES["C22"] = ("property-based testing of the collection operations against their definitions (reference implementations and algebraic laws)", "Elements equal in every respect but the payload are not ordered by the definition; index IDs are ordered descending.")

NOTES["C15"] = (_model + " of both stored copies, with generated storage faults and data corruption", _trust + "A failing backup copy alone is only logged by SaveLists; damaged copies may still load when they hold their original content (bits without meaning).")
NOTES["C16"] = ("property-based testing of paging and selection against a sorted reference catalogue", _trust)

NOTES["C10"] = ("property-based testing of generated concurrent scripts with generated storage delays; per-goroutine reference models (linearizable own writes, stable elements)", "Schedules are sampled, not enumerated; failures may need several re-runs to reproduce. Ranks, offsets and order by rank of a read that runs concurrently with writes are not judged, nor are data races without visible effect. VerifyUnlocked (a lock diagnostic) is only run alone.")

NOTES["C27"] = (_model + " with the real background jobs running at short intervals; polling liveness check for splitting; reload of the catalogue left at shutdown", _trust + "Schedules are sampled. Jobs are stopped in the order the server uses (pruner and splitter, then saver). A list counts as not split after 30 s of repeated writes.")

NOTES["C17"] = (_model.replace("the list", "the store") + ", generated backing faults and delays, concurrent single-writer registers, and shutdown at generated points", "Trusts the map model and the harness' backing store. Schedules are sampled. The backing store fails at most three times in a row per key: the code gives up on a write after five failed attempts and logs it.")
NOTES["C18"] = (_model.replace("the list", "the store") + " with generated backing faults, lost pieces and damaged headers", "A failed write may leave the old value, the new value or nothing readable; pieces may be left behind when a new instance overwrites a key it has not read. Keys ending in '+digits' are excluded (the names of pieces). Shortened pieces are not required to be noticed.")
NOTES["C19"] = ("property-based testing against a scripted backing store that predicts every attempt", "The default back-off is only followed for three attempts. Wrapped permanent errors are not generated.")
NOTES["C20"] = (_model.replace("the list", "the store") + " over the memory, Bolt and Badger stores, with re-opening and concurrent single-writer registers", "DynamoDB and Aerospike need servers and are not run. No process crash: files are closed before they are opened again. Names the stores refuse (empty; keys of one byte) only need to be refused without effect; values up to 1 MB must be accepted.")

_srv = "property-based testing of a real server process over HTTP"
_apitrust = "Trusts the reference model and the HTTP client of the harness. Seven server configurations (memory, Bolt, Badger; with and without lazy saving and caches). The msgpack codec is built in its portable mode. "
NOTES["C23"] = (_srv + " against a reference model of every list, in JSON and msgpack", _apitrust + "The previous rank in an answer is compared without its payload.")
NOTES["C24"] = (_srv + " against a reference model of all lists; backup and restore round trips, also between two servers", _apitrust + "Lists stay undamaged; S3 is a stand-in that keeps objects in memory; destinations that fail, stall or refuse are stand-ins too.")
NOTES["C25"] = (_srv + " with generated tokens and paths against an access oracle; state compared before and after refusals", _apitrust + "Elements brought along by ranges, percentiles and neighbours are not limited by only_elements, as documented. DynamoDB, S3 and New Relic are not run.")
NOTES["C26"] = ("structure-aware fuzzing of requests to a real server process; oracle: invalid requests are refused without effect, any request is answered without a server error and leaves every list verifiable", _apitrust + "Requests naming files or URLs are not changed at random. A body that is refused while it is still being sent may end in a closed connection.")
NOTES["C29"] = (_srv + " that is started on generated storage damage; oracle: reference model of the undamaged lists and the readable elements of the damaged ones", _apitrust + "Bolt store only; single blobs are damaged while the server is down, the catalogue itself stays intact (C15).")
NOTES["C28"] = (_srv + ", stopped and started again on its storage, with concurrent single-writer registers during the shutdown", _apitrust + "Bolt and Badger stores with and without lazy saving. Only the process ends, not the machine. A kill without shutdown is only judged while no request and no splitting is in progress, on Bolt without lazy saving: Badger's write queue and the lazy saver keep writes in memory by design.")
