# The properties: (id, title, statement, over, quantifier text, why tests can't,
# files, mechanism [(name, where)], observe_at)
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


p("C01", "Logger writes exactly the records its configuration allows",
  "A debug record is written if and only if debugging is switched on and the pin of the record "
  "shares a bit with the configured pins; every other record (print, error, panic, fatal) is always "
  "written, whatever the pins and the debug switch are, also an error record without an error (nil). Each call writes exactly one whole record "
  "that is never split, lost, duplicated or mixed with another one, also under concurrent use.",
  ["inputs", "configurations", "schedules"],
  "every configuration (debug switch, pins, prefix), every pin of a call, every sequence of calls, any number of goroutines",
  "log_test.go tries one or two pins in one goroutine; the 2^64 pins and concurrent writers are out of its reach",
  ["node/log/log.go"], [("pin and debug test before the output", "node/log/log.go: Debug*"),
                        ("standard logger's lock", "node/log/log.go: NewLogger")],
  ["output writer"])

p("C02", "Log records carry the right text, prefix and call site",
  "A record holds the configured prefix, the severity mark of the method that wrote it, the file and line "
  "of the caller (if location flags are set) and the arguments formatted as fmt would format them, the error of an "
  "error record first. The arguments the caller passed are left as they were. A logger starts with the local time and the short "
  "location on and, if no output is given, with the standard error as its output. Panic methods panic with the printed text after writing; fatal methods "
  "write and then end the process with a non-zero code.",
  ["inputs", "configurations"],
  "every method, every argument list (verbs, percent signs, newlines, nil errors), all flags",
  "log_test.go compares a few fixed strings; error text with format verbs, empty arguments and call depth are not sampled",
  ["node/log/log.go"], [("call depth and Sprint variants", "node/log/log.go")], ["output writer", "exit code"])

p("C03", "Command-line flags and limits of configurations take effect",
  "Every command-line flag of the logger, container and node configurations sets exactly the option it documents to the given "
  "value, and an option whose flag is absent keeps the value it had before the parsing. A configuration is accepted "
  "if and only if all its options are within the documented limits.",
  ["inputs", "configurations"],
  "every initial configuration, every subset, order and value of flags; every combination of limits",
  "no test parses flags except one; the validation is tested with the defaults only",
  ["node/log/log.go", "skyobject/config.go", "node/config.go"],
  [("FromFlags", "node/log/log.go, skyobject/config.go, node/config.go"), ("Validate", "skyobject/config.go")])

p("C04", "Rolling averages equal the mean of the last samples",
  "A rolling average of a window of n samples always equals the arithmetic mean of the last n samples added (of all of them, "
  "while less than n are added), within rounding; a sample of a start time is the time passed since it; without samples it is zero, and the value read is the value the last "
  "addition returned. It holds with any number of goroutines adding and reading: no sample is lost or counted twice.",
  ["inputs", "histories", "schedules"],
  "all windows, all streams of samples, all interleavings",
  "the tests add a few samples in one goroutine to one window and compare a couple of values",
  ["skyobject/statutil/average.go"], [("ring of samples under a lock", "skyobject/statutil/average.go: NewFloat, NewDuration")])

p("C05", "Amounts and volumes print the number they stand for",
  "The text of an amount or a volume denotes the value to the precision it shows: its numeric part times its unit differs from "
  "the value by at most half a unit of the last shown digit, the unit is the largest that does not exceed the value, "
  "and no trailing zeroes or separators are left. It holds for every value a counter can take.",
  ["inputs"], "every 32-bit amount and volume, in particular around each unit boundary",
  "the tests sample a dozen of values; the boundaries and rounding of others are not tried",
  ["skyobject/statutil/statutil.go"],
  [("String", "skyobject/statutil")])

p("C06", "Object store keeps exactly the objects and references counted",
  "An object store behaves as a map from the hash of a value to the value and its references counter: reading returns the stored bytes, "
  "setting and incrementing change the counter by exactly the given number and return the new one, deleting removes the object, and "
  "iteration visits every stored object once. The memory and the on-disk stores behave the same, errors "
  "leave the content unchanged.",
  ["inputs", "histories"],
  "every sequence of operations with every argument (zero, positive and negative increments, absent keys, blank values), both implementations",
  "the tests perform one operation per case against a nearly empty store and never compare the two implementations",
  ["data/cxds.go", "data/cxds/memory.go", "data/cxds/drive.go"],
  [("Get/Set/Inc/Del", "data/cxds"), ("incr/decr", "data/cxds")], ["CXDS interface"])

p("C07", "Object store statistics always match the content",
  "At any time the numbers an object store reports (all objects and used objects, their amounts and their volumes) equal those computed "
  "by looking at every stored object, where a used object is one with non-zero references counter. It holds after any history of "
  "operations, concurrent ones and failed ones included, and after closing and reopening the store.",
  ["histories", "schedules"],
  "every history of operations and reopenings, every interleaving of several users",
  "the tests check the statistics after a single operation of one process",
  ["data/cxds/memory.go", "data/cxds/drive.go"], [("stat counters, saved on change", "data/cxds")], ["Amount()", "Volume()"])

p("C08", "Acknowledged writes survive a crash of the process",
  "Every write to the on-disk object store and index that returned successfully is there after the process is killed at any moment and the files "
  "are opened again; a write in progress is there completely or not at all. After the crash both databases open without errors "
  "and their statistics match the content.",
  ["crash_points", "histories"],
  "every moment of a kill within any history of writes",
  "no test kills a process",
  ["data/cxds/drive.go", "data/idxdb/drive.go"], [("boltdb transactions", "data/cxds/drive.go, data/idxdb/drive.go")],
  ["reopened databases"])

p("C09", "Index database keeps feeds, heads and roots exactly and in order",
  "The index database behaves as a sorted map of feeds to heads to roots: existence tests, lengths, lookups, insertions and deletions agree with "
  "that model, iteration visits every element once, ascending and descending iterations over roots go strictly by the sequence number, "
  "and removal of a missing element is reported. A transaction that ends with an error or panic leaves nothing "
  "behind, and a committed one is there after reopening.",
  ["inputs", "histories"],
  "every sequence of operations in transactions, also from within iterations, committed or rolled back; both storages",
  "the tests call each method once or twice with two feeds and two roots",
  ["data/idxdb.go", "data/idxdb/drive.go"], [("nested buckets with big-endian keys", "data/idxdb/drive.go")], ["IdxDB interface"])

p("C10", "Encoding of roots in the index is exact and validated",
  "Decoding an encoded index record of a root gives the same record, different records have different encodings, truncated data is refused with an error, and no data makes the decoding panic. A record is accepted for storing if and only if it satisfies the documented rules: hash and signature "
  "and time are there, and previous root is set exactly when the sequence number is not zero.",
  ["inputs"], "every record, every truncation and byte change", "the tests encode one record",
  ["data/data.go"], [("Encode/Decode/Validate", "data/data.go")])

p("C11", "Type registry survives encoding and identifies itself uniquely",
  "A registry built from Go types, encoded and decoded has the same reference, the same schemas (names, kinds, fields, tags, elements, lengths) and can be "
  "used to read and write the same objects. The reference depends on the registered types only, not on the order of the "
  "registration, and different sets of types have different references.",
  ["inputs", "programs"],
  "every set of registrable Go types (structs, nested, arrays, slices, references, all scalar kinds), all orders",
  "the tests use one fixed set of types",
  ["skyobject/registry/registry.go", "skyobject/registry/schema.go", "skyobject/registry/reg.go"],
  [("sorted entities hash", "skyobject/registry/registry.go")])

p("C12", "Hostile encoded registries and objects never crash or hang",
  "Bytes received from an untrusted source — as a registry, as a root, as an object with its schema, as references of any kind — either are decoded and "
  "handled or refused with an error. No input makes the process panic, recurse without end, hang or allocate "
  "memory out of proportion to the size of the input.",
  ["inputs"], "every byte string: random, mutated from valid ones, and structurally built (cycles, unknown kinds, huge lengths)",
  "the tests decode what they encoded a moment ago",
  ["skyobject/registry/registry.go", "skyobject/registry/schema.go", "skyobject/registry/walk.go", "skyobject/registry/root.go",
   "skyobject/registry/refs.go"], [("decodeSchema, Size, walk", "skyobject/registry")])

p("C13", "Schemas describe encoded values exactly",
  "For any registered type and any value of it, the size a schema computes from encoded bytes equals the length of the encoding (also if other bytes follow), "
  "and it is an error for any strict prefix. A schema says that the type has references if and only if a value of it can hold a "
  "reference, and kind, name, fields, length and element of the schema agree with the Go type.",
  ["inputs", "programs"], "every registrable type, every value", "the tests look at one struct of each kind",
  ["skyobject/registry/schema.go"], [("Size, HasReferences", "skyobject/registry/schema.go")])

p("C14", "A references list behaves as a list",
  "A list of references kept as Merkle tree behaves as a plain slice of hashes under every sequence of operations: length, get and set by index, "
  "lookup by hash, append, slicing, deleting and clearing give what they would give on the slice. "
  "Out-of-range indexes are refused with an error and leave the list unchanged.",
  ["inputs", "histories"],
  "every degree, every combination of flags, every sequence of operations with every argument, repeated and blank hashes",
  "the tests cover small fixed trees and one operation at a time",
  ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go"], [("tree operations", "skyobject/registry/refs.go")])

p("C15", "References lists iterate and persist exactly",
  "Ascending and descending iteration, from either end or from an index, visit exactly the elements of the list in order with right "
  "indexes, stop when asked, and stay right if the list is changed from within the iteration (the next index is visited with the element that is there "
  "now). Loading a list by its hash gives an equal list, different lists have different hashes, and lists made by appending (in any portions) or slicing "
  "have hashes that depend on the elements and the degree only. A failure of the storage is returned, never turned to wrong elements.",
  ["inputs", "histories"],
  "every list, degree, flags, start index, nested iterations and mutations",
  "the tests iterate a few fixed lists",
  ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go"], [("iterators", "skyobject/registry/refs.go")])

p("C16", "Walking an object tree visits exactly what is reachable",
  "Walking a root, a reference, a list of references or a dynamic reference reports every object reachable from it and nothing else, "
  "through arrays, slices, nested structures and every kind of reference; sequential and parallel walks agree. If the "
  "visitor refuses a subtree, nothing below it is reported; an error of the storage or the visitor stops the walk and is returned.",
  ["inputs", "programs"],
  "every set of types and every tree of objects, any refusal of the visitor",
  "the tests walk one or two small trees; types with arrays and slices of references inside are not walked",
  ["skyobject/registry/walk.go", "skyobject/registry/split.go", "skyobject/registry/refs_walk.go", "skyobject/registry/split_refs.go"],
  [("walkSchema / splitSchema", "skyobject/registry")])

p("C17", "Reference counts keep exactly what saved roots need",
  "After saving any sequence of roots (sharing objects in any way) and deleting any of them, every object reachable from a remaining root is still stored "
  "and readable, and objects that no remaining root needs have no references left, so that the cleaning removes them. "
  "Saving or deleting one root never makes another root unreadable, and after a failed saving that is given up the counters are as they were. "
  "(Unpacks that store the same objects at the same time and are then given up are known findings.)",
  ["histories", "inputs"],
  "every sequence of saves and deletions over trees that share objects within and between roots",
  "the tests save and delete a couple of separate roots",
  ["skyobject/unpack.go", "skyobject/index.go", "skyobject/cache.go"],
  [("Save walks and increments", "skyobject/unpack.go"), ("DelRoot walks and decrements", "skyobject/index.go")],
  ["references counters in the object store"])

p("C18", "The cache is transparent and linearizable",
  "Reading, writing and counting objects through the cache gives the same results as an uncached store for every policy and size of the cache: "
  "concurrent operations on an object are linearizable, and no update of a counter is lost. A subscriber waiting for an object gets it "
  "once when it is stored, and after closing the store holds exactly the values and counters that were acknowledged.",
  ["histories", "schedules", "configurations"],
  "every configuration of the cache, every history of concurrent operations, evictions in between",
  "the tests perform sequences from one goroutine",
  ["skyobject/cache.go"], [("items with sync counters", "skyobject/cache.go"), ("write back at cleaning and Close", "skyobject/cache.go")],
  ["Cache methods, CXDS content after Close"])

p("C19", "The cache stays within its limits and keeps what its policy says",
  "The cache never holds more items or more bytes than configured, and objects larger than the item limit are "
  "not cached. When it is full, and only then, it drops items in the order of the policy (least recently, to the second, or least frequently used) down to the configured fullness; "
  "an object that is being filled or waited for is never forgotten, and is forgotten when that ends. Cached objects are served without the store; unpacked registries are cached up to the configured number.",
  ["histories", "configurations"],
  "every configuration and history of operations", "one test looks at an eviction",
  ["skyobject/cache.go"], [("cleanDown, rank", "skyobject/cache.go")], ["cache statistics", "reads that reach the store"])

p("C20", "The index of feeds, heads and roots is consistent",
  "At any time the container lists exactly the feeds, heads and roots that were added and not deleted, the last root of a head is the one with the greatest "
  "sequence number, and the active head of a feed is the one whose last root is the newest. Deletions affect the deleted feed, head or root only, "
  "and reopening the container gives the same picture.",
  ["histories"],
  "every history of additions, deletions and reopenings over several feeds and heads, in any order of sequence numbers",
  "the tests use one feed with one head and ascending roots",
  ["skyobject/index.go"], [("feeds map and IdxDB kept together", "skyobject/index.go")], ["Container methods"])

p("C21", "Only properly signed roots of the right feed are accepted",
  "A root is accepted only if its signature is a signature of exactly these bytes by the owner of the feed it is received for. "
  "Any change of the bytes, of the signature or of the feed leads to an error, stores nothing and announces nothing; a "
  "root of a feed that is not shared is refused.",
  ["inputs"], "every root, every altered byte, every foreign key", "the tests publish properly signed roots only",
  ["skyobject/index.go", "skyobject/container.go", "node/head.go"], [("VerifyPubKeySignedHash", "skyobject/index.go: ReceivedRoot")])

p("C22", "A filled root is complete, a failed filling leaves no trace",
  "A root becomes full only if every object reachable from it is stored with content that matches its hash, whatever the source answers: delays, reorderings, refusals, wrong data, "
  "failures and cancellation at any point. A filling that fails or is cancelled terminates and restores all references counters, so that "
  "nothing it brought remains used.",
  ["histories", "fault_sequences", "schedules"],
  "every tree of objects, every sequence of answers and failures of the source, every parallelism and limit",
  "fill_test.go fills complete roots from a source that always answers",
  ["skyobject/fill.go", "skyobject/cache.go", "skyobject/registry/split.go"],
  [("Filler", "skyobject/fill.go"), ("Finc", "skyobject/cache.go")], ["object store after the filling"])

p("C23", "A crash leaves every listed root complete",
  "Whenever the process dies while it saves, fills and deletes roots and cleans the database, the container opens again: it lists every root that was acknowledged and every listed root is complete, "
  "a root in progress is there completely or not at all, objects that no listed root needs have no references (what remains of an interrupted filling included), "
  "and everything that follows, the repeated filling first of all, gives complete roots again. A death in the middle of the recovery changes nothing.",
  ["crash_points", "histories"],
  "every moment of death, before or after any transaction, in every history of savings, fillings, deletions and cleanings",
  "the tests close containers properly",
  ["skyobject/container.go", "skyobject/cache.go", "skyobject/fill.go", "skyobject/index.go", "data/cxds/drive.go"],
  [("references counters are saved with delay and restored after a crash", "skyobject/container.go: restore")], ["roots and counters after opening"])

p("C24", "A preview shows the remote tree and leaves nothing behind",
  "Previewing a root gives exactly the objects of the root, each requested from the source only if it is not available locally and at most once, and nothing is written to the database. "
  "Objects that do not match the requested hash are refused.",
  ["inputs", "histories"], "every tree, every set of objects available locally, every answer of the source",
  "one test previews a fixed tree",
  ["skyobject/preview.go"], [("Preview pack", "skyobject/preview.go")])

p("C25", "Cleaning utilities remove exactly what is not needed",
  "Removing unused objects deletes every object without references that the cache does not need and nothing else; removing old roots keeps exactly the "
  "requested number of the newest roots of every head. Both are safe while the container is in use and always return.",
  ["histories", "schedules"],
  "every content of the database, every number to keep, concurrent users", "cxoutils has one test of a simple case",
  ["cxoutils/cxoutils.go"], [("RemoveObjects, RemoveRootObjects", "cxoutils")])

p("C26", "Network messages survive encoding, foreign bytes are refused",
  "Every message the protocol has, encoded and decoded, gives an equal message of the same type. Any other byte string is either refused with an error or "
  "decoded to a message that encodes to the same bytes; nothing makes the decoder panic or allocate without bound.",
  ["inputs"], "every message with every value of its fields, every byte string", "the tests encode a blank message of each type",
  ["node/msg/msg.go"], [("Encode/Decode with the type table", "node/msg/msg.go")])

p("C27", "Published roots reach all subscribers completely",
  "When a node publishes roots of a feed, every connected node that shares the feed eventually has the newest root with all its objects, byte by byte the same, "
  "through any topology of intermediate nodes and either transport. Nodes that do not share the feed store nothing of it.",
  ["schedules", "histories", "configurations"],
  "every topology, transport, order of connecting, subscribing and publishing, concurrent publishers",
  "the tests have two or three nodes and one root",
  ["node/head.go", "node/feed.go", "node/feeds.go", "node/conn.go"], [("broadcast, filling", "node")])

p("C28", "Node callbacks report each event once and in order",
  "For every head the sequence numbers of roots reported as filled only grow, a root that is not newer than the last filled one is never reported as received, a root reported as filled is complete, stored and was "
  "reported as received, and every root accepted for filling gets exactly one outcome (filled, or broken with a reason), unless a newer one replaces it while it waits, or the node is closed or its feed or head is dropped meanwhile. "
  "A connection is reported as opened before it is reported as closed, each exactly once.",
  ["schedules", "histories", "fault_sequences"],
  "every schedule of arriving roots, connections and failures", "the tests wait for a callback and ignore repetitions and order",
  ["node/head.go", "node/node.go"], [("nodeHead", "node/head.go")], ["Config.On* callbacks"])

p("C29", "Subscriptions and connections are listed exactly",
  "The lists of connections, of feeds and of the connections of a feed that a node reports at rest are exactly those that exist: after both sides subscribe a pair is listed on both sides, and after "
  "unsubscribing, unsharing or closing a connection it is not listed on either. Subscribing to a feed that the remote node does not share is an error and changes nothing.",
  ["histories", "schedules"],
  "every history of connecting, sharing, subscribing, unsubscribing and closing", "the tests look at one subscription",
  ["node/feeds.go", "node/feed.go", "node/conn.go", "node/node.go"], [("nodeFeeds maps", "node/feeds.go")])

p("C30", "Connection limits are obeyed, duplicate peers are refused",
  "A node never has more connections than its limit, where zero means there is no limit, and a refused connection is closed and not listed. Two connections with the same peer, "
  "or a connection with itself, are never established, also if both sides connect at the same time.",
  ["schedules", "configurations"], "every limit, every number and order of simultaneous connections", "no test sets the limits",
  ["node/node.go", "node/handshake.go"], [("onNewConn, onConnInit", "node/node.go")])

p("C31", "A hostile peer cannot break a node",
  "Whatever a remote peer sends — garbage, truncated, oversized, out-of-order, repeated or unsolicited messages, wrong objects, silence in the middle of the exchange — the node does not crash, "
  "does not hang and goes on serving other peers; no foreign or forged data is stored. Requests that can't be served are answered with an error, and a peer whose stream can't be understood is disconnected.",
  ["inputs", "fault_sequences"], "every byte stream of a peer, at every stage of the protocol", "no test has a misbehaving peer",
  ["node/conn.go", "node/handshake.go", "node/head.go"], [("handle", "node/conn.go")])

p("C32", "Closing always terminates and releases everything",
  "Closing a node, a container or a connection at any moment, once or several times, from several goroutines, returns in bounded time; afterwards blocked calls return with an error, "
  "all goroutines and files are released and the database can be opened again.",
  ["schedules"], "every moment and number of closings under load", "the tests close idle nodes",
  ["node/node.go", "node/conn.go", "skyobject/container.go"], [("Close", "node/node.go")])

p("C33", "The RPC and the command line tool show and do what the API does",
  "Every remote procedure gives the same answer as the corresponding call of the node, and its effect is the same, errors included; the command line tool shows these answers and has these effects. "
  "Nothing that a client sends to it crashes the node. A daemon driven by the tool replicates feeds, and has what it reported after it is stopped or killed and started again.",
  ["inputs", "histories"], "every procedure with every argument in every state of the node", "the RPC has no tests",
  ["node/rpc.go", "node/rpc_client.go", "cmd/cxocli/cxocli.go", "cmd/cxod/cxod.go"], [("RPC methods", "node/rpc.go")])

p("C34", "Peers of a feed get known to each other",
  "Peers exchange: every address a node learns comes from a configured or connected peer that sent it, its own address and already known peers are not repeated, the number of known peers stays within the limit, and "
  "a peer of a feed known to one node of a connected set of subscribed nodes gets known to all of them, if the limits allow, and gets connected.",
  ["schedules", "configurations"], "every topology and order of events", "the swarm has no tests",
  ["node/swarm.go"], [("swarm", "node/swarm.go")])

p("C35", "Concurrent use of a container and a node is free of data races",
  "The public methods of the container, the cache, the index, the node and the connections can be called from any number of goroutines at the same time, callbacks included: "
  "no execution has a data race, a deadlock or a crash.",
  ["schedules"], "every combination of concurrent calls", "the tests run most calls from one goroutine and without the race detector",
  ["skyobject/cache.go", "skyobject/index.go", "skyobject/container.go", "node/node.go", "node/feeds.go", "node/head.go", "node/conn.go"],
  [("mutexes and channels", "skyobject, node")])

p("C36", "A printed tree shows exactly what a root has",
  "Printing the tree of a root shows every object reachable from it, in order and nested as it is referenced, every field under its name with its value; blank references are shown as nil, "
  "an object that can't be read is shown as an error where it should be and hides nothing else. Printing a list of references shows its elements in order, in whatever state the list is. Printing changes nothing.",
  ["inputs"], "every type, value and graph of objects", "the tests print trees and do not look at them",
  ["skyobject/registry/root_tree.go", "skyobject/registry/refs.go"], [("printing", "skyobject/registry/root_tree.go")])

p("C37", "Databases of other versions and damaged ones are refused untouched",
  "A database file of another version, without a version or meta information, with damaged ones, in use by another process, or that is not a database at all, is refused with an error, the one that says of the version if it's a matter of version; "
  "it never panics, the content of the file stays as it was, no lock stays on it or, if a container opens it, on the second file; repaired, the file has all it had. A new or an empty file becomes an empty database of the current version.",
  ["inputs"], "every version and damage of the meta information, every content", "the tests open new files only",
  ["data/cxds/drive.go", "data/idxdb/drive.go", "skyobject/container.go"], [("opening of databases", "data/cxds/drive.go")])

p("C38", "A reference gives the value it was set to",
  "A reference (Ref or Dynamic) set to a value holds the hash of the value's encoding and gives the same value back, to the session that set it and, once the value belongs to a saved root, to any session of any registry with this reference. "
  "Set to nil or cleared it is blank and says so when it's read; without a schema or with an unknown hash it is refused with the error of that kind, and the given object stays as it was. An object over the limit of size (and no other) is refused, "
  "the reference keeps what it had; a container that checks sizes refuses a database with such an object. A session has the degree and the flags it was given, invalid degrees are refused and change nothing.",
  ["inputs", "histories"], "every value, every order of setting, clearing, copying and saving", "the tests set one value of one type to a reference over a map",
  ["skyobject/registry/ref.go", "skyobject/registry/dynamic.go", "skyobject/pack.go", "skyobject/unpack.go"],
  [("Ref, Dynamic", "skyobject/registry"), ("Pack, Unpack", "skyobject")])
