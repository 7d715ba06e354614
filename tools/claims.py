# property -> (technique, level note[, level])
S = " Held on the executions the evidence counts, nothing more is claimed."
CLAIMS = {
    "C01": ("runtime monitor: model of the written records + Go race detector", "Random configurations and calls against a model." + S),
    "C02": ("runtime monitor: reference model of the record text", "Random calls against fmt; fatal methods run in child processes." + S),
    "C03": ("runtime monitor: reference model of flags and limits", "Random flags and configurations against a model." + S),
    "C04": ("runtime monitor: recomputed mean + Go race detector", "Random streams, the mean is recomputed after each sample." + S),
    "C06": ("runtime monitor: differential model, porcupine linearizability, Go race detector", "Random sequential histories on both stores with a map as the oracle, concurrent ones checked for linearizability." + S),
    "C07": ("runtime monitor: recomputed statistics, Go race detector", "The reported numbers are compared with the content after every operation, and at rest after concurrent ones." + S),
    "C08": ("fault injection: SIGKILL at random moments, offline check of the reopened files", "The kernel survives, so a kill of the process is explored and a loss of power is not." + S, "fault_enumeration"),
    "C09": ("runtime monitor: differential model of the index", "Random transactions with a sorted map of maps as the oracle." + S),
    "C10": ("runtime monitor: round trip, truncation and mutation of encodings", "The encoder of the binary format is a stand-in (shims/skycoin), since the dependency is not installed." + S),
    "C11": ("runtime monitor: round trip of generated registries against models of the types", "Random sets of Go types made with reflection, encoded, decoded and compared with the model." + S),
    "C12": ("runtime monitor: structure-aware fuzzing with bounds of time and memory", "Every decoder and walker is run on random, mutated and structurally built bytes." + S),
    "C13": ("runtime monitor: sizes and references recomputed from Go types", "Random types and values, every prefix of an encoded value." + S),
    "C14": ("runtime monitor: differential model, a slice of hashes", "Random histories over several lists, each reply and the stored tree are compared after every operation." + S),
    "C15": ("runtime monitor: differential model of iterations, independent parser of stored trees, storage faults", "Random nested iterations with changes inside, random histories of the same list." + S),
    "C16": ("runtime monitor: visits compared with the recorded shape of generated graphs, storage faults", "Random graphs, sequential walks and parallel splits with refusals, stops and failures." + S),
    "C17": ("runtime monitor: counters compared with reachability recomputed from the saved roots", "Random histories of savings, failures, deletions, cleanings and reopenings; objects shared every way." + S),
    "C18": ("runtime monitor: differential model, porcupine linearizability, Go race detector", "Random histories against a model without a cache, an instrumented store looked into after closing." + S),
    "C19": ("runtime monitor: limits, order of evictions and accesses to an instrumented store", "Random histories and configurations; LRU in real time." + S),
    "C20": ("runtime monitor: differential model of the index, storage faults", "Random histories over several feeds and heads, compared after every operation and after reopening." + S),
    "C21": ("runtime monitor: forgeries one step from an accepted root", "Every kind of forgery of random roots, the database is compared before and after." + S),
    "C22": ("runtime monitor: reachability and counters recomputed after filling from a faulty source, Go race detector", "Random graphs, sources that delay, refuse, forge and stop, cancelling at any point, concurrent fillings, savings and deletions." + S),
    "C25": ("runtime monitor: both databases compared before and after cleaning, Go race detector", "Random histories, and cleaners among savers, readers and deleters." + S),
    "C26": ("runtime monitor: round trip of all messages, structure-aware fuzzing with bounds of memory", "Random messages and mutated encodings." + S),
    "C27": ("runtime monitor: stored roots and objects of every node compared with the published ones", "Random networks of real nodes on the loopback network, TCP and UDP, random order of events." + S),
    "C28": ("runtime monitor: online checker of the order of callbacks", "Callbacks of random networks with lost connections, lost objects, restarts and limits, checked as they come." + S),
    "C29": ("runtime monitor: lists of both sides compared with the model of the history at rest", "Random histories of subscribing, sharing, closing and refusing over TCP and UDP." + S),
    "C30": ("runtime monitor: lists of connections sampled all the time, compared with what peers see at rest", "Random limits, nodes and raw peers that connect one by one and at once." + S),
    "C31": ("runtime monitor: hostile raw peers, structure-aware fuzzing of the protocol and of pushed graphs, fault injection", "Hostile peers next to good ones; stores, callbacks, answers, memory of the node and service for the good peers are watched." + S),
    "C32": ("runtime monitor: goroutines, descriptors, files, addresses and reopened databases looked at after closing under load", "Nodes, connections and containers closed at random moments by several goroutines under random calls of the API, TCP, UDP, RPC, swarms and failing constructors." + S),
    "C23": ("fault injection: the files are copied at random moments of a history as a dead process leaves them; opened, compared with reachability from the acknowledged roots", "Deaths between transactions of both databases, twice in a row too; bolt itself is trusted (C08 kills processes for real)." + S, "fault_enumeration"),
    "C33": ("runtime monitor: answers and effects of the RPC and the command line tool compared with the API, hostile RPC clients, killed daemons", "Random histories of calls; three interfaces of one node are compared." + S),
    "C24": ("runtime monitor: what a preview shows, requests and stores compared with the model", "Random graphs with a random part stored locally, a refusing source; the same through connections with real nodes and raw peers that forge." + S),
    "C34": ("runtime monitor: lists of peers and connections sampled all the time, compared with the model after every answer", "Random networks of nodes in swarms, and a node among raw peers that send good, own, invalid and foreign peers, refuse, die and come to life." + S),
    "C35": ("Go race detector with watchdogs over random concurrent calls of containers and nodes and over the workloads of other checks", "Races between accesses that happened, deadlocks that happened; schedules of the Go scheduler under load." + S),
    "C36": ("runtime monitor: the printed tree compared node by node with the values it was made of, storage faults", "Random types, values and graphs with missing objects; lists in random states." + S),
    "C37": ("runtime monitor: damaged files opened, errors, locks and content of the files looked at, files repaired and used", "Random content with nine kinds of damage of the file or its meta information; pages damaged inside of bolt are not explored." + S),
    "C38": ("runtime monitor: values read through references compared with a model of what was set", "Random histories of references of both kinds in sessions of real containers, saved and read by other sessions." + S),
    "C05": ("runtime monitor: the text is parsed back", "All boundaries and random values." + S),
}
TODO = "not built yet"
NA = {}
from props import P
for x in P:
    if x["id"] not in CLAIMS:
        NA[x["id"]] = TODO
NOTES = ""
