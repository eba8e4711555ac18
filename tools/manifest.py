#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
AI = "path-sensitive abstract interpretation of go/ssa"
T = {
 "C01": (AI + " with a validated-prefix ghost", "Decides both directions (only well-formed keys accepted, all of them accepted) and the absence of effects of rejected calls."),
 "C02": (AI + " with symbolic byte content", "The exact command of every operation on every path through its options; number rendering itself is limited to losslessness."),
 "C03": (AI + " of the decoders against a shadow computation of the line", "Status, type, flags, CAS, value, error kind, message and dispatch on every path of every decoder; CAS digits only up to losslessness."),
 "C04": (AI + " (zones) with bounds, reachability and ranking obligations", "All index/slice/make operations, explicit panics and loops on the receiving side, for every byte stream and split."),
 "C05": (AI + " of the response reader, with the first unaccounted byte of the chunk and the unfinished value as ghost state", "Every response, every cut into reads of any length and every order of calls the receiver may use; what the bytes mean is C03, that the reader gets what was read is C07."),
 "C06": (AI + " of the queues, the selector on small concrete lists, and both goroutines with batch ghosts", "The ring buffer for every size, position and batch; both goroutines for every history; the linked lists for up to three pipelines of up to three batches, whose code does not depend on their length."),
 "C07": (AI + " of the sending and the receiving goroutine with the connection whose bytes the reader holds as ghost state", "Every batch, every failure and every order of connections; the ring buffer for every size. One command's decoding in order is C18."),
"C08": (AI + " with the error cell of each connection as a typestate", "Every write, flush, read, decode and completion site from the goroutines and operations that reach it, for every order of errors; races between two users of one cell only through the lock."),
 "C09": (AI + " of the reconnecting goroutine and of shutdown, with every dial forked into success and failure and a typestate of the dialed socket", "Every order of failures, dials and the close, by the locks that order them; that a dial succeeds in the end is assumed."),
 "C10": (AI + " with a deadline typestate per connection", "Every read, write and dial call site of the connection layer, on every path; the operating system's handling of deadlines is assumed."),
 "C11": (AI + " of Close over all connections, with wait-group accounting of every goroutine and a typestate of each close flag", "Close for every number of connections and every state of them, every goroutine the client starts and every way it ends; the time a goroutine takes to end is C29."),
 "C12": (AI + " with locksets, instance-aware lock identities and a lock-order graph", "Every function of the client that can reach a lock, from every entry point; locks of the caller's own code are out of reach."),
 "C13": (AI + " of every wait region, with obligations at every write to what a wait depends on", "Every condition wait, blocking channel operation and wait group of the client; that sync.Cond and channels work as documented is assumed."),
 "C15": (AI + " of package initialisation turn by turn and of every pool function, with the number of elements behind each pooled pointer", "Every requested size below 2^48 and every slice given back; option values are assumed to be above zero."),
 "C14": ("Static race analysis: which goroutine runs what from the go statements, must-held locksets by interprocedural dataflow over all call sites, escape and element classes for what is shared; and abstract interpretation of the pipeline, the sender and the receiver for what is handed over", "All functions and all accesses to fields, package variables and elements of slices and maps that more than one goroutine can reach; locks and places are fields, not objects. Hand-over: client programs of up to three operations (thorough: five), each batch as a whole."),
 "C16": (AI + " of client programs and of the sending goroutine, with an event for each piece of memory that is put into a pool, written, read or handed over", "Programs of up to four operations with every outcome, batches of up to two commands with up to two values at the sender; which goroutine may recycle what is decided for each place that recycles."),
 "C17": (AI + " of the selector with counters as symbolic sums, and of the receiving goroutine with a count ghost per command", "Every limit, batch size and reader progress for up to three pipelines of up to three batches; every path of the receiving goroutine. Counters are assumed to stay below 2^60."),
 "C18": (AI + " of client programs with symbolic contents and bound, of one step of the builder on a batch of any size, and of the receiving goroutine with a count ghost", "Programs of up to four operations over all kinds, every bound and every outcome; the step that adds a command for any size; the receiver for every batch."),
 "C19": (AI + " of client programs with the decoders' results as tagged values", "Programs of up to four operations with result calls in many orders, every bound and every outcome of batches and decoders."),
 "C20": (AI + " of client programs with a typestate for every batch", "Programs of up to four operations with Execute, Finish and result calls in many orders, every bound and every outcome."),
 "C21": (AI + " of the option closures and value flow to the mechanisms", "Each option's effect and its use at every mechanism, through New, the goroutines it starts and DialNewConn."),
 "C22": (AI + " with an open/closed typestate of the dialed connection", "Every path of the authenticating dial function; that the server means STORED is assumed."),
 "C23": (AI + " of one round with the counter as a ghost, and of the goroutine's loop", "Every counter value and number of connections below 2^60; the period itself is C21."),
 "C24": (AI + " of the statistics calls, with an independent reading of each line as ghost state", "Every reply, as lines of symbolic text split at their separators; the set of names is the set of the fields."),
 "C25": (AI + " of the statistics calls, with every write, read and number forked into success and failure", "Every reply and every failure of the connection; bufio.Scanner is assumed to work as documented."),
 "C26": (AI + " of New and of each operation's choice", "Every number of connections and every counter value; fairness between concurrent picks only through the atomic counter."),
}
NA = {
 "C27": "The value a later read returns depends on the server's store and on when other clients' commands are executed there; no argument over this client's source can decide it. The client's share (encoding, decoding, matching of responses) is C02, C03, C05 and C07.",
 "C28": "Whether a short pipeline waits behind at most a bounded number of batches depends on run-time arrival order and queue contents at each step; a sound static bound on that interleaving is out of reach of the analyses used here.",
 "C29": "A time bound depends on the network, the scheduler and the caller-supplied dial and timeout values; static analysis of the source gives no bound on elapsed time. That each wait has a waker and each network call a deadline is C10 and C13.",
}
ids = ["C%02d" % i for i in range(1, 27)]
checks = []
for i in ids:
    if i not in T:
        NA[i] = "No check yet: the rule is being built (see DESIGN.md)."
        continue
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh quick {i}", "thorough_cmd": f"./check.sh thorough {i}",
                   "technique": t, "level": "other", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)]}
p = os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json")
open(p, "w").write(json.dumps(m, indent=1) + "\n")
