BFSN = "Every store content reachable within the stated depth is visited with the real code as the transition function and compared in full with a plain reference model; holds for the alphabets and depths in the evidence file. Trusts the in-memory provider (its agreement with Badger is checked by P01-P04)."
CLAIMS = {
 "P01": ("exhaustive enumeration of operation histories on the real Badger and LevelDB providers against a map model", "model_checking", "All histories of the stated operations up to the stated depth, everything read back after each step; values beyond Badger's inline threshold, empty and nil values, tags and TTLs included. Bounded depth and key set."),
 "P02": ("exhaustive enumeration of store contents, pending writes and scan options on the real providers against a reference scan", "model_checking", "All contents over small key universes built around prefix relations and 0x00/0xFF bytes, all prefixes, offsets, directions and stopping points derived from them."),
 "P03": ("exhaustive enumeration of operation-level interleavings of concurrent transactions on Badger against a snapshot-isolation-with-conflict-check oracle", "model_checking", "Every program and schedule of up to three transactions up to the stated number of steps. The atomicity of a single Badger call under real parallelism is trusted."),
 "P04": ("exhaustive enumeration of histories over two open write batches mixed with direct writes on the real providers", "model_checking", "All histories up to the stated depth, plus batches larger than one Badger transaction."),
 "P05": ("crash-point and torn-write enumeration: traced file operations are replayed to every crash state, each recovered with the provider", "fault_enumeration", "Every file operation of every history up to the depth is a crash point; writes are torn at the stated byte positions; loss of the machine drops everything not forced to disk (Badger)."),
 "P06": ("explicit-state breadth-first search with the real hash operations as transitions, compared with a map model; exhaustive short histories on Badger", "model_checking", BFSN),
 "P07": ("explicit-state breadth-first search with the real list operations as transitions, compared with a slice model; exhaustive short histories on Badger", "model_checking", BFSN),
 "P08": ("explicit-state breadth-first search over mixed structures and namespaces, compared with plain maps and slices", "model_checking", BFSN),
 "P09": ("bounded exhaustive enumeration of values and of all value pairs, compared with the order of the values", "exploration", "Every value of the stated sets is encoded and decoded and every pair compared; sets cover all short byte strings over boundary bytes, all group-boundary lengths, every power-of-two neighbourhood and every float exponent, not all 2^64 numbers."),
 "P10": ("bounded exhaustive enumeration of decoder inputs against independent reference decoders", "exploration", "Every input of the stated sets (short strings over boundary bytes, single-byte corruptions and truncations of valid encodings) is decoded by the real code and by a reference decoder."),
 "P11": ("exhaustive pairwise enumeration of key constructor inputs with collision, order and containment checks", "exploration", "All pairs of the stated boundary ids and names."),
 "P12": ("exhaustive enumeration of short keys over boundary bytes against a brute-force successor", "exploration", "All keys over the stated byte alphabet up to the stated length."),
 "P28": ("exhaustive enumeration of function results, commit faults and conflicts through the real transaction helpers", "model_checking", "Every combination of helper, function result and commit result; every result sequence of the too-big helper up to the round bound and at its retry limit."),
 "P29": ("explicit-state breadth-first search with the real catalogue operations as transitions, compared with a model", "model_checking", BFSN),
 "P30": ("explicit-state breadth-first search with the real queue, history and reorganisation operations as transitions, compared with a model", "model_checking", BFSN),
 "P31": ("bounded exhaustive enumeration of description shapes and single mutations, and of job and change-log records through their codec", "exploration", "All shapes up to two collections and two indexes, all single mutations of either copy, all combinations of the stated field values."),
 "P13": ("exhaustive enumeration of request histories, storage failures, scan pages, value sizes and request interleavings through the real client and server, compared with the local database and an independent model", "model_checking", "Every history of the stated requests up to the stated depth over a real loopback connection, each answer and the final content compared with the same calls on a local twin; every storage operation failing; every order in which concurrent requests reach the database."),
 "P14": ("exhaustive enumeration of remote transactions, their interleavings, storage failures and connection losses through the real client and server, compared with local transactions", "model_checking", "Every transaction of the stated operations up to the stated depth with every ending, every interleaving of two of them at operation level, and every frame at which the connection is lost (before, torn, after its execution)."),
 "P15": ("exhaustive enumeration of a grammar of malformed requests against the real server, in child processes", "model_checking", "Every payload of the grammar for every command, alone and at every position of a transaction; every malformed header; the server must answer a well-formed client afterwards and the database must be unchanged. One finding (a race in the qrpc dependency) is listed as known."),
 "P32": ("exhaustive enumeration of the request in progress, its position and the transactions open beside it while the real server is stopped, with the database recording every use", "model_checking", "Every program of the stated set stopped before and after each of its database calls; a call that is held back goes on 25 ms after the listener is gone, so a database closed later than that under a running call would be missed, never the reverse. On the in-memory provider and on Badger."),
 "P16": ("stateless exploration of the real code under a controlled scheduler: all interleavings up to a preemption bound, with storage failures and crashes as further choices; exhaustive sequential histories", "model_checking", "Every schedule of the stated thread programs with at most the stated number of preemptions or faults, at every shared-memory statement, lock and storage operation; every operation sequence up to the depth. Storage is the in-memory provider bound to Badger by P01-P04."),
 "P17": ("stateless exploration of the real code under a controlled scheduler with virtual time: all interleavings up to a preemption bound, with storage failures and crashes as further choices; exhaustive sequential histories", "model_checking", "Every schedule of the stated thread programs with at most the stated number of deviations (preemptions, failures, crashes), at every shared-memory statement, lock and storage operation (or, where stated, only at storage operations and locks). Storage is the in-memory provider bound to Badger by P01-P04."),
 "P21": ("stateless exploration of the real code under a controlled scheduler with virtual time: all interleavings up to a preemption bound, with storage failures and crashes as further choices", "model_checking", "Every schedule of the stated thread programs with at most the stated number of deviations (preemptions, failures, crashes), at every shared-memory statement, lock and storage operation (or, where stated, only at storage operations and locks). Storage is the in-memory provider bound to Badger by P01-P04."),
 "P22": ("stateless exploration of the real code under a controlled scheduler with virtual time: all interleavings up to a preemption bound, with storage failures and crashes as further choices", "model_checking", "Every schedule of the stated thread programs with at most the stated number of deviations (preemptions, failures, crashes), at every shared-memory statement, lock and storage operation (or, where stated, only at storage operations and locks). Storage is the in-memory provider bound to Badger by P01-P04."),
 "P23": ("stateless exploration of the real code under a controlled scheduler with virtual time: all interleavings up to a preemption bound with failing reads; exhaustive enumeration of refresh gaps and change lists", "model_checking", "Every schedule of the stated programs with at most the stated number of deviations; every gap sequence and change list of the stated sets. One finding (adding an index) is listed as known."),
 "P24": ("exhaustive enumeration of version windows and operations on the real code; stateless exploration of transactions and schema updates under a controlled scheduler", "model_checking", "Every combination of the stated windows, uses and faults; every schedule with at most the stated number of deviations. A change published while Commit runs may go either way."),
 "P26": ("stateless exploration of the real code under a controlled scheduler with virtual time: all interleavings up to a preemption bound, with storage failures and crashes as further choices; exhaustive sequential histories", "model_checking", "Every schedule of the stated thread programs with at most the stated number of deviations (preemptions, failures, crashes), at every shared-memory statement, lock and storage operation (or, where stated, only at storage operations and locks). Storage is the in-memory provider bound to Badger by P01-P04."),
 "P27": ("stateless exploration of the real code under a controlled scheduler with virtual time: all interleavings up to a preemption bound, with storage failures and crashes as further choices", "model_checking", "Every schedule of the stated thread programs with at most the stated number of deviations (preemptions, failures, crashes), at every shared-memory statement, lock and storage operation (or, where stated, only at storage operations and locks). Storage is the in-memory provider bound to Badger by P01-P04."),
 "P18": ("exhaustive enumeration of operation histories on the real code against a map model, everything read back after each step", "model_checking", "Every history of the stated operations up to the stated depth, alone and in an explicit transaction; every storage operation of the last step failing. Sequential; concurrency is P20's."),
 "P19": ("exhaustive enumeration of operation histories on the real code against a map model, everything read back after each step", "model_checking", "Every filling of three collections with adjacent ids in four layouts, followed by every history up to the stated depth."),
 "P20": ("stateless exploration of the real code under a controlled scheduler: all interleavings up to a preemption bound, with storage failures and schema changes as further choices; exhaustive enumeration of operations in refusing transactions", "model_checking", "Every schedule of the stated thread programs with at most the stated number of deviations (preemptions, failures), at every shared-memory statement, lock and storage operation."),
 "P25": ("exhaustive enumeration of operation histories on the real code against a map model, everything read back after each step", "model_checking", "Every history of the stated operations up to the stated depth over up to three collections, alone and in an explicit transaction; every storage operation of the last step failing; reopened at the end. Sequential."),
 "P33": ("exhaustive enumeration of schema requests (each defect at each position, each catalogue, queue lengths around the limit, rows of them, storage failures) on the real code, the stored schema and queue compared before and after; stateless exploration of concurrent requests under a controlled scheduler", "model_checking", "All requests of the stated set and all pairs of a subset; every schedule of two or three requests with at most the stated number of preemptions. Storage is the in-memory provider bound to Badger by P01-P04."),
 "P34": ("exhaustive fault enumeration: every operation of the stated set with every storage operation of it failing, on the real code, compared with the same run without failures", "fault_enumeration", "Every single failure (once, or from there on; at the start of a scan, at any entry, at its end; or as a refused write) of every stated operation, alone and after every other one in a transaction. Storage is the in-memory provider bound to Badger by P01-P04."),
}
NA = {}
NOTES = "No hooks in /repo: scheduling points for the concurrent checks are inserted into a throw-away copy of the working tree at check time."
