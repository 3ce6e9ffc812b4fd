"""What is claimed for each property: (technique, note)."""
ABS = 'path-sensitive abstract interpretation of the resolved program (typestate and ownership over a symbolic heap)'
BASE = 'Every operation of db.h is interpreted from every admissible abstract state; loops to a fixpoint; findings are paths through the source. Trusts the clang front end, the model of the C library and of khash, and the class invariants as the admissible states. Memory exhaustion is not considered.'
REQ = 'Every handler of a connection is interpreted from every situation it can be entered in, found by a fixpoint that starts at a new connection; bytes received are unconstrained. '
ABSR = 'path-sensitive abstract interpretation of the request handlers from every reachable connection situation (typestate, ownership and response-text rules)'
FLOW = 'interprocedural dataflow and call-graph rules over the resolved program'
CLAIMS = {
 'C01': (ABSR, REQ + 'The text of each response is assembled symbolically from the constant pieces and the numbers printed into it and checked against the message grammar. Listings and the monitoring stream end with the connection.'),
 'C02': (ABSR, REQ + 'The state a handler leaves is compared with what the next step needs.'),
 'C03': (ABSR, REQ + 'Acknowledgement and visibility are tied to the number of body bytes stored. What the file system does with the bytes is not modelled.'),
 'C11': (ABS, REQ + 'The expiry time stored, tested and printed is compared symbolically with the number received and the clock; the sweep is interpreted over the tables.'),
 'C12': (ABS, 'The writer of the index is interpreted over a symbolic cache, in the background process and at shutdown, with every write able to fail or to be short; each line is assembled symbolically from what is written and compared with the fields of the entry at hand. Which entries of a table are visited is that of the table iteration, whose bounds are not part of this check. Reading the index back is C46.'),
 'C13': (ABS, 'The clean-up, the shutdown and the handling of ended processes are interpreted with every system call able to fail, in both processes after fork; the state of each file name of a snapshot is followed (absent, previous, incomplete, complete). What survives a power failure is C42.'),
 'C14': ('interprocedural points-to and content-provenance (taint) analysis', 'Flow-insensitive: every string object is labelled with where its bytes can come from; sinks are file names, commands and format strings.'),
 'C15': (FLOW, 'Flow-insensitive: every value is labelled with where it comes from (an offset, the database size, a limit, a 32-bit product) through variables, fields, calls and results; conversions to narrower types and the arguments of file calls are checked against the labels. Additions of 32-bit numbers are not judged here (C08 follows the size exactly).'),
 'C16': ('typestate of descriptors in the abstract interpretation, plus call-graph rules', REQ + 'Every descriptor obtained is followed until it is closed or stored with its owner.'),
 'C17': ('bounds obligations on every access, decided by abstract interpretation with linear relations', REQ + 'Each load, store and library call with a length carries an obligation that must follow from the path condition.'),
 'C18': (ABSR, REQ + 'The number parser is interpreted on unconstrained bytes; its result is followed to the field of the header it came with.'),
 'C19': ('lockset analysis and thread-reachability over the call graph', 'Which functions run on which thread follows from pthread_create; every shared access is tabulated with the locks held. The monitoring list is also interpreted from both threads with the lock as part of the state.'),
 'C20': ('effect analysis of signal handlers over the call graph', 'Everything reachable from a handler is checked against the list of async-signal-safe functions; objects shared with it must be volatile; a handler that makes calls keeps errno.'),
 'C21': ('call-graph reachability of blocking calls from the serving threads', 'Blocking calls are those of the C library and POSIX that can wait; sockets must be made non-blocking before they are used.'),
 'C22': (ABSR, REQ + 'At every exit that closes the connection its release is interpreted and everything it held must be given back.'),
 'C25': ('dataflow lint on the results of system calls', 'Each call whose failure is reported by its result must have that result tested before it is used as a value.'),
 'C26': ('ownership of heap buffers in the abstract interpretation', REQ + 'Each buffer must have exactly one owner or be freed at every exit.'),
 'C23': (ABS, 'The monitoring list operations, timers and stream are interpreted over a symbolic ordered list with an arbitrary client among arbitrary others, and the handlers of a monitoring connection from every situation. Elapsed time is the clock the code reads; how late a turn of the loop comes is not decided.'),
 'C24': ('abstract interpretation of the option parser and of start-up against the usage text', 'The usage text is read from the program and compared with the table given to getopt_long; each option is interpreted in turn and the settings it writes are compared. That a setting has its documented effect is decided for those that start-up acts on (see C10, C16, C27 and C28 for others), not beyond that it is consulted.'),
 'C27': (ABS, 'The address parser is interpreted over unconstrained text, and the set-up of listeners over any number of addresses of any family with every system call able to fail. What inet_pton accepts is trusted.'),
 'C28': (ABS, 'main() is interpreted for each combination of the settings that start-up acts on, with every system call able to fail; the order and arguments of the calls made on the PID file are checked at every exit.'),
 'C04': (ABS, BASE), 'C05': (ABS, BASE), 'C06': (ABS, BASE), 'C07': (ABS, BASE), 'C08': (ABS, BASE), 'C09': (ABS, BASE),
}
NOTAPPL = {
 'C10': 'how much a clean-up evicts is a floating-point share of the limit against a sum of sizes over a list of unknown length, which no static domain in reach here follows; the parts that can be decided are claimed elsewhere: the order of the list and that it holds complete entries only (C09), the width of the amount (C15), the size counter (C08)',
 'C40': 'the bytes a GET delivers depend on file contents across any history of requests; no sound static argument in reach bounds them (the parts that can be decided from the source are C01, C03, C04, C07 and C15)',
 'C41': 'linearisability over all overlapping requests quantifies over run-time histories; the single-threaded structure that gives it is decided by C19 and C04, the histories themselves are out of reach of a static argument',
 'C42': 'needs a model of what the file system keeps across a crash at every point, which is not in the source; the ordering that a static analysis can decide is C13',
 'C43': 'equality of two arithmetic functions on all inputs needs a solver or execution; a static rule could only compare the text of the function with a copy',
 'C44': 'bounds on elapsed time depend on load and scheduling, which the source does not determine',
 'C46': 'the text of an index is parsed by sscanf and copied by computed positions within lines of any length; the interpretation of the loader over unconstrained lines does not follow the values through that parsing, so nothing about the restored values can be decided soundly; the writer side is C12 and the storage rules of what the loader creates are checked under C06',
 'C45': 'whether a listing is complete depends on the contents of the hash table and the network over the whole listing; the bounds of its loop are decided by C17',
}
