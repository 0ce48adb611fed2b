"""Which rules decide which property."""
from rules import delivery, entry, fatal, filesink, handles, hook, initial, kinds, levels, macros, printf, queue, shutdown, signals, timefmt, races, deadlock

ABS = 'path-sensitive abstract interpretation of the clang syntax trees: '


def _r(run, technique, level='other'):
    return {'run': run, 'level': level, 'technique': ABS + technique}


RULES = {}
RULES['C01'] = _r(delivery.c01, 'an obligation for every stage an entry passes (capture, hand-over, queue, worker task, fan-out loop, sink task), closed over all loop iterations by loop summaries')
RULES['C02'] = _r(delivery.c02, 'queue discipline (back/front), one consumer per queue, run-to-completion of tasks, ordering of effects in the worker task')
RULES['C03'] = _r(delivery.c03, 'lockset and typestate rules over every path of every queue operation')
RULES['C04'] = _r(entry.c04, 'effects reachable on the calling thread of a log call, and lock hold times of other threads on the locks it needs')
RULES['C05'] = _r(shutdown.c05, 'typestate of background threads (started, end requested, joined, members destroyed) on every path of every destructor')
RULES['C06'] = _r(filesink.c06, 'conservation rule over the text buffered and written: each operation of the file sink maps (buffer, entry) to (written, buffer) without loss, repetition or reordering')
RULES['C07'] = _r(fatal.c07, 'must-precede rules from the fatal call to the end of the process, followed across threads')
RULES['C08'] = _r(fatal.c08, 'path rules over the fatal path and the exit function, with the table of signal actions as abstract state')
RULES['C09'] = _r(fatal.c09, 'reachability of a return to the application from every kind of fatal event, and ordering of the release of waiting threads')
RULES['C10'] = _r(hook.c10, 'typestate of the pre fatal hook (set, taken, called) and lockset of its accesses over all fatal kinds')
RULES['C11'] = _r(initial.c11, 'typestate of the active worker (none, set, none) and value tracking of every read of it')
RULES['C12'] = _r(initial.c12, 'path rules over initialization and shutdown for every relation between the worker given and the active one')
RULES['C13'] = _r(shutdown.c13, 'thread confinement of the set of sinks, and wait-for rules on the calls that change it')
RULES['C14'] = _r(handles.c14, 'ownership rule over handles and queued calls, and result flow from the method of the sink to the future of the caller')
RULES['C15'] = _r(macros.c15, 'every use of every macro in the probe unit, with opaque level, condition and message expressions')
RULES['C16'] = _r(levels.c16, 'every public operation on an abstract registry (all statuses unknown, arguments in every position relative to the registered levels) compared with the model of the property, observed through the public queries')
RULES['C17'] = _r(kinds.c17, 'the predicate and every text formatter on entries with opaque message, expression and details; the classification is evaluated around every constant it compares with')
RULES['C18'] = _r(printf.c18, 'buffer extents, and the exact partition of the formatted length made by the conditions on each path (evaluated around every boundary)')
RULES['C19'] = _r(entry.c19, 'object-graph rule over what an entry refers to after the hand-over; attribute-by-attribute comparison of source and target of every copy, move, swap, assignment and conversion')
RULES['C20'] = _r(entry.c20, 'provenance of every attribute of an entry from the statement to the method of the sink, and of the result of every accessor')
RULES['C21'] = _r(filesink.c21, 'typestate of the old and the new stream on every path of a change of log file')
RULES['C22'] = _r(filesink.c22, 'character set and string shape tracking of the file name from the arguments to the open calls')
RULES['C23'] = _r(signals.c23, 'tracking of the table of signal actions over install, restore, override and fatal exit')
RULES['C24'] = _r(races.c24, 'locksets (with atomic claims and once flags as guards) of every access to an object with static storage, over everything threads may do at the same time')
RULES['C25'] = _r(timefmt.c25, 'effects of the library calls, buffer extents, and evaluation of the digit terms at every breakpoint of the instant')
RULES['C26'] = _r(deadlock.c26, 'locksets at every wait, user callback, log call and end of the process; lock-order graph over all threads; wait-for relation between the threads of the library')
