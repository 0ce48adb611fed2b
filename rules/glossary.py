"""What each rule demands (quoted in the evidence of the checks that apply it)."""
TEXT = {
    # the way of an entry
    'hand-over': 'every path of a non-fatal log call on an initialized logger queues exactly one task at the worker and returns',
    'fan-out': 'the task of the worker sends the entry exactly once to every element of the set of sinks, for any number of sinks, in order of the set',
    'complete entry': 'every attribute of the entry a sink receives is that of the entry logged, whatever other sinks do with theirs',
    'no sinks': 'with an empty set of sinks the entry is written to stderr',
    'attach': 'adding a sink of any kind puts it, and only it, into the set of sinks exactly once',
    'sink hand-over': 'an entry sent to a sink is queued once at the thread of that sink and handed, complete, to the method of the sink exactly once',
    'in task': 'the task of the worker sends to the sinks itself, on its own thread, before it ends',
    'handler stays installed': 'the handler of fatal signals is installed to stay (no SA_RESETHAND): later signals meet it too',
    'nested signal': 'a thread hit by a second fatal signal before the first was handed over goes on with the report instead of waiting for itself',
    'unblocked': 'the signal the process is ended with is unblocked before it is raised',
    # the queue and the threads
    'push': 'an item is added at one end, exactly once, and is the one given',
    'take': 'an item is taken at the other end, only from a queue known not to be empty in the same critical section; it is delivered and removed once; success is reported exactly then',
    'queue lock': 'one lock is held at every access to the container of the queue, and released on every path',
    'wake-up': 'every addition notifies a consumer after the item is in the queue',
    'no lost wake-up': 'a consumer sleeps only after it saw the queue empty in the same critical section, and looks again when woken',
    'state queries': 'asking for the state of the queue is done under its lock and answers what it asks',
    'consume': 'the thread of an active object runs each item it took exactly once, before it takes the next, without a lock',
    'one consumer': 'each queue has one thread that takes from it, started once, after the object is complete',
    'built before it runs': 'when a background thread starts, every member of its object has been initialized',
    'send': 'sending puts the given task into the queue once',
    'stop after the backlog': 'the request to end goes behind everything queued, and nothing else ends the thread',
    'thread end': 'the destructor of an active object joins its thread before its members go away',
    'worker ends': 'destroying a worker turns logging off, lets its thread finish what is queued and joins it before anything it uses goes away',
    'sink ends': 'destroying a sink joins its thread before the sink object and the members its tasks use go away',
    'file sink ends': 'the destructor of the file sink writes what is buffered',
    'shutdown of a worker': 'destroying a worker turns logging off exactly if it is the active one',
    'one critical section': 'the active worker is turned off in the critical section that found it to be the one',
    'confined': 'the set of sinks is used only in tasks of the worker thread, or after that thread was joined',
    'synchronous': 'adding and removing return only after the worker made the change, without a time limit',
    'removal': 'removing a sink removes that sink and no other, removing all leaves none',
    # the calling thread
    'calling thread': 'a non-fatal log call runs no method of a sink, writes no file and waits for nothing',
    'no slow work under a lock of the log call': 'where another thread holds a lock that a log call needs, it does no slow work',
    'captured at the call': 'time and thread are taken once, by the calling thread, before the entry is handed over; the text is what was streamed',
    'place of the statement': 'file, line, function, level and expression are those the statement gives',
    'accessors': 'each accessor returns the attribute it names',
    'self-contained': 'nothing an entry refers to after the hand-over belongs to the caller, its library or another thread',
    'complete copies': 'copying, moving, assigning, swapping and converting carry over every attribute',
    # macros, levels, texts
    'disabled': 'a disabled statement evaluates no message expression and hands nothing over',
    'enabled': 'otherwise exactly one entry is handed over and every message expression is evaluated once',
    'filter': 'each filtered macro asks for its own level, and follows the registry',
    'once': 'evaluated (or executed) exactly once', 'passed': 'a true contract has no effect', 'failed': 'a false contract is a fatal event, not filtered by level',
    'single statement': 'an else after a macro belongs to the application',
    'initial': 'the built-in levels are registered and enabled', 'register': 'adding a level registers it', 'change': 'enabling and disabling change exactly the registered level named',
    'threshold': 'at or above the threshold on, below off; nothing changes for an unregistered threshold', 'queries': 'asking changes nothing and answers from the registry',
    'status flag': 'the status of a level is read and written as one value', 'all enabled': 'without dynamic levels every statement is enabled',
    'fatal exactly from FATAL on': 'the classification of levels, evaluated around every constant it compares with', 'only fatal levels take the fatal path': 'and all of them do',
    'text of each kind': 'message once and unaltered, expression for contracts, the chosen details, its own format', 'details': 'every detail once, in the text of details',
    'format of the file sink': 'the one chosen', 'reason': 'names the signal', 'reaches the sinks': 'the fatal entry reaches the sinks with its text',
    'bounded': 'the size given to the formatting function is at most the room in the buffer',
    'complete': 'a text that fits is logged unmodified, with its full length', 'truncation': 'the part that fits and the marker, exactly if something was cut off',
    'failure': 'a notice that contains the format', 'limit': 'the configured maximum size is the one in force',
    're-entrant': 'no conversion of times through storage shared by threads', 'digits': 'number, padding and value of every kind of fraction, before and after 1970',
    'tokens': 'each token of a format is replaced once', 'local time': 'of the second that contains the instant', 'rejected format': 'returned as text',
    # handles
    'weak': 'a handle and the calls it queued never keep the sink alive', 'own thread': 'a call through a handle goes through the queue of the entries of that sink',
    'handle given': 'adding a sink returns a handle of exactly the sink that was added',
    'no handle': 'removing a sink by an empty handle uses nothing and does nothing',
    'result': 'the future gets the result or the exception', 'gone': 'a sink that is gone gives an error through the future and is not used',
    # file sink
    'each entry once': 'each operation maps (buffer, entry) to (written, buffer) without loss, repetition or reordering', 'header first': 'a header is written to a file before any entry',
    'nothing left behind': 'the destructor writes what is buffered', 'all or nothing': 'success and failure paths of a change of log file', 'never emptied': 'modes of all open calls',
    'prefix': 'characters removed and refused', 'directory': 'delimiters and separator', 'fallback': 'order of attempts, no sink without an open file',
    # fatal events
    'flush': 'a fatal event queues one task behind all entries; it sends the fatal entry to every sink and waits for each before the process ends',
    'no logger': 'without a logger the event is reported on stderr and the process ends by its signal', 'no hook': 'without a hook fatal events are handled like with one',
    'second event': 'once the worker has a fatal entry no other thread ends the process',
    'original actions first': 'the recorded actions are put back before the signal is raised', 'release and exit': 'afterwards blocked threads are released and the process exits with failure',
    'signal': 'the signal raised is that of the event', 'abort': 'fatal log calls and failed contracts end by SIGABRT',
    'never continues': 'no path of a fatal event returns or throws to the application', 'one report': 'one atomic step decides which of several signals is reported; the others wait',
    'released only after the signal': 'waiting threads are released only after the signal was raised',
    'hook': 'the hook is called at most once, before the fatal entry is handed over', 'disarmed first': 'the hook is exchanged out before it is called', 'hook lock': 'one lock is held at every access to the hook, none while it runs',
    'recursion': 'a recursive fatal event is reported with the first stack trace; initialization resets the state',
    # initialization
    'no worker': 'a log call without a worker uses none and does not crash', 'first message': 'the first message is kept once, announced, and queued first on initialization',
    'after shutdown': 'log calls after shutdown have no effect on the worker', 'tested worker': 'the pointer used is the one that was found not to be null',
    'illegal initialization': 'refused with an explanation and a failure status, the active worker unchanged, no lock held', 'initialize': 'the worker given becomes the active one',
    # signals
    'install': 'every configured signal, and no other, gets the handler', 'save once': 'the action before the first installation is recorded once', 'override': 'a new set restores the signals no longer handled and handles the new ones',
    'restore one': 'the recorded action of one signal is put back, once, and only it', 'default set': 'abort, floating point, illegal instruction, segmentation, termination',
    'initialization installs': 'initialization installs the handling once', 'disabled handling': 'a build without signal handling installs none',
    # shared state
    'guarded': 'an object that changes while threads use it is atomic, or one guard is held at every place that uses it; what was found in it is acted on in the same step',
    'members': 'a member of an object that several threads call is changed by one thread only, or guarded',
    # deadlocks
    'sole owner': 'no other thread owns a sink at the moment the worker gives it up to have it finished',
    'anchors': 'instances found where paths had to be given up',
    'nothing held': 'no lock is held where code of the application runs, another thread is waited for, an entry is logged or the process ends; no lock is taken twice',
    'lock order': 'the order in which locks and once flags are taken has no cycle', 'no thread waits for itself': 'waits and joins in tasks on the threads of the library',
    'logging does not wait': 'a log call that is not fatal waits for no other thread', 'fatal event on an own thread': 'the wait-for relation of the fatal path has no cycle',
    'end of the process': 'not through static destructors on the worker thread', 'signal handler': 'takes no lock that the interrupted code may hold',
    'initialize again': 'after the active worker was shut down, initializing logging with another worker makes that one active',
    'no lock while running tasks': 'the worker thread holds no lock while it runs a task',
    'sequences': 'after every sequence of two operations on the levels, each query gives what the model of the documentation gives',
}
