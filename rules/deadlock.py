"""C26: locks, waiting, and what runs while they are held."""
from rules.common import *
from rules import pipeline as pl, fatal as ft, queue as qu, initial as ini, shutdown as sh, hook as hk, races as rc, handles as hd

WAITS = {'wait': 'waits for another thread to do something', 'join': 'waits for a thread to end', 'cv_wait': 'waits on a condition', 'cv_wait_for': 'waits on a condition',
         'sleep': 'waits for time to pass'}
ENDS = {'end': 'ends the process', 'die': 'ends the process', 'raise': 'raises a signal'}
USER = {'usercall': 'runs code of the application', 'textuser': 'runs code of the application', 'deliver': 'runs the method of a sink', 'realcall': 'runs the method of a sink'}


def lock_name(I, m):
    if m[0] == 'once':
        return 'the once flag ' + rc.pretty(m[1][1]) if m[1][0] == 'G' else 'once flag'
    if m[0] == 'G':
        return rc.pretty(m[1])
    last = m
    rec = ''
    if m[0] == 'F':
        t = I.ltype.get(m[1])
        rec = (I.p.recname(I.recof(t) or '') or '') if t else ''
        last = m[2]
    return '%s::%s' % (rec, last) if rec else (show(last) if isinstance(last, tuple) else str(last))


class Run:
    """a path family: where it runs, what it is"""
    def __init__(self, role, name, I, f, res):
        self.role, self.name, self.I, self.f, self.res = role, name, I, f, res


def runs_of(ck):
    p = ck.prog()
    out = []
    for what, I, f, res in rc.entries(ck):
        out.append(Run('caller', what, I, f, res))
    for kind in pl.KINDS:
        I, f, res = pl.add_sink(ck, kind)
        out.append(Run('caller', 'adding a ' + kind, I, f, res))
    for name, fn in (('removing a sink', 'probe::remove_sink'), ('removing all sinks', 'probe::remove_all')):
        f = p.fn(fn)
        I = Interp(p, pl.sink_hooks(p), max_s=60, snap=['push', 'wait'])
        st0 = I.new_state()
        own_worker(p, I, st0)
        out.append(Run('caller', name, I, f, I.run_fn(f, st=st0, args=[Arg(loc=WORKER, t='g3::LogWorker')])))
    for fn, (real, _) in hd.CALLS.items():
        f = p.fn(fn)
        I = Interp(p, hooks(p, **{real: hd.real_hook('return')}), max_s=60, snap=['push'])
        out.append(Run('caller', fn.replace('probe::', 'call through a handle: '), I, f, I.run_fn(f, st=I.new_state())))
    r = ft.die_run(ck)
    if r:
        out.append(Run('any', 'termination', r[0], r[1], r[2]))
    # what the threads of the library do
    for rec in p.records:
        if (p.recname(rec) or '') == 'g3::internal::Sink' and ('probe' in rec or rec == 'g3::internal::Sink<g3::FileSink>'):
            S = ('A', 'sink')
            for f in [f for f in p.functions.values() if f.get('rec') == rec and f.get('body') is not None and f.get('kind') != 'ctor' and not f.get('static') and not is_helper(p, f)]:
                I = Interp(p, pl.sink_hooks(p), max_s=60, snap=['push'])
                st0 = I.new_state()
                I.ltype[S] = rec
                keep_handles(p, I, st0, S, rec)
                for path in sh.thread_fields(p, rec):
                    I.assume(st0, I._read(st0, at(S, path)), True)
                role = 'worker' if f.get('kind') == 'dtor' or f['sn'].endswith('::send') else 'caller'
                out.append(Run(role, f['n'], I, f, I.run_fn(f, st=st0, this=S)))
    for n, (I, ev, obj, own, res) in enumerate(rc.thread_bodies(ck)):
        out.append(Run('loop', 'thread of kjellkod::Active', I, p.fn('kjellkod::Active::createActive'), res))
    return out


def takes_fatal(r):
    return r.f.get('rec') == 'g3::LogWorker' and any('FatalMessage' in q['t'] for q in r.f['params'])


def tasks_of(ck, runs):
    """the work those runs hand to the threads of the library, once for each place and kind of thread"""
    done = {}
    out = []
    todo = list(runs)
    while todo:
        r = todo.pop(0)
        if takes_fatal(r):
            continue        # the same task as that of a fatal log call
        for st, _ in r.res:
            if st.marks:
                continue
            for e in posts(r.I, st):
                if getattr(e, 'st', None) is None:
                    continue
                role = 'worker' if worker_queue(ck.prog(), st, e) else 'sink'
                chain = tuple(x for x in (e.where(), str(e.val[:2])[:200]))
                k = (role, chain, r.name if r.name.startswith(('fatal', 'log')) else None)
                if done.setdefault(k, 0) >= 2:
                    continue
                done[k] += 1
                t = Run(role, 'task of %s' % r.name if not r.name.startswith('task') else r.name, r.I, r.f, run_task(r.I, e))
                out.append(t)
                if not r.name.startswith('task'):
                    todo.append(t)
    return out


def worker_queue(p, st, e):
    gs = set(worker_globals(p))
    return mentions(e.cont, lambda y: y == WORKER or isinstance(y, tuple) and len(y) > 1 and y[0] in ('ald', 'ld') and y[1][0] == 'G' and y[1][1] in gs)


def check_held(ck, runs, rule='nothing held'):
    """R1, R2: what happens while locks are held"""
    p = ck.prog()
    n = 0
    for r in runs:
        inst = '%s, %s [%s]' % (r.name, {'caller': 'calling thread', 'worker': 'worker thread', 'sink': 'thread of a sink', 'loop': 'its loop', 'any': 'any thread'}[r.role], ck.cfg)
        ck.ob(rule, inst, where_fn(r.f))
        for st, _ in ck.clean(r.I, r.res, rule, inst):
            for e in st.events():
                if e.k == 'lock' and e.get('again') and 'recursive' not in (e.get('kind') or ''):
                    ck.bad(rule, inst, e, '%s is taken a second time by the same thread: it waits for itself' % lock_name(r.I, e.m), st)
                elif e.k == 'once' and e.get('nested'):
                    ck.bad(rule, inst, e, 'a once-only initialization starts itself again: it waits for itself', st)
                if not e.locks:
                    continue
                n += 1
                held = list(e.locks)
                if e.k in ('cv_wait', 'cv_wait_for'):
                    own = e.get('m') or e.get('lock')
                    held = held[:-1] if own is None else [m for m in held if m != own]
                what = WAITS.get(e.k) or ENDS.get(e.k) or USER.get(e.k)
                if e.k == 'enter' and e.fn.startswith('LogCapture::'):
                    what = 'logs'
                if what and held:
                    ck.bad(rule, inst, e, '%s while %s is held' % (what, ' and '.join(sorted({lock_name(r.I, m) for m in held}))), st)
            if st.locks and st.comp and st.comp[0] == 'noret' and st.comp[1] not in ('loop', 'looplimit', 'die'):
                ck.bad(rule, inst, endsite(st, r.f), 'ends (%s) while %s is held' % (st.comp[1], ' and '.join(sorted({lock_name(r.I, m) for m in st.locks}))), st)
    ck.need(n, 'effects under a lock', 10)


def check_order(ck, runs, rule='lock order'):
    """R3: the order in which locks are taken has no cycle"""
    edges = {}
    inst = 'all locks [%s]' % ck.cfg
    ck.ob(rule, inst)
    for r in runs:
        for st, _ in r.res:
            if st.marks:
                continue
            for e in st.events('lock', 'once'):
                m = e.m if e.k == 'lock' else ('once', e.flag)
                for h in e.locks:
                    if h != m:
                        edges.setdefault((class_of(r.I, h), class_of(r.I, m)), (e, st, r, h, m))
    # a chain of locks that leads back to its start
    nodes = {a for a, b in edges} | {b for a, b in edges}
    ck.need(len(edges), 'pairs of locks held together')
    reach = {a: {b for x, b in edges if x == a} for a in nodes}
    ch = True
    while ch:
        ch = False
        for a in nodes:
            more = set().union(*[reach[b] for b in reach[a]]) if reach[a] else set()
            if not more <= reach[a]:
                reach[a] |= more
                ch = True
    for (a, b), (e, st, r, h, m) in edges.items():
        if a == b:
            ck.undecided(rule, inst, 'two %s held together at %s' % (a, e.where()))
        elif a in reach[b]:
            back = [x for x in edges if x[0] == b and (x[1] == a or a in reach[x[1]])][0]
            ck.bad(rule, inst, e, '%s is taken while %s is held; elsewhere (%s) the order is the other way round' % (b, a, edges[back][0].where()), st)


def class_of(I, m):
    return lock_name(I, m)


def guards(runs, p):
    """locks named by what they guard"""
    hooks_ = {('G', k) for k in ft.hook_globals(p)}
    out = {}
    for r in runs:
        for st, _ in r.res:
            for e in st.events(*(rc.WRITES + rc.READS)):
                l = rc.place(e)
                for m in e.locks:
                    if l is not None and root(l) in hooks_:
                        out[class_of(r.I, m)] = 'lock of the hook'
    return out


def names_of(l):
    out = []
    while isinstance(l, tuple) and l and l[0] == 'F':
        out.insert(0, l[2])
        l = l[1]
    return tuple(out)


def check_self(ck, runs, rule='no thread waits for itself'):
    """R4: what the threads of the library wait for"""
    p = ck.prog()
    n = 0
    wh = sh.thread_fields(p, 'g3::LogWorker')
    for r in runs:
        if r.role not in ('worker', 'sink', 'loop'):
            continue
        inst = '%s on the %s thread [%s]' % (r.name, 'worker' if r.role == 'worker' else "sink's" if r.role == 'sink' else 'own', ck.cfg)
        ck.ob(rule, inst, where_fn(r.f))
        for st, _ in ck.clean(r.I, r.res, rule, inst):
            n += 1
            evs = list(st.events())
            for i, e in enumerate(evs):
                if e.k == 'wait' and r.role == 'worker' and e.fut is not None:
                    for q in [x for x in evs[:i] if x.k == 'push' and is_task_push(r.I, x) and worker_queue(p, st, x)]:
                        if mentions(e.fut, lambda y: y[0] == 'fut' and y[1] in sh.futures_of(r.I, q)):
                            ck.bad(rule, inst, e, 'the worker thread waits for a task in its own queue', st)
                elif e.k == 'join' and r.role == 'worker' and mentions(e.thread, lambda y: isinstance(y, tuple) and y and y[0] == 'F' and names_of(y) in wh):
                    ck.bad(rule, inst, e, 'the worker thread waits for its own end', st)
                elif e.k == 'join' and r.role == 'sink' and (mentions(e.thread, lambda y: y == ('A', 'sink')) or is_prefix(('A', 'sink'), e.thread)):
                    ck.bad(rule, inst, e, 'the thread of a sink waits for its own end', st)
                elif e.k == 'join' and r.role == 'loop' and is_prefix(qu.SELF, e.thread):
                    ck.bad(rule, inst, e, 'a thread waits for its own end', st)
                elif e.k in ('wait',) and r.role == 'sink' and e.how in ('wait', 'get'):
                    ck.bad(rule, inst, e, 'the thread of a sink waits for another thread, which waits for it when the sink is removed', st)
    ck.need(n, 'paths on threads of the library', 5)


def check_nonblocking(ck, runs, rule='logging does not wait'):
    """a log call that is not fatal waits for no other thread: sinks, hooks and the worker itself can log"""
    n = 0
    for r in runs:
        if r.name != 'log call':
            continue
        inst = 'non-fatal log call [%s]' % ck.cfg
        ck.ob(rule, inst, where_fn(r.f))
        for st, _ in ck.clean(r.I, r.res, rule, inst):
            n += 1
            for e in st.events('wait', 'join', 'cv_wait', 'cv_wait_for', 'sleep'):
                ck.bad(rule, inst, e, 'a log call %s' % WAITS[e.k], st)
            if st.comp == ('noret', 'loop') and not [e for e in st.events('iter') if e.mode == 'generic']:
                ck.undecided(rule, inst, 'a loop')
    ck.need(n, 'paths of a log call', 2)


def blocking_after(st, e):
    evs = list(st.events())
    for x in evs[evs.index(e) + 1:]:
        if x.k in ('sleep', 'cv_wait', 'wait', 'join'):
            return x
    return None


def asks_thread(I, st):
    return any(rc.this_thread(I.norm_cond(b.cond)[0]) for b in st.events('br'))


def check_fatal_own_thread(ck, runs, tasks, rule='fatal event on an own thread'):
    """R5: the thread of a fatal event waits for the worker, which waits for the sinks"""
    p = ck.prog()
    block = []
    for r in runs:
        if r.name not in ('fatal log call', 'fatal signal'):
            continue
        for st, _ in ck.clean(r.I, r.res, rule, 'fatal event [%s]' % ck.cfg):
            for e in posts(r.I, st):
                x = blocking_after(st, e)
                if x is not None and not asks_thread(r.I, st):
                    block.append((x, st, r))
    sink_wait = []
    conts = [sh.sinks_field(ck)]
    for t in tasks:
        if t.role != 'worker' or not t.name.startswith('task of fatal'):
            continue
        for st, _ in ck.clean(t.I, t.res, rule, 'fatal event [%s]' % ck.cfg):
            for e in st.events('clear', 'erase', 'cassign', 'cswap', 'pop', 'join', 'wait'):
                if e.k in ('join', 'wait') and not e.locks or any(is_prefix(c, e.cont) or mentions(e.cont, lambda y: isinstance(y, tuple) and y and y[0] == 'F' and y[-1] == c[-1]) for c in conts):
                    sink_wait.append((e, st, t))
    ck.ob(rule, 'worker thread [%s]' % ck.cfg)
    ck.ob(rule, 'thread of a sink [%s]' % ck.cfg)
    if block:
        e, st, r = block[0]
        ck.bad(rule, 'worker thread [%s]' % ck.cfg, e, 'a fatal event on the worker thread waits here for the worker thread: the process never ends', st)
        if sink_wait:
            ck.bad(rule, 'thread of a sink [%s]' % ck.cfg, e, 'a fatal event on the thread of a sink waits here for the worker, which waits at %s for the thread of the sink: the process never ends' % sink_wait[0][0].where(), st)
    elif not any(r.name == 'fatal log call' for r in runs):
        raise AnalysisError('anchor vanished: fatal log call')


def check_interrupted(ck, runs, rule='signal handler'):
    """locks the handler of a signal takes are not held by the code it may interrupt (the signals include SIGTERM)"""
    if ck.cfg == 'nosignals':
        return
    takes, frees = {}, None
    for r in runs:
        if r.name == 'fatal signal':
            for st, _ in ck.clean(r.I, r.res, rule, 'handler [%s]' % ck.cfg):
                for e in st.events('lock'):
                    takes.setdefault(class_of(r.I, e.m), (e, st))
                for e in st.events('new', 'alloc'):
                    frees = frees or (e, st)
    ck.need(len(takes), 'locks taken by the handler')
    held = {}
    for r in runs:
        if r.role == 'caller':
            for st, _ in r.res:
                for e in st.events('lock'):
                    held.setdefault(class_of(r.I, e.m), (e, r))
    what = guards(runs, ck.prog())
    for m, (e, st) in sorted(takes.items()):
        inst = '%s [%s]' % ('lock of a queue' if m.startswith('shared_queue::') else what.get(m, m), ck.cfg)
        ck.ob(rule, inst)
        if m in held:
            ck.bad(rule, inst, e, 'the handler of a fatal signal takes %s, which the interrupted thread may hold (%s): it waits for itself' % (m, held[m][0].where()), st)
    inst = 'heap [%s]' % ck.cfg
    ck.ob(rule, inst)
    if frees:
        ck.bad(rule, inst, frees[0], 'the handler of a fatal signal allocates memory: the interrupted thread may hold the lock of the heap', frees[1])


def check_exit(ck, runs, tasks, rule='end of the process'):
    """R6: the worker thread does not run the destructors of static objects: they wait for it"""
    n = 0
    for r in runs + tasks:
        if r.name != 'termination' and r.role not in ('worker', 'sink', 'loop'):
            continue
        inst = '%s [%s]' % (r.name, ck.cfg)
        ck.ob(rule, inst, where_fn(r.f))
        for st, _ in ck.clean(r.I, r.res, rule, inst):
            for e in st.events('end'):
                n += 1
                if e.how == 'exit':
                    ck.bad(rule, inst, e, 'exit() on the thread of the worker destroys a LogWorker with static storage, which waits for the thread of the worker', st)
    ck.need(n, 'places that end the process')


def c26(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        runs = runs_of(ck)
        tasks = tasks_of(ck, runs)
        ck.need(len([t for t in tasks if t.role == 'worker']), 'tasks of the worker', 5)
        check_held(ck, runs + tasks)
        check_order(ck, runs + tasks)
        check_self(ck, runs + tasks)
        check_nonblocking(ck, runs)
        check_fatal_own_thread(ck, runs, tasks)
        check_exit(ck, runs, tasks)
        check_interrupted(ck, runs)
        hk.check_once(ck)
        ft.check_termination(ck)
        sh.check_synchronous(ck)
        sh.check_worker_end(ck)
        sh.check_sink_end(ck)
    ck.cfg = 'default'
    qu.check_queue(ck)
    bodies = qu.check_active(ck)
    qu.check_active_end(ck, bodies)
    hd.weak_only(ck)
