"""The inter-thread queue and the active object that consumes it."""
from rules.common import *

CONT = ('push', 'pop', 'cread', 'clear', 'erase', 'cassign', 'cswap', 'it_deref')
Q = ('A', 'q')
POPS = ('try_and_pop', 'wait_and_pop')


def queue_methods(p):
    recs = [k for k in p.records if p.recname(k) == 'shared_queue' and p.isrepo(k)]
    if not recs:
        raise AnalysisError('anchor vanished: shared_queue')
    out = {}
    for f in p.functions.values():
        if f.get('rec') in recs and f.get('body') and f.get('kind') not in ('ctor', 'dtor'):
            out.setdefault(f['sn'].split('::')[-1], f)
    return {n: f for n, f in out.items() if n in OPERATIONS or not is_helper(p, f, True)}


OPERATIONS = ('push', 'try_and_pop', 'wait_and_pop', 'empty', 'size')


def run_method(ck, f, **kw):
    p = ck.prog()
    I = interp(p, **dict({'snap': ['push', 'cv_wait', 'pop']}, **kw))
    st = I.new_state()
    return I, I.run_fn(f, this=Q, st=st)


def param_loc(f, i=0):
    return ('A', f['params'][i]['n'])


def check_queue(ck):
    p = ck.prog()
    ms = queue_methods(p)
    for n in ('push', 'try_and_pop', 'wait_and_pop'):
        if n not in ms:
            raise AnalysisError('anchor vanished: shared_queue::%s' % n)
    runs = {n: (f,) + run_method(ck, f) for n, f in ms.items()}
    cvs = {e.cv for f, I, res in runs.values() for st, _ in res for e in st.events('cv_wait', 'cv_wait_for') }
    # ---- one lock protects every access
    common = None
    for n, (f, I, res) in runs.items():
        inst = 'shared_queue::%s' % n
        ck.ob('queue lock', inst, where_fn(f))
        res = ck.clean(I, res, 'queue lock', inst)
        for st, _ in res:
            for e in st.events(*CONT):
                if not is_prefix(Q, e.cont):
                    continue
                common = set(e.locks) if common is None else common & set(e.locks)
                if not e.locks:
                    ck.bad('queue lock', inst, e, 'the queue is accessed without holding its lock', st)
            if st.comp is None and st.locks:
                ck.bad('queue lock', inst, endsite(st, f), 'returns with the lock held', st)
            for e in st.events('lock'):
                if e.again:
                    ck.bad('queue lock', inst, e, 'takes the lock twice', st)
    if common is None:
        raise AnalysisError('no access to the queue found')
    if not common:
        ck.bad('queue lock', 'one common lock', where_fn(ms['push']), 'no single lock is held at every access to the queue')
    ck.ob('queue lock', 'one common lock', where_fn(ms['push']))

    # ---- push
    f, I, res = runs['push']
    item = I.new_state()
    check_push(ck, f, I, res, cvs)
    # ---- take
    for n in POPS:
        f, I, res = runs[n]
        check_take(ck, n, f, I, res)
    check_wait(ck, runs)
    check_state_methods(ck, ms)
    return runs


def region(st, e):
    """number of lock acquisitions and releases before an event: equal for two events of one critical section"""
    n = 0
    for x in st.events():
        if x is e:
            return n
        if x.k in ('lock', 'unlock', 'cv_wait', 'cv_wait_for'):
            n += 1
    return n


def check_push(ck, f, I, res, cvs):
    rule, inst = 'push', 'shared_queue::push'
    ck.ob(rule, inst, where_fn(f))
    want = ('ld', param_loc(f), 0)
    for st, _ in ck.clean(I, live(res), rule, inst):
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'push does not return normally', st)
            continue
        ps = [e for e in st.events('push') if is_prefix(Q, e.cont)]
        if len(ps) != 1:
            ck.bad(rule, inst, ps[1] if ps else endsite(st, f), 'a path of push adds %d items' % len(ps), st)
            continue
        e = ps[0]
        if e.front:
            ck.bad(rule, inst, e, 'the item is added at the front', st)
        v = e.val
        if v != want and v != param_loc(f):
            if v is None or v[0] in ('sym', 'op'):
                ck.undecided(rule, inst, 'pushed value %s' % (show(v) if v else v))
            else:
                ck.bad(rule, inst, e, 'the item added is %s, not the argument' % show(v), st)
        for x in st.events('pop', 'erase', 'clear'):
            if is_prefix(Q, x.cont):
                ck.bad(rule, inst, x, 'push removes items', st)
        # wake-up
        rule2 = 'wake-up'
        ck.ob(rule2, inst, where_fn(f))
        ns = [x for x in st.events('notify') if not cvs or x.cv in cvs]
        evs = list(st.events())
        ok = [x for x in ns if evs.index(x) > evs.index(e) or (region(st, x) == region(st, e) and x.locks)]
        if not ok:
            other = [t for t in st.facts if mentions(t, lambda y: y[0] == 'ld' and is_prefix(Q, y[1]) and not is_prefix(e.cont, y[1]))] if not ns else []
            if other:
                ck.undecided(rule2, inst, 'no notification on a path that depends on %s' % show(other[0]))
            elif ns:
                ck.bad(rule2, inst, ns[0], 'waiting consumers are notified before the item is added', st)
            else:
                ck.bad(rule2, inst, endsite(st, f), 'a path of push adds an item without notifying waiting consumers', st)


def check_take(ck, n, f, I, res):
    rule, inst = 'take', 'shared_queue::%s' % n
    ck.ob(rule, inst, where_fn(f))
    out = param_loc(f)
    for st, v in ck.clean(I, live(res), rule, inst):
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'does not return normally (%s)' % (st.comp,), st)
            continue
        pops = [e for e in st.events('pop', 'erase', 'clear') if is_prefix(Q, e.cont)]
        for e in pops:
            if e.k == 'pop' and e.empty is not False:
                ck.bad(rule, inst, e, 'an item is taken out although the queue may be empty', st)
            if e.k == 'pop' and e.back:
                ck.bad(rule, inst, e, 'the newest item is taken out instead of the oldest', st)
        for e in st.events('cread'):
            if is_prefix(Q, e.cont) and e.op in ('front', 'back') and e.get('empty') is not False:
                ck.bad(rule, inst, e, 'reads an item although the queue may be empty', st)
        if len(pops) > 1:
            ck.bad(rule, inst, pops[1], 'one take removes more than one item', st)
            continue
        for e in st.events('push'):
            if is_prefix(Q, e.cont):
                ck.bad(rule, inst, e, 'a take adds items', st)
        if n == 'try_and_pop':
            r = None if v is None else (v[1] != 0 if v[0] == 'i' else I.known(st, v))
            if r is None and pops and v and mentions(v, lambda y: y[0] == 'empty' and y[1][0] == 'cpop'):
                ck.bad(rule, inst, endsite(st, f), 'reports whether more items are left instead of whether one was taken out', st)
            elif r is None:
                ck.undecided(rule, inst, 'result %s' % (show(v) if v else v))
            elif bool(r) != bool(pops):
                ck.bad(rule, inst, endsite(st, f), 'reports %s although %s item was taken out' % ('success' if r else 'failure', 'an' if pops else 'no'), st)
        elif not pops:
            ck.bad(rule, inst, endsite(st, f), 'returns without an item', st)
        if pops and pops[0].k == 'pop':
            got = I._read(st, out)
            if got != ('ld', pops[0].ver, 0) and got != pops[0].ver and not (got[0] == 'ld' and got[1] == pops[0].ver):
                if got == ('ld', out, st.gen) or got == ('ld', out, 0):
                    ck.bad(rule, inst, pops[0], 'the item taken out is not delivered', st)
                elif got[0] in ('sym',):
                    ck.undecided(rule, inst, 'delivered value %s' % show(got))
                else:
                    ck.bad(rule, inst, pops[0], 'the item delivered (%s) is not the one taken out' % show(got), st)


def check_wait(ck, runs):
    rule = 'no lost wake-up'
    n = 0
    for name, (f, I, res) in runs.items():
        for st, _ in res:
            if st.marks:
                continue
            for e in st.events('cv_wait', 'cv_wait_for'):
                inst = 'shared_queue::%s' % name
                ck.ob(rule, inst, e.where())
                n += 1
                if not e.held:
                    ck.bad(rule, inst, e, 'waits without holding the lock', st)
                s = e.st
                if s is None:
                    continue
                conts = {x.cont for r in runs.values() for s2, _ in r[2] for x in s2.events('push') if is_prefix(Q, x.cont)}
                for c in conts:
                    cv = s.store.get(c) or ('ld', c, s.gen)
                    if I.known(s, stdmodel.is_empty(cv)) is not True and e.k == 'cv_wait':
                        ck.bad(rule, inst, e, 'goes to sleep without having seen the queue empty in the same critical section', st)
    ck.need(n, 'waits on the queue')


def check_state_methods(ck, ms):
    p = ck.prog()
    rule = 'state queries'
    for n, want in (('empty', lambda sz: sz == 0), ('size', lambda sz: sz)):
        f = ms.get(n)
        if not f:
            continue
        inst = 'shared_queue::%s' % n
        ck.ob(rule, inst, where_fn(f))
        for sz in (0, 1, 2):
            I = interp(p)
            st = I.new_state()
            q = [path for path, t in all_fields(p, f['rec']) if 'queue' in t or 'deque' in t or 'list' in t]
            if len(q) != 1:
                ck.undecided(rule, inst, 'container not identified')
                break
            c = at(Q, q[0])
            I.assume(st, ('op', '==', stdmodel.size_of(I._read(st, c)), ('i', sz)), True)
            for s, v in ck.clean(I, live(I.run_fn(f, this=Q, st=st)), rule, inst):
                k = v[1] if v and v[0] == 'i' else None
                if k is None and n == 'empty':
                    k = I.known(s, v)
                if k is None and n == 'size':
                    k = sz if I.known(s, ('op', '==', v, ('i', sz))) else None
                if k is not None and int(k) != int(want(sz)):
                    ck.bad(rule, inst, endsite(s, f), 'reports %s for a queue of %d item(s)' % (show(v), sz), s)


# ----------------------------------------------------------------- active object
def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def publish(I, st, obj, name):
    """an object other threads know by now: its contents are arbitrary"""
    new = ('A', name)
    I.ltype[new] = I.ltype[obj]
    st.store = {subst(k, obj, new): subst(v, obj, new) for k, v in st.store.items() if not is_prefix(obj, k)}
    return new


SELF = ('A', 'active')


def thread_body(I, ev, obj=None):
    """run, as a new thread, the callable a thread_start event was given"""
    s = ev.st.fork()
    if obj is not None:
        publish(I, s, obj, 'active')
    s.ev, s.locks, s.scopes, s.depth, s.inl, s.comp = None, (), ((),), 0, (), None
    s.meta['thread'] = s.meta.get('thread', 0) + 1
    I.havoc(s)
    fr = I.entry_frame('thread')
    return I.invoke_loc(s, ev.fn, [], fr, None, None)


def create(ck):
    p = ck.prog()
    h = hooks(p)
    I = Interp(p, h, max_s=60, snap=['push', 'thread_start'])
    f = p.fn('kjellkod::Active::createActive')
    return I, f, I.run_fn(f)


def check_create(ck):
    """every active object starts exactly one thread, after it is constructed, and keeps it joinable"""
    rule, inst = 'one consumer', 'kjellkod::Active::createActive'
    I, f, res = create(ck)
    ck.ob(rule, inst, where_fn(f))
    starts = []
    for st, v in ck.clean(I, live(res), rule, inst):
        if st.comp is not None:
            continue
        ts = st.events('thread_start')
        if len(ts) != 1:
            ck.bad(rule, inst, ts[1] if ts else endsite(st, f), 'an active object starts %d threads' % len(ts), st)
            continue
        asg = [e for e in st.events('thread_assign')]
        own = asg[-1].thread if asg else ts[0].thread
        objs = [e.loc for e in st.events('new') if e.t and 'Active' in e.t]
        if objs and not is_prefix(objs[0], own):
            ck.bad(rule, inst, ts[0], 'the thread is not owned by the active object', st)
        if st.events('detach'):
            ck.bad(rule, inst, st.events('detach')[0], 'the thread is detached: nobody can wait for it', st)
        check_built(ck, I, st, ts[0], objs[0] if objs else None, own)
        starts.append((I, st, ts[0], objs[0] if objs else None, own))
    ck.need(len(starts), 'threads started by createActive')
    return starts


def check_built(ck, I, st, ev, obj, own):
    """when the thread starts, every member it may use has been initialized"""
    rule, inst = 'built before it runs', 'kjellkod::Active::createActive'
    ck.ob(rule, inst, ev.where())
    if obj is None or ev.st is None:
        return
    p = ck.prog()
    rec = I.ltype.get(obj) or 'kjellkod::Active'
    fields = [path for path, t in all_fields(p, rec if rec in p.records else 'kjellkod::Active')]
    late = [path for path in fields if not any(q[:len(path)] == path and q != path for q in fields)
            if not is_prefix(own, at(obj, path)) and I._read(ev.st, at(obj, path))[0] == 'uninit']
    if late:
        ck.bad(rule, inst, ev, 'the thread of an active object starts before its %s is initialized' % '.'.join(late[0]), st)


def thread_sites(p):
    """constructions of threads anywhere in the library"""
    out = []
    for f in p.functions.values():
        if f.get('file', '').startswith('probe') or not f.get('body'):
            continue
        for n in walk(f):
            if n.get('k') == 'ctor' and (strip(n.get('rec') or '') in ('std::thread', 'std::jthread')) and n.get('args') and n.get('ckind') not in ('move', 'copy'):
                out.append((f, n))
            if n.get('k') == 'call' and str(n.get('n', '')).startswith(('std::async', 'pthread_create')):
                out.append((f, n))
    return out


def consume(ck, starts):
    """the thread body: every item taken out is invoked exactly once, before the next is taken"""
    rule, inst = 'consume', 'thread of an active object'
    results = []
    for I, st0, ev, obj, own in starts:
        ck.ob(rule, inst, ev.where())
        I.opt['snap'] = ['push', 'pop', 'usercall']
        rr = thread_body(I, ev, obj)
        allr = ck.clean(I, rr, rule, inst)
        n = 0
        for s, v in allr:
            pend = None
            for e in s.events('pop', 'usercall', 'null_call', 'clear', 'erase', 'loop_exit'):
                if e.k == 'pop':
                    if pend is not None and not no_task(s, pend):
                        ck.bad(rule, inst, e, 'a second item is taken out before the first one was run: an item is lost', s)
                    pend = e
                    n += 1
                elif e.k in ('usercall', 'null_call'):
                    w = e.get('what')
                    if e.k == 'null_call':
                        ck.bad(rule, inst, e, 'an empty callable may be called', s)
                        continue
                    if not (isinstance(w, tuple) or isinstance(w, str)):
                        continue
                    if pend is None:
                        ck.bad(rule, inst, e, 'a callable is run that is not a newly taken item', s)
                    elif not same_item(w, pend):
                        ck.bad(rule, inst, e, 'the callable run is not the item taken out', s)
                    if e.locks:
                        ck.bad('no lock while running tasks', inst, e, 'a task is run while %s is held' % ', '.join(show(m) for m in e.locks), s)
                    pend = None
            if pend is not None and s.comp in (None, ('noret', 'loop')) and not no_task(s, pend):
                ck.bad(rule, inst, pend, 'an item is taken out of the queue but never run', s)
            if s.comp is not None and s.comp[0] == 'thr':
                ck.bad(rule, inst, endsite(s, {'sn': 'thread', 'file': '', 'line': 0}), 'the thread ends by an exception', s)
        ck.need(n, 'items taken out by the thread')
        results.append((I, ev, obj, own, rr))
    return results


def no_task(s, pop):
    """the item taken out was found to be an empty callable: there is nothing to run"""
    return any(t[0] == 'nz' and b is False and same_item(t[1], pop) for t, b in s.facts.items())


def same_item(w, pop):
    if not isinstance(w, tuple):
        return False
    return mentions(w, lambda t: t == pop.ver or (t[0] == 'ld' and t[1] == pop.ver))


def active_dtor(ck):
    p = ck.prog()
    I = interp(p)
    f = p.fn('kjellkod::Active::~Active')
    st = I.new_state()
    return I, f, I.run_fn(f, this=Q, st=st)


def check_active_end(ck, bodies):
    """destruction queues the request to stop behind everything accepted, then joins; only that request ends the thread"""
    rule, inst = 'stop after the backlog', 'kjellkod::Active::~Active'
    p = ck.prog()
    I, f, res = active_dtor(ck)
    ck.ob(rule, inst, where_fn(f))
    flags, sets, none = None, {}, None
    for st, _ in ck.clean(I, live(res), rule, inst):
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'destruction does not end normally (%s)' % (st.comp,), st)
            continue
        evs = list(st.events())
        ps = posts(I, st)
        js = st.events('join')
        if not js:
            joinable = [t for t, b in st.facts.items() if mentions(t, lambda y: y[0] == 'op' and 'joinable' in str(y[1])) and b is False]
            if joinable:
                continue
            ck.bad(rule, inst, endsite(st, f), 'the thread is not joined: it may outlive the object it works on', st)
            continue
        before = [e for e in ps if evs.index(e) < evs.index(js[0])]
        if not before:
            ck.bad(rule, inst, js[0], 'the thread is joined without a request to stop in its queue', st)
            continue
        stop = before[-1]
        own = set()
        for e in evs[:evs.index(js[0])]:
            if e.k in ('wr', 'awr') and is_prefix(Q, e.loc) and not is_prefix(stop.cont, e.loc) and e.fn if False else False:
                own.add(e.loc)
        direct = [e for e in evs[:evs.index(js[0])] if e.k in ('wr', 'awr') and is_prefix(Q, e.loc) and not is_prefix(stop.cont, e.loc)]
        fl = set()
        if stop.val == ('null',):
            none = stop     # an empty task asks for the end
        for s2, _ in live(run_task(I, stop)) if stop.val != ('null',) else ():
            if s2.marks:
                ck.undecided(rule, inst, 'stop request approximated')
            ws = [e for e in s2.events('wr', 'awr') if is_prefix(Q, e.loc)]
            fl |= {e.loc for e in ws}
            for e in ws:
                sets.setdefault(rebase(e.loc, Q, SELF), []).append((e.get('val'), e))
        flags = fl if flags is None else flags & fl
        for e in direct:
            for I2, ev, obj, own_t, rr in bodies:
                if obj is not None and rebase(e.loc, Q, SELF) in read_by(rr):
                    ck.bad(rule, inst, e, 'state the thread tests is changed directly instead of through its queue: pending items can be dropped', st)
    # the thread ends only through the flag
    rule2 = 'thread end'
    for I2, ev, obj, own_t, rr in bodies:
        inst2 = 'thread of an active object'
        ck.ob(rule2, inst2, ev.where())
        for s, v in rr:
            if s.comp is not None or s.marks:
                continue
            want = {rebase(l, Q, SELF) for l in (flags or ())} if obj is not None else set()
            last = {}
            for t, b in s.facts.items():
                for l in want:
                    if mentions(t, lambda y: y[0] in ('ld', 'ald') and y[1] == l):
                        last[l] = (t, b)
            if none is not None:
                last_pop = s.events('pop')[-1:]
                if not last and not (last_pop and no_task(s, last_pop[0])):
                    ck.bad(rule2, inst2, endsite(s, {'sn': 'thread of an active object', 'file': '', 'line': 0}),
                           'the thread can end although it did not take the empty task that asks for it', s)
                continue
            if want and not last:
                ck.bad(rule2, inst2, endsite(s, {'sn': 'thread of an active object', 'file': '', 'line': 0}),
                       'the thread can end although no request to stop was processed: later items are never handled', s)
            for l, (t, b) in last.items():
                vs = sets.get(l) or []
                tv = [truth(t, v) for v, _ in vs]
                if tv and all(x is not None and x != b for x in tv):
                    ck.bad(rule2, inst2, vs[0][1], 'the request to stop sets %s to %s, but the thread ends when it is %s: it never ends, and destruction never returns' % (
                        show(l).split('.')[-1], show(vs[0][0]), 'set' if b else 'not set'), s)
                old = I2._read(ev.st, rebase(l, SELF, obj))
                if old and old[0] == 'i' and truth(t, old) == b and len(last) == 1:
                    ck.bad(rule2, inst2, ev, 'the thread can end at once: what it tests (%s) is so from the beginning' % show(l).split('.')[-1], s)
        if not flags and none is None:
            ck.undecided(rule2, inst2, 'the stop request sets no state of the active object')


def truth(t, v):
    """whether a condition on a flag holds when the flag is v (None: not known)"""
    if not v or v[0] != 'i':
        return None
    if t[0] == 'nz' and t[1][0] in ('ld', 'ald'):
        return bool(v[1])
    if t[0] == 'op' and len(t) == 4 and t[1] in ('==', '!=') and t[3][0] == 'i' and t[2][0] in ('ld', 'ald'):
        return (v[1] == t[3][1]) == (t[1] == '==')
    return None


def read_by(rr):
    out = set()
    for s, _ in rr:
        for t in s.facts:
            mentions(t, lambda y: (out.add(y[1]) if y and y[0] in ('ld', 'ald') else None, False)[1])
    return out


def check_send(ck):
    """sending to an active object queues the callable itself exactly once"""
    p = ck.prog()
    rule, inst = 'send', 'kjellkod::Active::send'
    I = interp(p)
    f = p.fn('kjellkod::Active::send')
    ck.ob(rule, inst, where_fn(f))
    want = param_loc(f)
    for st, _ in ck.clean(I, live(I.run_fn(f, this=Q)), rule, inst):
        ps = [e for e in st.events('push') if is_prefix(Q, e.cont)]
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'send does not return normally', st)
        elif len(ps) != 1:
            ck.bad(rule, inst, ps[1] if ps else endsite(st, f), 'a path of send queues the task %d times' % len(ps), st)
        elif not (ps[0].val == want or (ps[0].val and mentions(ps[0].val, lambda t: t == want))):
            ck.undecided(rule, inst, 'queued value %s' % show(ps[0].val))
        for e in st.events('usercall'):
            ck.bad(rule, inst, e, 'the task is run by the sender', st)


def reach(p, roots):
    ss = summaries(p)
    seen, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k in seen or k not in ss:
            continue
        seen.add(k)
        todo += list(ss[k].get('callees', ()))
    return seen


def check_consumers(ck, bodies):
    """items are taken out of the queue only by the thread of the active object"""
    p = ck.prog()
    rule, inst = 'one consumer', 'callers of the taking operations'
    ids = [f['id'] for f in p.functions.values() if p.recname(f.get('rec') or '') == 'shared_queue' and f['sn'].split('::')[-1] in POPS]
    inl = set()
    for I, ev, obj, own, rr in bodies:
        for s, _ in rr:
            inl |= {e.id for e in s.events('enter')}
    ck.ob(rule, inst)
    for f in p.functions.values():
        if f.get('file', '').startswith('probe') or not f.get('body') or p.recname(f.get('rec') or '') == 'shared_queue':
            continue
        for n in walk(f):
            if n.get('k') == 'call' and n.get('fn') in ids and f['id'] not in inl:
                ck.bad(rule, inst, '%s:%s (%s)' % (f['file'], n.get('l', f['line']), f['sn']), 'takes items out of a queue outside of its consumer thread')


def check_active(ck):
    starts = check_create(ck)
    bodies = consume(ck, starts)
    check_send(ck)
    check_consumers(ck, bodies)
    rule, inst = 'one consumer', 'threads started by the library'
    p = ck.prog()
    sites = thread_sites(p)
    ck.ob(rule, inst)
    ck.need(len(sites), 'thread constructions')
    inl = set()
    for I, st, ev, obj, own in starts:
        inl |= {e.id for e in st.events('enter')}
    for f, n in sites:
        if f['id'] not in inl:
            ck.bad(rule, inst, '%s:%s (%s)' % (f['file'], n.get('l', f['line']), f['sn']), 'starts a thread outside of the active object')
    return bodies
