"""C05, C13: shutting down; adding and removing sinks."""
from rules.common import *
from rules import pipeline as pl, queue as q

TOUCH = ('push', 'pop', 'erase', 'clear', 'cassign', 'cswap', 'cread', 'it_deref', 'map_insert', 'map_erase', 'wr', 'rd')


def is_active_ptr(t):
    return 'Active' in t and ('unique_ptr' in t or 'shared_ptr' in t or t.rstrip().endswith('*'))


def thread_fields(p, rec):
    return [path for path, t in all_fields(p, rec) if is_active_ptr(t)]


def used_fields(results, this):
    """parts of an object a task works with"""
    out = {}
    for st, _ in results:
        for e in st.events(*TOUCH):
            l = e.get('loc') or e.get('cont')
            if l is not None and is_prefix(this, l) and l != this:
                l = field_only(l, this)
                if l != this:
                    out.setdefault(l, e)
        for e in st.events('usercall'):
            if isinstance(e.what, tuple):
                mentions(e.what, lambda y: (out.setdefault(field_only(y, this), e) if y and y[0] == 'F' and is_prefix(this, y) else None, False)[1])
    return out


def field_only(l, this):
    """the member of an object a location lies in"""
    chain = []
    x = l
    while x != this:
        chain.append(x)
        x = x[1]
    for x in reversed(chain):
        if x[0] != 'F':
            break
        l = x
    return l if l[0] == 'F' else this


def check_end(ck, rule, inst, I, f, this, res, handles, used, what):
    """the thread is joined before anything it works with goes away"""
    n = 0
    for st, _ in ck.clean(I, live(res), rule, inst):
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'destruction does not end normally (%s)' % (st.comp,), st)
            continue
        evs = list(st.events())
        none = [h for h in handles if I.known(st, ('ld', h, 0)) is False]
        if none:
            continue
        js = st.events('join')
        mine = [e for e in js if any(mentions(e.thread, lambda y: y == h) or is_prefix(h, e.thread) for h in handles)]
        if not mine:
            ck.bad(rule, inst, endsite(st, f), 'the background thread of %s is not joined: it may outlive what it works with' % what, st)
            continue
        n += 1
        j = evs.index(mine[0])
        for e in evs[:j]:
            if e.k in ('gone', 'clear', 'delete') and e.get('dtor') is not False:
                l = e.get('loc') or e.get('cont') or e.get('val')
                for u, use in used.items():
                    hit = is_prefix(u, l) if e.k == 'gone' else (l == u if e.k == 'clear' else mentions(l, lambda y: y == u))
                    if hit and (e.k != 'clear' or e.get('dtor')):
                        ck.bad(rule, inst, e, '%s is destroyed while the background thread of %s, which uses it, still runs' % (show(u), what), st)
        for e in evs[j:]:
            if e.k == 'push' and is_task_push(I, e) and any(mentions(e.cont, lambda y: y == h) for h in handles):
                ck.bad(rule, inst, e, 'a task is queued for a thread that has ended: it is never run', st)
    return n


def check_sink_end(ck, rule='sink ends'):
    """a sink finishes everything it was sent before it, and the object it hands entries to, is destroyed"""
    p = ck.prog()
    recs = [r for r in p.records if (p.recname(r) or '') == 'g3::internal::Sink' and 'probe' in r or r == 'g3::internal::Sink<g3::FileSink>']
    ck.need(len(recs), 'instances of g3::internal::Sink')
    for rec in recs:
        inst = '%s [%s]' % (rec, ck.cfg)
        d = [f for f in p.functions.values() if f.get('kind') == 'dtor' and f.get('rec') == rec and f.get('body') is not None]
        send = [f for f in p.functions.values() if f.get('rec') == rec and f['sn'].endswith('::send') and f.get('body')]
        if not send:
            raise AnalysisError('anchor vanished: send of %s' % rec)
        # what its tasks use
        I = Interp(p, pl.sink_hooks(p), max_s=60, snap=['push'], trace_rw=True)
        st = I.new_state()
        S = ('A', 'sink')
        I.ltype[S] = rec
        keep_handles(p, I, st, S, rec)
        for path in thread_fields(p, rec):
            I.assume(st, I._read(st, at(S, path)), True)
        used = {}
        for s, _ in ck.clean(I, live(I.run_fn(send[0], this=S, st=st)), rule, inst):
            for e in posts(I, s):
                used.update(used_fields(run_task(I, e), S))
        for path, t in all_fields(p, rec):
            if 'unique_ptr' in t and not is_active_ptr(t):
                used.setdefault(at(S, path), None)
        if len(used) < 2:
            ck.undecided(rule, inst, 'members used by the thread of the sink not recognised')
        I = Interp(p, hooks(p, **{'~probe::ProbeSink': event_hook('realgone', obj='obj'), '~probe::TextSink': event_hook('realgone', obj='obj'),
                                  '~g3::FileSink': event_hook('realgone', obj='obj')}), max_s=60, trace_gone=True)
        st = I.new_state()
        I.ltype[S] = rec
        keep_handles(p, I, st, S, rec)
        if not d:
            ck.undecided(rule, inst, 'no destructor in the source')
            continue
        ck.ob(rule, inst, where_fn(d[0]))
        hs = [at(S, path) for path in thread_fields(p, rec)]
        n = check_end(ck, rule, inst, I, d[0], S, I.run_fn(d[0], this=S, st=st), hs, used, 'the sink')
        if not n and not [v for v in ck.viol.values() if v['rule'] == rule]:
            ck.undecided(rule, inst, 'no path that joins')


def worker_methods(p):
    return [f for f in p.functions.values() if f.get('rec') == 'g3::LogWorker' and f.get('body') is not None and f.get('kind') not in ('ctor',) and not f.get('static') and not is_helper(p, f)]


def sinks_field(ck):
    """where the worker keeps its sinks"""
    p = ck.prog()
    out = [path for path, t in all_fields(p, 'g3::LogWorker') if 'SinkWrapper' in t]
    if len(out) != 1:
        raise AnalysisError('anchor vanished: the set of sinks of g3::LogWorker (%s)' % out)
    return at(WORKER, out[0])


def run_worker_method(ck, f, **opt):
    p = ck.prog()
    opt.setdefault('snap', ['push', 'wait'])
    I = Interp(p, hooks(p), max_s=60, **opt)
    st = I.new_state()
    own_worker(p, I, st)
    return I, I.run_fn(f, st=st, this=WORKER)


def check_worker_end(ck, rule='worker ends'):
    p = ck.prog()
    f = p.fn('g3::LogWorker::~LogWorker')
    inst = 'g3::LogWorker::~LogWorker [%s]' % ck.cfg
    sinks = sinks_field(ck)
    I, res = run_worker_method(ck, f, trace_gone=True)
    ck.ob(rule, inst, where_fn(f))
    hs = [at(WORKER, path) for path in thread_fields(p, 'g3::LogWorker')]
    if not hs:
        raise AnalysisError('anchor vanished: the background thread of g3::LogWorker')
    n = check_end(ck, rule, inst, I, f, WORKER, res, hs, {sinks: None}, 'the worker')
    ck.need(n or len(ck.viol), 'paths that destroy a worker')
    for st, _ in ck.clean(I, live(res), rule, inst):
        evs = list(st.events())
        js = [e for e in st.events('join') if any(mentions(e.thread, lambda y: y == h) for h in hs)]
        lim = evs.index(js[0]) if js else len(evs)
        for e in evs[:lim]:
            l = e.get('cont') or e.get('loc')
            if e.k in ('erase', 'clear', 'cassign', 'cswap', 'push', 'pop', 'wr') and l is not None and is_prefix(sinks, l):
                ck.bad(rule, inst, e, 'the set of sinks is changed by the destroying thread while the worker thread still uses it', st)
        # what is queued only removes sinks or asks for an end, behind everything accepted before
        for e in posts(I, st):
            if e.front:
                ck.bad(rule, inst, e, 'a request is put in front of accepted entries', st)


def check_off_before(ck, rule='worker ends'):
    from rules import initial as ini
    ini.check_shutdown(ck)


def c05(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_worker_end(ck)
        check_sink_end(ck)
        check_off_before(ck)
    ck.cfg = 'default'
    from rules import handles as hd
    hd.check_sole_owner(ck)
    bodies = q.check_active(ck)
    q.check_active_end(ck, bodies)
    q.check_queue(ck)
    from rules import filesink as fs
    fs.check_end(ck, rule='file sink ends')


# ----------------------------------------------------------------- C13
def check_confined(ck, rule='confined'):
    """the set of sinks is used only by tasks of the worker thread, or after that thread was joined"""
    p = ck.prog()
    sinks = sinks_field(ck)
    hs = [at(WORKER, path) for path in thread_fields(p, 'g3::LogWorker')]
    n = 0
    seen = set()
    for f in worker_methods(p):
        inst = '%s [%s]' % (f['sn'] if f['sn'] not in seen else f['id'], ck.cfg)
        seen.add(f['sn'])
        ck.ob(rule, inst, where_fn(f))
        I, res = run_worker_method(ck, f, trace_rw=True)
        n += 1
        for st, _ in ck.clean(I, res, rule, inst):
            joined = False
            for e in st.events():
                if e.k == 'join' and any(mentions(e.thread, lambda y: y == h) for h in hs):
                    joined = True
                l = e.get('cont') or e.get('loc')
                if e.k in TOUCH and l is not None and is_prefix(sinks, l) and not joined:
                    ck.bad(rule, inst, e, 'the set of sinks is used on the calling thread', st)
    ck.need(n, 'methods of g3::LogWorker', 5)
    # who else can reach the set of sinks
    name = sinks[-1]
    inst = 'users of the set of sinks [%s]' % ck.cfg
    ck.ob(rule, inst)
    rec = owner(p, sinks)
    ok = {f['id'] for f in p.functions.values() if f.get('rec') in ('g3::LogWorker', rec)}
    for f in p.functions.values():
        if not f.get('body') or f['id'] in ok or (f.get('rec') or '').startswith('lambda'):
            continue
        for nd in walk(f):
            if nd.get('k') == 'member' and nd.get('n') == name and (nd.get('rec') or rec) == rec and p.isrepo(rec):
                ck.undecided(rule, inst, 'used in %s' % f['sn'])


def owner(p, loc):
    rec = 'g3::LogWorker'
    for path, t in all_fields(p, rec):
        if at(WORKER, path) == loc[1]:
            return p.rec(t)
    return rec


def futures_of(I, e):
    """numbers of the results a queued task will provide"""
    out = set()
    for s, _ in run_task(I, e):
        out |= {x.get('n') for x in s.events('task_done')}
    return out


def check_synchronous(ck, rule='synchronous'):
    """calls that change the set of sinks return only after the worker has made the change"""
    p = ck.prog()
    sinks = sinks_field(ck)
    runs = [('adding a %s' % k, pl.KINDS[k][0]) for k in pl.KINDS] + [('removing a sink', 'probe::remove_sink'), ('removing all sinks', 'probe::remove_all')]
    for name, fn in runs:
        f = p.fn(fn)
        I = Interp(p, pl.sink_hooks(p), max_s=60, snap=['push', 'wait'])
        st0 = I.new_state()
        own_worker(p, I, st0)
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        res = I.run_fn(f, st=st0, args=[Arg(loc=WORKER, t='g3::LogWorker')])
        n, posted, idle = 0, [], []
        for st, _ in ck.clean(I, live(res), rule, inst):
            if st.comp is not None:
                continue
            evs = list(st.events())
            if not posts(I, st):
                idle.append((st, not st.marks and not [x for x in evs if x.k in ('push', 'erase', 'clear', 'cassign', 'cswap', 'thread_start', 'wait', 'usercall')]))
            for e in posts(I, st):
                if not mentions(e.cont, lambda y: y == WORKER):
                    continue
                rr = live(run_task(I, e))
                changes = [x for s, _ in rr for x in s.events('push', 'erase', 'clear', 'cassign', 'cswap', 'pop') if is_prefix(sinks, x.cont)]
                if not changes:
                    if not any(s.marks for s, _ in rr):
                        posted.append(e)
                    continue
                n += 1
                fut = futures_of(I, e)
                ws = [x for x in evs[evs.index(e):] if x.k == 'wait']
                ok = [x for x in ws if x.how in ('wait', 'get') and x.fut is not None and mentions(x.fut, lambda y: y[0] == 'fut' and y[1] in fut)]
                if ok:
                    continue
                other = [x for x in ws if x.how not in ('wait', 'get')]
                if not ws:
                    done = [x for x in evs[evs.index(e):] if x.k in ('cv_wait', 'join', 'loop')]
                    if done:
                        ck.undecided(rule, inst, 'waits by %s' % done[0].k)
                    else:
                        ck.bad(rule, inst, e, '%s returns without waiting for the worker to do it' % name, st)
                elif other:
                    ck.bad(rule, inst, other[0], '%s waits for the worker only for a limited time' % name, st)
                elif fut:
                    ck.bad(rule, inst, ws[0], '%s waits for something else than the change' % name, st)
                else:
                    ck.undecided(rule, inst, 'result of the queued task not recognised')
                # done only when the change is made
            for e in posts(I, st):
                for s, _ in live(run_task(I, e)):
                    es = list(s.events())
                    ch = [x for x in es if x.k in ('push', 'erase', 'clear') and is_prefix(sinks, x.cont)]
                    dn = [x for x in es if x.k == 'task_done']
                    if ch and dn and es.index(dn[0]) < es.index(ch[-1]):
                        ck.bad(rule, inst, ch[-1], 'the change is reported as done before it is made', s)
        if not n and posted:
            ck.never(rule, inst, posted[0], '%s queues a task that changes nothing' % name)
        if not n and not posted and idle and all(x for _, x in idle) and not I.incomplete:
            ck.never(rule, inst, endsite(idle[0][0], f), '%s changes nothing' % name, idle[0][0])
        ck.need(n or len(ck.viol), 'queued changes: %s' % name)


def check_removal(ck, rule='removal'):
    """removing a sink removes that sink and no other"""
    p = ck.prog()
    sinks = sinks_field(ck)
    f = p.fn('probe::remove_sink')
    I = Interp(p, hooks(p), max_s=60, snap=['push', 'wait'])
    st0 = I.new_state()
    own_worker(p, I, st0)
    inst = 'removing a sink [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    h = ('D', ('ld', ('A', f['params'][1]['n']), 0))
    weak = [at(h, path) for r in p.records if p.recname(r) == 'g3::SinkHandle' for path, t in all_fields(p, r) if 'weak_ptr' in t]
    if not weak:
        raise AnalysisError('anchor vanished: what a g3::SinkHandle refers to its sink by')
    n = 0
    for st, _ in ck.clean(I, live(I.run_fn(f, st=st0, args=[Arg(loc=WORKER, t='g3::LogWorker')])), rule, inst):
        facts = path_facts(I, st)
        given = [b for t, b in facts.items() if t[0] == 'nz' and t[1] == ('ld', ('A', f['params'][1]['n']), 0)]
        ps = [e for e in posts(I, st) if mentions(e.cont, lambda y: y == WORKER)]
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'does not return normally', st)
            continue
        gone = [b for t, b in facts.items() if t[0] == 'nz' and t[1][0] == 'alive']
        if not ps:
            if False not in given and False not in gone:
                ck.bad(rule, inst, endsite(st, f), 'a path of removing a sink does not reach the worker', st)
            continue
        for e in ps:
            for s, _ in live(ck.clean(I, run_task(I, e), rule, inst)):
                fs = path_facts(I, s)
                dead = [t for t, b in fs.items() if b is False and t[0] == 'nz' and (t[1][0] == 'alive' or mentions(t[1], lambda y: y[0] in ('alive',)))]
                cs = [x for x in s.events('erase', 'clear', 'cassign', 'cswap', 'pop', 'push') if is_prefix(sinks, x.cont)]
                v = I._read(s, sinks)
                if not cs:
                    nf = [t for t, b in fs.items() if mentions(t, lambda y: y and y[0] == 'op' and y[1] in ('find', 'cfind', 'contains'))]
                    if not dead and v == ('ld', sinks, s.gen):
                        empty = I.known(s, stdmodel.is_empty(v)) is True
                        loops = s.events('loop_exit')
                        if not empty and not loops and not nf:
                            ck.bad(rule, inst, e, 'the sink is not removed although it is there', s)
                        elif not empty and any(b for t, b in fs.items() if t[0] == '==' and same_sink(t, weak)):
                            ck.bad(rule, inst, e, 'the sink is not removed although it was found', s)
                        else:
                            n += 1
                    continue
                n += 1
                if any(x.k in ('clear', 'push', 'pop') for x in cs):
                    x = [x for x in cs if x.k in ('clear', 'push', 'pop')][0]
                    ck.bad(rule, inst, x, 'removing one sink %s' % ('removes every sink' if x.k == 'clear' else 'changes other sinks'), s)
                    continue
                x = cs[0]
                if v[0] == 'op' and v[1] == 'cfilter' or v[0] == 'cfilter':
                    crit = v[-1]
                    if not good_filter(crit, weak):
                        ck.bad(rule, inst, x, 'sinks other than the one of the handle are removed (%s)' % show(crit), s) if known_filter(crit) else \
                            ck.undecided(rule, inst, 'removal of %s' % show(crit))
                elif x.get('new') and x.new[0] == 'cdelpos' and len(x.new) == 3 and x.at is not None:
                    mine = [b for t, b in fs.items() if t[0] == '==' and same_sink(t, weak) and mentions(t, lambda y: y == x.at)]
                    if dead and any(not b and t[0] == 'nz' and mentions(t, lambda y: y == x.at) for t, b in fs.items()):
                        continue        # there are no empty ones among the sinks
                    if mine != [True]:
                        ck.bad(rule, inst, x, 'a sink is removed that was not found to be the one of the handle', s)
                elif x.get('new') and (x.new[0] == 'cdelpos' or x.new == ('seq', 0)):
                    size = stdmodel.size_of(x.val)
                    a, z = x.new[2:4] if x.new[0] == 'cdelpos' else (('i', 0), size)
                    if a == z:
                        n -= 1
                    elif z != size or a[0] not in ('i', 'sym'):
                        ck.undecided(rule, inst, 'set of sinks becomes %s' % show(v))
                    elif I.known(s, ('==', I.arith('+', a, ('i', 1)), size)) is not True:
                        ck.bad(rule, inst, x, 'removing one sink removes the ones behind it too', s)
                else:
                    ck.undecided(rule, inst, 'set of sinks becomes %s' % show(v))
    if not n:
        ck.undecided(rule, inst, 'no removal recognised')
    f = p.fn('probe::remove_all')
    I = Interp(p, hooks(p), max_s=60, snap=['push', 'wait'])
    st0 = I.new_state()
    own_worker(p, I, st0)
    inst = 'removing all sinks [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, live(I.run_fn(f, st=st0, args=[Arg(loc=WORKER, t='g3::LogWorker')])), rule, inst):
        ps = [e for e in posts(I, st) if mentions(e.cont, lambda y: y == WORKER)]
        if not ps:
            ck.bad(rule, inst, endsite(st, f), 'removing all sinks does not reach the worker', st)
        for e in ps:
            for s, _ in live(ck.clean(I, run_task(I, e), rule, inst)):
                v = I._read(s, sinks)
                n += 1
                if I.known(s, stdmodel.is_empty(v)) is not True:
                    if v[0] == 'sym':
                        ck.undecided(rule, inst, 'set of sinks becomes %s' % show(v))
                    else:
                        ck.bad(rule, inst, e, 'sinks remain attached', s)
    if not n:
        ck.undecided(rule, inst, 'no complete path')


def same_sink(t, weak):
    """a comparison with the sink of the handle"""
    return mentions(t, lambda y: y and y[0] == 'ld' and y[1] in weak)


def known_filter(c):
    return isinstance(c, tuple) and c and c[0] in ('eq', 'op', 'all', 'ne', 'not', 'closure')


def good_filter(c, weak):
    """removes the elements equal to the sink of the handle"""
    return isinstance(c, tuple) and c and (c[0] == 'eq' or c[0] == 'op' and len(c) > 2 and c[1] == 'eq') and mentions(c, lambda y: y and y[0] == 'ld' and y[1] in weak)


def c13(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_confined(ck)
        check_synchronous(ck)
        check_removal(ck)
        from rules import handles as hd
        hd.check_no_handle(ck)
        hd.check_added(ck)
        pl.check_attach(ck)
        check_worker_end(ck)
    ck.cfg = 'default'
