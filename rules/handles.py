"""C14: calls through sink handles."""
from rules.common import *
from rules import pipeline as pl
from rules import queue as q

CALLS = {'probe::handle_call': ('probe::ProbeSink::query', ['a', 'b']), 'probe::handle_call_void': ('probe::ProbeSink::change', ['v']),
         'probe::handle_file_name': ('g3::FileSink::fileName', [])}
ANSWER = A('answer')


def real_hook(mode):
    def h(I, st, c):
        vals = tuple(I.aval(st, a) for a in c.args)
        locs = tuple(a.loc for a in c.args)
        I.emit(st, 'realcall', c.node, c.fr, fn=c.name, obj=c.obj, vals=vals, locs=locs, snap=True)
        if mode == 'throw':
            st.comp = ('thr', ('exc', 'app::error', None))
            return [(st, None)]
        if c.dest is not None:
            st.store[c.dest] = ANSWER
            return [(st, c.dest)]
        return [(st, ANSWER)]
    return h


def handle_recs(p):
    out = [r for r in p.records if p.recname(r) == 'g3::SinkHandle']
    if not out:
        raise AnalysisError('anchor vanished: g3::SinkHandle')
    return out


def sink_recs(p):
    out = [r for r in p.records if p.recname(r) == 'g3::internal::Sink']
    if not out:
        raise AnalysisError('anchor vanished: g3::internal::Sink')
    return out


def weak_only(ck, rule='weak'):
    """a handle refers to its sink only weakly"""
    p = ck.prog()
    for r in handle_recs(p):
        inst = '%s [%s]' % (r, ck.cfg)
        ck.ob(rule, inst)
        fl = all_fields(p, r)
        ck.need(len(fl), 'members of %s' % r)
        site = '%s:%s (%s)' % (p.records[r].get('file', 'g3log/sinkhandle.hpp'), p.records[r].get('line', 0), p.recname(r))
        for path, t in fl:
            if 'weak_ptr' in t:
                continue
            if 'Sink' in t and ('shared_ptr' in t or 'unique_ptr' in t or t.rstrip().endswith('*') or t.rstrip().endswith('&')):
                ck.bad(rule, inst, site, 'a handle %s the sink by its member %s (%s)' % ('keeps alive' if 'shared_ptr' in t or 'unique_ptr' in t else 'can outlive', '.'.join(path), t[:80]))


def sink_loc_of(cont):
    """the sink object whose queue a task goes into"""
    l = cont
    best = None
    while isinstance(l, tuple) and l and l[0] in ('F', 'D', 'E'):
        if l[0] == 'D':
            best = l
            v = l[1]
            if v[0] == 'ld' and v[1][0] in ('F',):
                l = v[1]
                continue
            break
        l = l[1]
    return best


def reachable_shared(I, st, rec):
    """places in a queued task that own a sink"""
    out = []
    for k in st.store:
        if root(k)[0] == 'H':
            t = I.ltype.get(k) or ''
            if 'shared_ptr' in t and 'Sink' in t and 'weak' not in t and not t.startswith('std::_Bind') and not t.startswith('std::packaged'):
                out.append(k)
    return out


def check_calls(ck):
    p = ck.prog()
    sends = {}
    for fn, (real, names) in CALLS.items():
        f = p.fn(fn)
        inst = '%s [%s]' % (fn.replace('probe::', 'call of '), ck.cfg)
        for r in ('once', 'own thread', 'result', 'gone'):
            ck.ob(r, inst, where_fn(f))
        n = {'once': 0, 'gone': 0}
        for mode in ('return', 'throw'):
            h = hooks(p, **{real: real_hook(mode)})
            I = Interp(p, h, max_s=60, snap=['push'], trace_rw=True)
            st0 = I.new_state()
            res = ck.clean(I, live(I.run_fn(f, st=st0)), 'once', inst)
            sinks = {sink_loc_of(e.cont) for st, v in res for e in posts(I, st)} - {None}
            for st, v in res:
                facts = path_facts(I, st)
                alive = [b for t, b in facts.items() if t[0] == 'nz' and t[1][0] == 'alive']
                nobg = [t for t, b in facts.items() if b is False and t[0] == 'nz' and t[1][0] == 'ld' and t[1][1][0] == 'F' and mentions(t[1][1], lambda y: y and y[0] == 'D')]
                ps = posts(I, st)
                fut = I._read(st, v) if v and v[0] in ('A', 'L', 'T', 'H', 'F') else v
                if st.comp is not None:
                    ck.bad('gone' if False in alive else 'once', inst, endsite(st, f), 'a call through a handle does not return a future (%s)' % (st.comp,), st)
                    continue
                if nobg:
                    continue
                if False in alive:
                    n['gone'] += 1
                    use = ps or [e for e in st.events('rd', 'cread', 'wr', 'lock') if any(mentions(e.get('loc') or e.get('cont') or e.get('m') or 0, lambda y, k=k: y == k) for k in sinks)]
                    direct = st.events('realcall')
                    if direct or use:
                        ck.bad('gone', inst, (direct or use)[0], 'a sink that is gone is used', st)
                    if fut[0] in ('null', 'uninit'):
                        ck.bad('gone', inst, endsite(st, f), 'the future of a call to a sink that is gone is empty', st)
                        continue
                    if fut[0] != 'fut':
                        ck.undecided('gone', inst, 'future of a call to a sink that is gone: %s' % show(fut))
                        continue
                    x = st.store.get(('#fut', fut[1]))
                    if x is None:
                        ck.bad('gone', inst, endsite(st, f), 'the future of a call to a sink that is gone never becomes ready', st)
                    elif x[0] != 'exc':
                        ck.bad('gone', inst, endsite(st, f), 'the future of a call to a sink that is gone does not report it', st)
                    continue
                n['once'] += 1
                direct = st.events('realcall')
                if direct:
                    ck.bad('own thread', inst, direct[0], 'the method of the sink is called on the thread of the caller', st)
                    continue
                waits = st.events('wait', 'cv_wait', 'join')
                if not ps:
                    ck.bad('once', inst, endsite(st, f), 'a path of a call through a handle does not reach the sink', st)
                    continue
                if len(ps) > 1:
                    ck.bad('once', inst, ps[1], 'a call through a handle is queued more than once', st)
                    continue
                if True not in alive:
                    ck.bad('gone', inst, ps[0], 'the sink is used without making sure that it still exists', st)
                e = ps[0]
                if e.front:
                    ck.bad('own thread', inst, e, 'a call through a handle overtakes log entries', st)
                sk = sink_loc_of(e.cont)
                rel = [x for x in st.events('release') if x.n < e.n and x.get('val') == (sk[1] if sk else None)]
                if rel:
                    ck.bad('gone', inst, rel[0], 'the sink may be destroyed before the call is queued', st)
                check_queue_is_own(ck, p, inst, I, st, e, sk, f, sends)
                own = reachable_shared(I, e.st, None)
                if own:
                    ck.bad('gone', inst, e, 'the queued call keeps the sink alive (%s)' % show(own[0]), st)
                rr = live(ck.clean(I, run_task(I, e), 'once', inst))
                for s, _ in rr:
                    rc = s.events('realcall')
                    if len(rc) != 1:
                        ck.bad('once', inst, rc[1] if rc else e, 'a call through a handle runs the method of the sink %d times' % len(rc), s)
                        continue
                    c = rc[0]
                    if real not in c.fn:
                        ck.bad('once', inst, c, 'the wrong method is called', s)
                    reals = sk is not None and mentions(c.obj, lambda y: y == sk)
                    if not reals:
                        ck.undecided('once', inst, 'called on %s' % show(c.obj))
                    want = [A(x) for x in names]
                    got = list(c.vals)
                    for i, w in enumerate(want):
                        if i >= len(got) or got[i] != w:
                            ck.bad('once', inst, c, 'argument %d is not the one supplied (%s)' % (i + 1, show(got[i]) if i < len(got) else 'missing'), s)
                    for i, l in enumerate(c.locs):
                        if l is not None and root(l)[0] in ('A', 'L'):
                            ck.bad('once', inst, c, 'argument %d refers to an object of the caller that may be gone' % (i + 1), s)
                    if fut[0] != 'fut':
                        ck.undecided('result', inst, 'future of a call: %s' % show(fut))
                        continue
                    x = s.store.get(('#fut', fut[1]))
                    if s.comp is not None:
                        ck.bad('result', inst, endsite(s, f), 'an exception of the sink is not passed to the caller but ends its thread', s)
                    elif x is None:
                        ck.bad('result', inst, c, 'the future of the call is not the one its result goes to', s)
                    elif mode == 'throw' and not (x[0] == 'exc' and x[1] == 'app::error'):
                        ck.bad('result', inst, c, 'an exception of the sink is not passed to the caller (%s)' % show(x), s)
                    elif mode == 'return' and x[0] == 'exc':
                        ck.bad('result', inst, c, 'a call that succeeded gives an exception', s)
                    elif mode == 'return' and x != ANSWER and x != ('void',):
                        y = I._read(s, x) if x[0] in ('A', 'L', 'T', 'H', 'F') else x
                        if y != ANSWER and y[0] != 'ld' and y[0] != 'op':
                            ck.bad('result', inst, c, 'the future gives something else than the result of the call (%s)' % show(y), s)
        ck.need(n['once'] or len(ck.viol), 'calls to an existing sink: %s' % fn)
        ck.need(n['gone'] or len(ck.viol), 'calls to a sink that is gone: %s' % fn)


def check_absent(ck, rule='gone'):
    """a task for a thread that is not there gives a future that says so"""
    p = ck.prog()
    fs = [f for f in p.fns('g3::spawn_task') if f.get('body') and len(f['params']) == 2]
    ck.need(len(fs), 'instances of g3::spawn_task')
    for f in fs:
        inst = 'spawn_task without a worker [%s]' % ck.cfg
        ck.ob(rule, inst, where_fn(f))
        I = Interp(p, hooks(p), max_s=30, snap=['push'])
        st = I.new_state()
        w = f['params'][1]
        I.assume(st, A(w['n']), False)
        for s, v in live(ck.clean(I, I.run_fn(f, st=st), rule, inst)):
            fut = I._read(s, v) if v and v[0] in ('A', 'L', 'T', 'H', 'F') else v
            ps = posts(I, s)
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'a task for a worker that is not there does not return a future (%s)' % (s.comp,), s)
            elif ps:
                ck.bad(rule, inst, ps[0], 'a worker that is not there is used', s)
            elif fut and fut[0] == 'fut':
                x = s.store.get(('#fut', fut[1]))
                if x is None:
                    ck.bad(rule, inst, endsite(s, f), 'the future of a task for a worker that is not there never becomes ready', s)
                elif x[0] != 'exc':
                    ck.bad(rule, inst, endsite(s, f), 'the future of a task for a worker that is not there does not report it', s)
            else:
                ck.undecided(rule, inst, 'future of a task without a worker: %s' % (show(fut) if fut else fut))


def check_queue_is_own(ck, p, inst, I, st, e, sk, f, sends):
    """calls and log entries go through the same queue of the same sink"""
    if sk is None:
        ck.undecided('own thread', inst, 'queue of the call: %s' % show(e.cont))
        return
    rec = None
    for r in sink_recs(p):
        if ('FileSink' in r) == ('file' in f['sn']) and ('ProbeSink' in r) == ('file' not in f['sn']):
            rec = r
    if rec is None:
        ck.undecided('own thread', inst, 'sink not recognised')
        return
    if rec not in sends:
        g = [x for x in p.functions.values() if x.get('rec') == rec and x['sn'].endswith('::send') and x.get('body')]
        if not g:
            raise AnalysisError('anchor vanished: send of %s' % rec)
        I2 = Interp(p, pl.sink_hooks(p), max_s=60, snap=['push'])
        s0 = I2.new_state()
        S = ('A', 'sink')
        I2.ltype[S] = rec
        keep_handles(p, I2, s0, S, rec)
        sends[rec] = {rebase_all(x.cont, S, ('A', '#')) for s, _ in live(I2.run_fn(g[0], this=S, st=s0)) for x in posts(I2, s)}
    mine = rebase_all(e.cont, sk, ('A', '#'))
    if not sends[rec]:
        ck.undecided('own thread', inst, 'queue of log entries not recognised')
    elif mine not in sends[rec]:
        ck.bad('own thread', inst, e, 'the call goes through %s, log entries through %s' % (show(mine), show(sorted(sends[rec])[0])), st)


def rebase_all(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(rebase_all(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def check_sink_access(ck, rule='weak'):
    """sink() gives a weak reference"""
    p = ck.prog()
    fs = [f for f in p.functions.values() if f.get('rec') in handle_recs(p) and f['sn'].endswith('::sink')]
    for f in fs:
        inst = '%s [%s]' % (f['sn'], ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        if 'weak_ptr' not in (f.get('ret') or ''):
            ck.bad(rule, inst, where_fn(f), 'sink() hands out an owner of the sink (%s)' % f.get('ret'))
    f = p.fn('probe::handle_sink')
    I = Interp(p, hooks(p), max_s=60)
    inst = 'sink() [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    for st, v in ck.clean(I, live(I.run_fn(f)), rule, inst):
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'sink() fails when the sink is gone (%s)' % (st.comp,), st)


OWNERS = {'probe::handle_call': 'a call through a handle', 'probe::handle_sink': 'asking a handle for its sink'}


def check_sole_owner(ck, rule='sole owner'):
    """the worker flushes a sink by giving it up: no other thread may own it at that time"""
    p = ck.prog()
    for name, inst in OWNERS.items():
        f = p.fn(name)
        I = Interp(p, hooks(p), max_s=60)
        inst = '%s [%s]' % (inst, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        for st, _ in ck.clean(I, live(I.run_fn(f)), rule, inst):
            for e in st.events('acquire'):
                ck.bad(rule, inst, e, 'the calling thread owns the sink for a moment; when the worker gives it up in that moment it goes on without the sink having finished', st)


def check_added(ck):
    """adding a sink gives a handle of exactly that sink"""
    p = ck.prog()
    fs = [f for f in p.functions.values() if f['sn'].split('::')[-1] in ('addSink', 'addDefaultLogger') and f.get('rec') == 'g3::LogWorker' and f.get('body')]
    ck.need(len(fs), 'ways to add a sink', 2)
    rule = 'handle given'
    for f in fs:
        inst = '%s [%s]' % (f['sn'] + '(' + ', '.join(q['t'].split('<')[0] for q in f['params']) + ')' + (f.get('ret') or '').replace('std::unique_ptr<g3::SinkHandle<', ' for ').split('>')[0], ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = Interp(p, hooks(p, **{'g3::FileSink::FileSink': simple(('void',))}), max_s=60)
        st0 = I.new_state()
        own_worker(p, I, st0)
        for st, v in ck.clean(I, live(I.run_fn(f, st=st0, this=WORKER)), rule, inst):
            if st.comp is not None:
                continue
            h = I._read(st, v) if v and v[0] in ('A', 'L', 'T', 'H', 'F') else v
            if h is None or h[0] in ('null', 'uninit') or h[0] == 'ld' and h[1][0] == 'A':
                ck.bad(rule, inst, endsite(st, f), 'no handle is returned for the sink that was added', st)
                continue
            made = [e.loc for e in st.events('new') if e.t and (p.recname(e.t) or e.t or '').split('<')[0].split(' ')[-1] == 'g3::internal::Sink']
            l = h[1] if h[0] == 'ptr' else None
            refs = [x for k, x in st.store.items() if l is not None and is_prefix(l, k) and k != l and isinstance(x, tuple)]
            if len(made) != 1 or not refs:
                ck.undecided(rule, inst, 'handle %s' % show(h)[:80])
            elif not any(mentions(x, lambda y: y == made[0]) for x in refs):
                ck.bad(rule, inst, endsite(st, f), 'the handle that is returned does not belong to the sink that was added', st)


def check_no_handle(ck):
    """removing a sink by an empty handle does nothing"""
    p = ck.prog()
    fs = [f for f in p.functions.values() if f['sn'].split('::')[-1] == 'removeSink' and f.get('rec') == 'g3::LogWorker' and f.get('body')]
    ck.need(len(fs), 'instances of removeSink')
    rule = 'no handle'
    for f in fs:
        inst = '%s(%s) [%s]' % (f['sn'], f['params'][0]['t'].split('SinkHandle<')[-1].split('>')[0], ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = Interp(p, hooks(p), max_s=60, trace_rw=True)
        st0 = I.new_state()
        own_worker(p, I, st0)
        a = ('A', f['params'][0]['n'])
        I.ltype[a] = f['params'][0]['t']
        I.mark_private(st0, a)
        st0.store[a] = ('null',)
        for st, v in ck.clean(I, live(I.run_fn(f, st=st0, this=WORKER)), rule, inst):
            used = [e for e in st.events('rd', 'wr', 'enter', 'cread') for x in (e.get('loc'), e.get('this'), e.get('cont')) if isinstance(x, tuple) and mentions(x, lambda y: y == ('D', ('null',)))]
            used += [e for e in st.events('null_deref')]
            if used:
                ck.bad(rule, inst, used[0], 'an empty handle is used', st)
            elif st.comp is not None:
                ck.bad(rule, inst, endsite(st, f), 'an empty handle makes the call fail (%s)' % (st.comp,), st)


def each_cfg(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        yield cfg
    ck.cfg = 'default'


def c14(ck):
    for _ in each_cfg(ck):
        weak_only(ck)
        check_calls(ck)
        check_added(ck)
        check_absent(ck)
        check_sink_access(ck)
        q.check_queue(ck)
        q.check_active(ck)
        from rules import shutdown as sd
        sd.check_sink_end(ck)
