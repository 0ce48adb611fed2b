"""The path of one message: caller -> worker queue -> worker -> sink queue -> sink method."""
from rules.common import *
from checklib import trace


# ----------------------------------------------------------------- stage 1: the calling thread
def submit(ck, fatal=False, worker='set', value=None, st=None, everything=False, h=None, I=None, prep=None, **opt):
    p = ck.prog()
    I = I or interp(p, h, **opt)
    if prep:
        st = st or I.new_state()
        prep(I, st)
    f = p.fn('LogCapture::~LogCapture')
    res = []
    for st in capture(p, I, fatal, worker, value, st=st):
        if st.comp is not None:
            res.append((st, None))
            continue
        res += I.run_fn(f, this=THIS, st=st)
    return I, f, (res if everything else live(res))


def check_submit(ck, rule='hand-over'):
    """every non-fatal log call on an initialized logger queues exactly one task at the worker and returns"""
    I, f, res = submit(ck)
    inst = 'non-fatal log call [%s]' % ck.cfg
    res = ck.clean(I, res, rule, inst)
    ck.ob(rule, inst, where_fn(f))
    good = []
    for st, v in res:
        ps = posts(I, st)
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'a path through a non-fatal log call does not return normally (%s)' % (st.comp,), st)
            continue
        if len(ps) == 0:
            ck.bad(rule, inst, endsite(st, f), 'a path through a non-fatal log call on an initialized logger returns without queueing the message', st)
        elif len(ps) > 1:
            ck.bad(rule, inst, ps[1], 'a path through a non-fatal log call queues more than one task', st)
        else:
            good.append((st, ps[0]))
    if not res:
        ck.undecided(rule, inst, 'no complete path')
    return I, f, good


# ----------------------------------------------------------------- stage 2: the worker
def sink_containers(I, results):
    out = []
    for st, _ in results:
        for e in st.events('sinksend'):
            c = sink_pos(e)
            if c and c[0] not in out:
                out.append(c[0])
    return out


def sink_pos(e):
    """(container, index) of the sink a send event goes to"""
    t = e.sink
    if t[0] == 'D':
        v = t[1]
        while v[0] == 'ld' and v[1][0] == 'E':
            return (v[1][1], v[1][2])
    if t[0] == 'E':
        return (t[1], t[2])
    return None


def check_fanout(ck, rule, inst, I, results, msgcheck=None, least=3):
    """results: complete runs of a worker task; each sink gets the message exactly once"""
    conts = sink_containers(I, results)
    sizes = set()
    generic = False
    for st, v in results:
        sends = st.events('sinksend')
        pos = [sink_pos(e) for e in sends]
        if any(x is None for x in pos):
            ck.undecided(rule, inst, 'sink of a send is not an element of a container')
            continue
        # no repeated send
        seen = {}
        for e, x in zip(sends, pos):
            if x in seen and not mentions(x[1], lambda t: t[0] == 'sym'):
                ck.bad(rule, inst, e, 'the same sink receives the message twice', st)
            seen[x] = e
        for cont in conts:
            idx = [x[1] for x in pos if x[0] == cont]
            sz = stdmodel.size_of(size_before(I, st, cont))
            mine = [e for e, x in zip(sends, pos) if x[0] == cont]
            lps = {enclosing_loop(st, e) for e in mine}
            gen = [x for x in idx if x[0] != 'i'] or [e for e in st.events('iter') if e.loop in lps and e.mode == 'generic']
            if not gen:
                want = [('i', n) for n in range(len(idx))]
                if sorted(idx) != want:
                    ck.bad(rule, inst, sends[0] if sends else '', 'sends do not cover consecutive sinks: %s' % [show(x) for x in idx], st)
                    continue
                k = I.known(st, ('op', '==', sz, ('i', len(idx))))
                if k is True:
                    sizes.add(len(idx))
                elif not mine and root(cont)[0] in ('L', 'T'):
                    ck.undecided(rule, inst, 'sinks in a local container')
                elif st.comp is None or st.comp[0] == 'noret':
                    site = sends[-1] if sends else (st.events('enter') or [None])[-1]
                    ck.bad(rule, inst, site.where() if site else '', 'a path ends after %d sink(s) received the message although the number of sinks is not known to be %d' % (len(idx), len(idx)), st)
            else:
                generic = True
                lp = enclosing_loop(st, mine[-1])
                bad = False
                for mode, evs, it in segments(st, lp):
                    n = sum(1 for e in evs if e.k == 'sinksend')
                    closed = evs or mode
                    if n > 1:
                        ck.bad(rule, inst, [e for e in evs if e.k == 'sinksend'][1], 'one loop iteration sends the message more than once', st)
                        bad = True
                ex = [e for e in st.events('loop_exit') if e.loop == lp]
                if not bad and ex and ex[-1].how != 'cond':
                    ck.bad(rule, inst, ex[-1], 'the loop over the sinks can be left early', st)
                elif not bad and ex and remain(I, st, ex[-1], sz):
                    ck.bad(rule, inst, ex[-1], 'the loop over the sinks can end while there are sinks left', st)
    return sizes, generic


def remain(I, st, ex, sz):
    """the test that ended a loop over a container found an element that is left"""
    left = False
    for e in st.events('iter', 'br', 'loop_exit'):
        if e.k == 'iter' and e.loop == ex.loop:
            left = False
        elif e.k == 'br':
            a, pos = I.norm_cond(e.cond)
            t = e.taken == pos
            if a[0] == 'op':
                a = a[1:]
            if len(a) == 3 and sz in a[1:] and a[0] in ('==', '!=', '<', '>', '<=', '>='):
                op, l, r = a
                if l == sz:
                    op, l, r = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), r, l
                left = {'==': not t, '!=': t, '<': t, '>=': not t}.get(op, left)
        elif e is ex:
            return left
    return False


def moved(v):
    return isinstance(v, tuple) and v and (v[0] == 'moved' or v[:2] == ('s', 'moved'))


def size_before(I, st, cont):
    """value of a container before this path changed it"""
    for e in st.events('sinksend'):
        x = sink_pos(e)
        if x and x[0] == cont and not moved(I._read(e.st, cont)):
            return I._read(e.st, cont)
    for e in st.events('clear', 'cassign', 'cswap', 'erase', 'pop', 'push'):
        if e.cont == cont and e.get('val') is not None and e.k == 'clear' and not moved(e.val):
            return e.val
        if e.k in ('cassign', 'cswap') and e.get('old') is not None:
            if e.cont == cont:
                return e.old
            if e.k == 'cswap' and e.other == cont:
                return e.oldother
        if e.cont == cont:
            break
    v = first_value(I, st, cont)
    if moved(v):        # moved into a local before it was used
        was = set()
        for t in path_facts(I, st):
            mentions(t, lambda y: y and y[0] == 'ld' and y[1] == cont and was.add(y) or False)
        if len(was) == 1:
            return was.pop()
    return v


def first_value(I, st, loc):
    """value of a location before this path wrote it"""
    for e in st.events('wr'):
        if e.loc == loc:
            break
    return ('ld', loc, st.gen) if loc not in st.store else st.store[loc]


def iteration_check(ck, rule, inst, I, allres):
    """every completed iteration of a loop that sends to sinks sends exactly once"""
    n = 0
    for st, v in allres:
        evs = st.events('sinksend')
        if not evs:
            continue
        lp = enclosing_loop(st, evs[0])
        if lp is None:
            continue
        segs = segments(st, lp)
        ex = [e for e in st.events('loop_exit', 'loop_again') if e.loop == lp]
        for i, (mode, es, it) in enumerate(segs):
            last = i == len(segs) - 1
            c = sum(1 for e in es if e.k == 'sinksend')
            done = not last or any(e.k == 'loop_again' for e in ex)
            if done:
                n += 1
                if c != 1:
                    ck.bad(rule, inst, it, 'an iteration over the sinks sends the message %d times' % c, st)
    return n


def worker_tasks(ck, I, good, rule, inst):
    out = []
    for st, ev in good:
        rr = run_task(I, ev)
        rr = ck.clean(I, rr, rule, inst)
        out.append((st, ev, rr))
    return out


def check_worker(ck, rule='fan-out'):
    I, f, good = check_submit(ck)
    inst = 'worker task for one message [%s]' % ck.cfg
    ck.ob(rule, inst)
    tasks = worker_tasks(ck, I, good, rule, inst)
    ck.need(len(tasks), 'queued worker tasks')
    for st, ev, rr in tasks:
        full = live(rr)
        n = iteration_check(ck, rule, inst, I, rr)
        sizes, gen = check_fanout(ck, rule, inst, I, full)
        if not any(s.events('sinksend') for s, _ in rr):
            ck.bad(rule, inst, ev, 'the queued task reaches no sink on any path', st)
        for s, _ in full:
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, {'sn': 'worker task', 'file': '', 'line': 0}), 'the worker task does not return normally (%s)' % (s.comp,), s)
    return I, tasks


# ----------------------------------------------------------------- stage 3: attaching sinks
KINDS = {
    'message sink': ('probe::add_message_sink', 'probe::ProbeSink::receive'),
    'text sink': ('probe::add_text_sink', 'probe::TextSink::receive'),
    'callable sink': ('probe::add_functor_sink', None),
    'file sink': ('probe::add_default', 'g3::FileSink::fileWrite'),
}


def sink_hooks(p):
    h = hooks(p)
    for n in ('probe::ProbeSink::receive', 'probe::TextSink::receive', 'g3::FileSink::fileWrite'):
        h[n] = event_hook('deliver', sink='obj', msg=0)
    return h


def is_sink_push(I, e):
    v = e.val
    if v is None or v[0] != 'ptr':
        return False
    t = I.ltype.get(v[1])
    return bool(t) and I.p.subclass_of(I.recof(t) or '', 'g3::internal::SinkWrapper')


def add_sink(ck, kind):
    p = ck.prog()
    I = interp(p, sink_hooks(p))
    st = I.new_state()
    own_worker(p, I, st)
    f = p.fn(KINDS[kind][0])
    return I, f, I.run_fn(f, st=st, args=[Arg(loc=WORKER, t='g3::LogWorker')])


def check_attach(ck, rule='attach', kinds=KINDS):
    """adding a sink makes the worker put exactly that sink into the set of sinks once, and waits for it"""
    out = []
    for kind in kinds:
        inst = '%s [%s]' % (kind, ck.cfg)
        I, f, res = add_sink(ck, kind)
        ck.ob(rule, inst, where_fn(f))
        res = live(ck.clean(I, res, rule, inst))
        n = 0
        for st, v in res:
            if st.comp == ('noret', 'abort') and any(e.fn == 'g3::FileSink::FileSink' for e in st.events('enter')):
                continue    # the file sink refuses its arguments
            if st.comp is not None:
                ck.bad(rule, inst, endsite(st, f), 'adding a sink does not return normally (%s)' % (st.comp,), st)
                continue
            sinks = []
            direct = [e for e in st.events('push') if is_sink_push(I, e)]
            for e in direct:
                ck.bad(rule, inst, e, 'the set of sinks is changed on the calling thread', st)
            ps = posts(I, st)
            for ev in ps:
                if ev.st is None:
                    continue
                rr = live(ck.clean(I, run_task(I, ev), rule, inst))
                for s2, _ in rr:
                    pp = [e for e in s2.events('push') if is_sink_push(I, e)]
                    sinks.append((s2, pp, ev))
            tot = [x for x in sinks if x[1]]
            if not tot and not direct:
                ck.bad(rule, inst, endsite(st, f), 'adding a sink never attaches it', st)
            for s2, pp, ev in sinks:
                if len(pp) > 1:
                    ck.bad(rule, inst, pp[1], 'a sink is attached more than once', s2)
                if len(pp) == 1:
                    n += 1
                    out.append((kind, I, s2, pp[0]))
                elif tot:
                    ck.bad(rule, inst, ev, 'a path of the queued task does not attach the sink', s2)
                if s2.comp is not None:
                    ck.bad(rule, inst, ev, 'the queued task does not end normally', s2)
        if not n:
            ck.undecided(rule, inst, 'no complete path')
    return out


MSG = ('A', 'msg')


def lm_fields(p):
    return [path for path, t in all_fields(p, 'g3::LogMessage') if p.ty(t).get('k') != 'rec' or not p.rec(t) or not [1 for q, _ in all_fields(p, 'g3::LogMessage') if len(q) > len(path) and q[:len(path)] == path]]


def field_terms(p, I, st, loc, rec='g3::LogMessage'):
    return {path: I._read(st, at(loc, path)) for path in leaf_fields(p, rec)}


def leaf_fields(p, rec):
    fs = all_fields(p, rec)
    return [path for path, t in fs if not any(len(q) > len(path) and q[:len(path)] == path for q, _ in fs)]


def history(I, st, obj, res):
    """the numbers of an object that one call, or the task it queues, changes"""
    top, out = root(obj), set()
    ends = [s for s, _ in res]
    for s, _ in res:
        ps = posts(I, s)
        if len(ps) == 1:
            ends.extend(x for x, _ in live(run_task(I, ps[0])))
    for s in ends:
        for k, v in s.store.items():
            if root(k) == top and st.store.get(k, ('',))[0] == 'i' and v != st.store[k]:
                out.add(k)
        for e in s.events():
            if e.k in ('wr', 'awr', 'rmw') and e.get('loc') and root(e.loc) == top and st.store.get(e.loc, ('',))[0] == 'i':
                out.add(e.loc)
    return sorted(out, key=str)


def check_sinks(ck, rule='sink hand-over', attached=None):
    """an entry sent to a sink becomes one task of that sink's own thread, which hands it to the sink's method"""
    p = ck.prog()
    attached = attached or check_attach(ck, 'attach')
    for kind, I, st0, ev in attached:
        inst = '%s [%s]' % (kind, ck.cfg)
        ck.ob(rule, inst)
        obj = ev.val[1]
        rec = I.recof(I.ltype[obj])
        fs = [f for f in p.functions.values() if f.get('rec') == rec and f['sn'].endswith('::send') and f.get('body')]
        if len(fs) != 1:
            ck.undecided(rule, inst, 'send of %s not found' % rec)
            continue
        f = fs[0]
        ck.ob(rule, inst, where_fn(f))
        st = st0.fork()
        st.ev, st.comp = None, None
        pt = f['params'][0]['t']
        mrec = p.rec(p.unref(pt))
        I.ltype[MSG] = mrec
        I.mark_private(st, MSG)
        msg0 = None
        lm = message_in(I, mrec)
        if not lm:
            ck.undecided(rule, inst, 'no LogMessage inside %s' % mrec)
            continue
        want = field_terms(p, I, st, at(MSG, lm[0]))
        res = live(ck.clean(I, I.run_fn(f, this=obj, st=st.fork(), args=[Arg(loc=MSG, t=mrec, x=True)]), rule, inst))
        if not res:
            ck.undecided(rule, inst, 'no complete path')
        hist = history(I, st, obj, res)
        if hist:        # entries sent earlier changed the sink: the values it keeps are arbitrary
            for k in hist:
                st.store[k] = A('earlier entries: %s' % show(k))
            res = live(ck.clean(I, I.run_fn(f, this=obj, st=st, args=[Arg(loc=MSG, t=mrec, x=True)]), rule, inst))
        for s, v in res:
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'sending to a sink does not return normally', s)
                continue
            for e in s.events('deliver', 'usercall', 'calluser'):
                ck.bad(rule, inst, e, 'the sink method is called on the worker thread', s)
            for e in s.events():
                if e.k in BLOCKING:
                    ck.bad(rule, inst, e, 'sending to a sink %s' % BLOCKING[e.k], s)
            ps = posts(I, s)
            if len(ps) != 1:
                ck.bad(rule, inst, ps[1] if ps else endsite(s, f), 'an entry sent to a sink becomes %d tasks' % len(ps), s)
                continue
            rr = live(ck.clean(I, run_task(I, ps[0]), rule, inst))
            for s2, _ in rr:
                ds = s2.events('deliver', 'usercall')
                if s2.comp is not None:
                    ck.bad(rule, inst, ps[0], 'the task does not end normally (%s)' % (s2.comp,), s2)
                    continue
                if len(ds) != 1:
                    ck.bad(rule, inst, ds[1] if ds else ps[0], 'the task of a sink calls the sink method %d times' % len(ds), s2)
                    continue
                yield_delivery(ck, rule, inst, I, p, s2, ds[0], kind, want, obj)
    return attached


def yield_delivery(ck, rule, inst, I, p, s2, d, kind, want, obj):
    if d.k != 'deliver':
        return
    if kind == 'text sink':
        v = d.msg
        if v is None or v[0] not in ('op',):
            v = I._read(d.st, d.msg)
        if v and v[0] == 'op' and v[1] == 'text':
            src = v[3]
            if v[2] != ('s', 'g3::LogMessage::toString'):
                pass
            got = field_terms(p, I, d.st, src)
            compare_fields(ck, rule, inst, d, got, want, s2, skip=('_logDetailsToStringFunc',))
        else:
            ck.undecided(rule, inst, 'text handed to the sink: %s' % show(v))
        return
    m = d.msg
    t = I.ltype.get(m)
    mrec = I.recof(p.unref(t)) if t else None
    if kind == 'message sink' and d.sink != ('D', ('ld', ('A', 's'), 0)):
        ck.bad(rule, inst, d, 'the entry is handed to another object than the sink', s2)
    lm = message_in(I, mrec)
    if not lm:
        ck.undecided(rule, inst, 'message handed to the sink: %s' % show(m))
        return
    compare_fields(ck, rule, inst, d, field_terms(p, I, d.st, at(m, lm[0])), want, s2)


def compare_fields(ck, rule, inst, site, got, want, st, skip=()):
    for path, w in want.items():
        if path[0] in skip:
            continue
        g = got.get(path)
        if g != w:
            if g is None or g[0] == 'sym' or (g[0] == 'ld' and g[2] != 0):
                ck.undecided(rule, inst, 'attribute %s: %s' % ('.'.join(path), show(g) if g else g))
            else:
                ck.bad(rule, inst, site, 'attribute %s of the entry arrives as %s instead of %s' % ('.'.join(path), show(g), show(w)), st)


def message_in(I, rec):
    """paths of the LogMessage held by value in a record"""
    return [path for path, t in [((), rec)] + all_fields(I.p, rec) if I.recof(t) and I.p.subclass_of(I.recof(t), 'g3::LogMessage')] if rec else []
