"""C11, C12: before initialization, initialization, shutdown."""
from rules.common import *
from rules import pipeline as pl, fatal as ft

INIT, SHUT, SHUTA, DTOR = 'g3::initializeLogging', 'g3::internal::shutDownLogging', 'g3::internal::shutDownLoggingForActiveOnly', 'g3::LogWorker::~LogWorker'
OTHER = ('A', 'other_worker')
NULL = ('null',)
INSTALL = 'g3::installCrashHandler'


def init_hooks(p):
    return hooks(p, **{INSTALL: event_hook('install')})


def init_interp(p, **opt):
    opt.setdefault('snap', ['push', 'wait', 'join'])
    return Interp(p, init_hooks(p), max_s=60, **opt)


def globals_of(p):
    return [('G', g) for g in worker_globals(p)]


def active(I, st, p):
    return [I._read(st, g) for g in globals_of(p)]


def again(st):
    """the same situation, with a new trace"""
    s = st.fork()
    s.ev, s.comp, s.depth, s.inl = None, None, 0, ()
    return s


def call(I, st, f, args=None, this=None):
    return I.run_fn(f, st=again(st), args=args, this=this)


def ptr_arg(f, loc, n=0):
    return [Arg(val=loc if loc == NULL else ('ptr', loc), t=f['params'][n]['t'])]


def workers(p, I, st):
    for w in (WORKER, OTHER):
        own_worker(p, I, st, w)
    for g in globals_of(p):
        keep(st, g)
    I.assume(st, ('op', '==', ('ptr', WORKER), ('ptr', OTHER)), False)


def start(p, I, current):
    st = I.new_state()
    workers(p, I, st)
    for g in globals_of(p):
        st.store[g] = NULL if current is None else ('ptr', current)
    return st


# ----------------------------------------------------------------- C11
def check_null_worker(ck, rule='no worker'):
    """a log call without a worker queues nothing, waits for nothing and returns"""
    p = ck.prog()
    inst = 'non-fatal log call without a worker [%s]' % ck.cfg
    I, f, res = pl.submit(ck, worker='null', h=init_hooks(p))
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, res, rule, inst):
        n += 1
        for e in posts(I, st):
            ck.bad(rule, inst, e, 'a log call without a worker uses one', st)
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'a log call without a worker does not return normally (%s)' % (st.comp,), st)
        for e in st.events('wait', 'join', 'cv_wait', 'sleep'):
            ck.bad(rule, inst, e, 'a log call without a worker %s' % BLOCKING[e.k], st)
        for e in st.events('null_deref', 'null_call'):
            ck.bad(rule, inst, e, 'a log call without a worker uses a null pointer', st)
    ck.need(n, 'log calls without a worker')
    return I, f, res


def check_tested_pointer(ck, rule='tested worker'):
    """the worker that is used is the one that was found to be there"""
    p = ck.prog()
    for fatal in (False, True):
        inst = '%s log call [%s]' % ('fatal' if fatal else 'non-fatal', ck.cfg)
        if fatal:
            I, f, res = ft.fatal_call(ck, None, flags=True, everything=True, h=ft.die_hooks(p))
        else:
            I, f, res = pl.submit(ck, worker=None, h=init_hooks(p))
        ck.ob(rule, inst, where_fn(f))
        n = 0
        gs = globals_of(p)
        for st, _ in ck.clean(I, res, rule, inst):
            for e in posts(I, st):
                n += 1
                ws = worker_terms(e.cont, gs)
                for w in ws:
                    if I.known(st, w) is not True:
                        ck.bad(rule, inst, e, 'the worker used was not found to be there: the pointer is read again after the test', st)
                if not ws:
                    ck.undecided(rule, inst, 'worker of %s' % show(e.cont))
        ck.need(n, 'hand-overs of a %s log call' % ('fatal' if fatal else 'non-fatal'))


def worker_terms(t, gs):
    out = []
    mentions(t, lambda y: (out.append(y) if len(y) > 1 and y[0] in ('ald', 'ld') and y[1] in gs and y not in out else None, False)[1])
    return out


def kept(I, st, before=None):
    """messages this path stored in globals: {location: value}"""
    out = {}
    for k, v in st.store.items():
        if k[0] == 'G' and 'LogMessage' in I.p.globals.get(k[1], {'t': ''})['t'] and v != NULL and v[0] == 'ptr' and (before is None or before.store.get(k) != v):
            out[k] = v
    return out


def check_first(ck, rule='first message'):
    """the first message is kept, announced and delivered once, first, when logging is initialized"""
    p = ck.prog()
    I = init_interp(p, frozen=plain_globals(p))
    s0 = I.new_state()
    process_start(p, I, s0)
    I, f, res = pl.submit(ck, worker='null', I=I, st=s0)
    inst = 'first log call without a worker [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    good = ck.clean(I, res, rule, inst)
    firsts = []
    later = 0
    for st, _ in good:
        ks = kept(I, st)
        outs = [e for e in st.events('out', 'write', 'stdio') if e.k != 'out' or ft.is_err(e.stream)]
        if not ks:
            later += 1
            continue
        site = [e for e in st.events('wr') if e.loc in ks] + [e for e in st.events('new') if ('ptr', e.loc) in ks.values()]
        site = site[-1] if site else endsite(st, f)
        if not any(mentions(e.val, lambda y: y == TEXT) for e in outs):
            ck.bad(rule, inst, site, 'the first message is not announced on stderr', st)
        firsts.append((st, list(ks.items())[0], site))
    if not firsts:
        ck.never(rule, inst, where_fn(f), 'a message logged before initialization is never kept')
        return
    fi = p.fn(INIT)
    fs = p.fn(SHUT)
    gs = globals_of(p)
    done = 0
    inst2 = 'initialization after a first message [%s]' % ck.cfg
    inst3 = 'later log calls without a worker [%s]' % ck.cfg
    ck.ob(rule, inst2, where_fn(fi))
    ck.ob(rule, inst3, where_fn(f))
    for st, (k, v), site in firsts[:3]:
        if v[0] != 'ptr':
            ck.undecided(rule, inst, 'kept message %s' % show(v))
            continue
        text = I._read(st, F(v[1], '_message'))
        if not mentions(text, lambda y: y == TEXT):
            if text[0] == 'sym':
                ck.undecided(rule, inst, 'kept text %s' % show(text))
            else:
                ck.bad(rule, inst, site, 'the message that is kept has lost its text', st)
        # a second one
        r2 = pl.submit(ck, worker='null', h=None, I=I, st=again(st))[2]
        for s, _ in ck.clean(I, r2, rule, inst3):
            if s.comp is not None:
                continue
            for e in kept(I, s, st):
                ck.bad(rule, inst3, site, 'a later message replaces the first one', s)
            for e in posts(I, s):
                ck.bad(rule, inst3, e, 'a later message is handed to a worker', s)
        # shutting down what is not there keeps it
        for s, _ in ck.clean(I, live(call(I, st, fs)), rule, inst2):
            if s.comp is None and k not in kept(I, s):
                w = [e for e in s.events('wr', 'delete', 'release') if (e.get('loc') or e.get('ptr')) == k]
                ck.bad(rule, inst2, w[-1] if w else endsite(s, fs), 'the first message is dropped when logging is shut down before it was initialized', s)
        # initialization
        workers(p, I, st)
        for s, _ in ck.clean(I, live(call(I, st, fi, ptr_arg(fi, WORKER))), rule, inst2):
            if s.comp is not None:
                ck.bad(rule, inst2, endsite(s, fi), 'initialization after a first message fails (%s)' % (s.comp,), s)
                continue
            done += 1
            ps = posts(I, s)
            evs = list(s.events())
            if len(ps) != 1:
                ck.bad(rule, inst2, ps[1] if ps else endsite(s, fi), 'the first message is handed to the worker %d times' % len(ps), s)
                continue
            on = [e for e in s.events('awr', 'wr') if e.loc in gs and e.val != NULL]
            if on and evs.index(on[0]) < evs.index(ps[0]):
                ck.bad(rule, inst2, ps[0], 'the first message is handed over after logging was turned on: other messages can overtake it', s)
            if not is_prefix(WORKER, ps[0].cont) and not mentions(ps[0].cont, lambda y: y == WORKER):
                ck.bad(rule, inst2, ps[0], 'the first message is handed to another worker', s)
            for t, _ in ck.clean(I, run_task(I, ps[0]), rule, inst2):
                for e in t.events('sinksend')[:1]:
                    lm = pl.message_in(I, I.recof(I.ltype.get(e.msg) or ''))
                    if not lm:
                        continue
                    m = I._read(e.st, at(at(e.msg, lm[0]), ('_message',)))
                    if not mentions(m, lambda y: y == TEXT) and m[0] != 'sym':
                        ck.bad(rule, inst2, e, 'the first message reaches the sinks without its text', t)
            # once more: shut down, log, initialize again
            for s2, _ in ck.clean(I, live(call(I, s, fs)), rule, inst2)[:2]:
                for s3, _ in ck.clean(I, live(call(I, s2, fi, ptr_arg(fi, OTHER))), rule, inst2)[:2]:
                    if s3.comp is not None:
                        ck.bad('initialize again', inst2, endsite(s3, fi), 'logging cannot be initialized again after it was shut down (%s)' % (s3.comp,), s3)
                        continue
                    for e in posts(I, s3):
                        ck.bad(rule, inst2, e, 'the first message is delivered again when logging is initialized again', s3)
    if not done:
        ck.undecided(rule, inst2, 'no complete path')
    # without a first message nothing is delivered
    inst4 = 'initialization [%s]' % ck.cfg
    ck.ob(rule, inst4, where_fn(fi))
    I2 = init_interp(p)
    for s, _ in ck.clean(I2, live(I2.run_fn(fi, st=start(p, I2, None), args=ptr_arg(fi, WORKER))), rule, inst4):
        ps = posts(I2, s)
        if len(ps) > 1:
            ck.bad(rule, inst4, ps[1], 'initialization hands %d messages to the worker' % len(ps), s)


def check_after_shutdown(ck, rule='after shutdown'):
    """once logging is shut down no log call reaches the worker"""
    p = ck.prog()
    for name in (SHUT, DTOR):
        f = p.fn(name)
        inst = 'log call after %s [%s]' % (name, ck.cfg)
        I = init_interp(p)
        ck.ob(rule, inst, where_fn(f))
        st = start(p, I, WORKER)
        n = 0
        for s, _ in ck.clean(I, live(I.run_fn(f, st=st, this=WORKER if name == DTOR else None)), rule, inst)[:6]:
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'does not return normally (%s)' % (s.comp,), s)
                continue
            if any(v != NULL for v in active(I, s, p)):
                ck.bad(rule, inst, endsite(s, f), 'logging is still on after shutting it down', s)
                continue
            s0 = again(s)
            n += 1
            for t, _ in ck.clean(I, pl.submit(ck, worker=None, I=I, st=s0)[2], rule, inst):
                for e in posts(I, t):
                    ck.bad(rule, inst, e, 'a log call after shutdown reaches the worker', t)
                if t.comp is not None:
                    ck.bad(rule, inst, endsite(t, f), 'a log call after shutdown does not return normally', t)
        if not n:
            ck.undecided(rule, inst, 'no complete path')


def c11(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_null_worker(ck)
        check_tested_pointer(ck)
        check_first(ck)
        check_after_shutdown(ck)
    ck.cfg = 'default'


# ----------------------------------------------------------------- C12
def check_initialize(ck):
    p = ck.prog()
    f = p.fn(INIT)
    gs = globals_of(p)
    for cur, arg, legal, name in ((None, WORKER, True, 'first'), (WORKER, OTHER, False, 'second'), (WORKER, WORKER, False, 'second, with the same worker'),
                                  (None, NULL, False, 'without a worker'), (WORKER, NULL, False, 'second, without a worker')):
        inst = '%s initialization [%s]' % (name, ck.cfg)
        rule = 'initialize' if legal else 'illegal initialization'
        I = init_interp(p)
        st = start(p, I, cur)
        ck.ob(rule, inst, where_fn(f))
        res = ck.clean(I, I.run_fn(f, st=st, args=ptr_arg(f, arg)), rule, inst)
        n = 0
        for s, _ in live(res):
            n += 1
            ws = [e for e in s.events('awr', 'wr') if e.loc in gs]
            if legal:
                if s.comp is not None:
                    ck.bad(rule, inst, endsite(s, f), 'a legal initialization does not return (%s)' % (s.comp,), s)
                elif any(v != ('ptr', arg) for v in active(I, s, p)):
                    ck.bad(rule, inst, endsite(s, f), 'initialization returns without making the worker active', s)
                continue
            for e in ws:
                if e.val != ('ptr', cur):
                    ck.bad(rule, inst, e, 'an illegal initialization replaces the active worker', s)
            ends = s.events('end')
            if s.comp is None or s.comp[0] == 'thr':
                ck.bad(rule, inst, endsite(s, f), 'an illegal initialization is not refused', s)
                continue
            for e in s.events('wait', 'join', 'cv_wait'):
                ck.bad(rule, inst, e, 'an illegal initialization %s' % BLOCKING[e.k], s)
            e = ends[-1] if ends else None
            evs = list(s.events())
            if e is None:
                continue
            if e.how in ('exit', '_exit', 'quick_exit') and e.code == ('i', 0):
                ck.bad(rule, inst, e, 'an illegal initialization ends the process with success', s)
            elif e.how in ('exit', '_exit', 'quick_exit') and (e.code is None or e.code[0] != 'i'):
                ck.undecided(rule, inst, 'exit status')
            if e.how == 'exit' and e.locks:
                ck.bad(rule, inst, e, 'the process exits while %s is held: a static worker that is destroyed at exit waits for it forever' % ', '.join(show(m) for m in e.locks), s)
            if not [x for x in evs[:evs.index(e)] if x.k == 'out' and ft.is_err(x.stream) or x.k in ('write', 'perror', 'stdio')]:
                ck.bad(rule, inst, e, 'an illegal initialization ends the process without an explanation on stderr', s)
        if not n:
            r = [s for s, _ in res if s.comp == ('noret', 'loop')]
            if r and not legal:
                ck.bad(rule, inst, endsite(r[0], f), 'an illegal initialization never ends', r[0])
            else:
                ck.undecided(rule, inst, 'no complete path')


def check_decision(ck, rule='one critical section'):
    """whether a worker is active is tested and the worker changed under one lock"""
    p = ck.prog()
    f = p.fn(INIT)
    gs = globals_of(p)
    inst = 'g3::initializeLogging [%s]' % ck.cfg
    I = init_interp(p)
    st = I.new_state()
    own_worker(p, I, st)
    ck.ob(rule, inst, where_fn(f))
    n = 0
    common = None
    for s, _ in ck.clean(I, live(I.run_fn(f, st=st, args=ptr_arg(f, WORKER))), rule, inst):
        ws = [e for e in s.events('awr', 'wr') if e.loc in gs]
        if s.comp is not None or not ws:
            continue
        n += 1
        w = ws[-1]
        if w.k == 'awr' and w.op in ('rmw', 'cas'):
            common = set()
            continue
        common = set(w.locks) if common is None else common & set(w.locks)
        tests = [e for e in s.events('aload', 'rd') if e.loc in gs and section(s, e, w.locks) == section(s, w)]
        if not w.locks:
            ck.bad(rule, inst, w, 'the worker is made active outside of a critical section: two initializations can both succeed', s)
        elif not tests:
            ck.bad(rule, inst, w, 'whether a worker is active is not tested in the critical section that makes the new one active', s)
    ck.need(n, 'initializations')
    f2 = p.fn(SHUTA)
    inst = '%s [%s]' % (SHUTA, ck.cfg)
    ck.ob(rule, inst, where_fn(f2))
    I = init_interp(p)
    st = I.new_state()
    own_worker(p, I, st)
    for s, _ in ck.clean(I, live(I.run_fn(f2, st=st, args=ptr_arg(f2, WORKER))), rule, inst):
        for w in [e for e in s.events('awr', 'wr') if e.loc in gs]:
            if w.k == 'awr' and w.op in ('rmw', 'cas'):
                continue
            tests = [e for e in s.events('aload', 'rd') if e.loc in gs and section(s, e, w.locks) == section(s, w)]
            if not w.locks or not tests:
                ck.bad(rule, inst, w, 'the active worker is turned off outside of the critical section that found it to be this one', s)


def check_shutdown(ck, rule='shutdown of a worker'):
    p = ck.prog()
    f = p.fn(SHUTA)
    fd = p.fn(DTOR)
    gs = globals_of(p)
    for cur, arg, name in ((WORKER, OTHER, 'foreign'), (WORKER, WORKER, 'active'), (None, WORKER, 'inactive')):
        for fn in (f, fd):
            inst = '%s worker: %s [%s]' % (name, fn['sn'], ck.cfg)
            I = init_interp(p)
            st = start(p, I, cur)
            ck.ob(rule, inst, where_fn(fn))
            res = I.run_fn(fn, st=st, this=arg) if fn is fd else I.run_fn(fn, st=st, args=ptr_arg(fn, arg))
            n = 0
            for s, v in ck.clean(I, live(res), rule, inst):
                n += 1
                if s.comp is not None:
                    ck.bad(rule, inst, endsite(s, fn), 'does not return normally (%s)' % (s.comp,), s)
                    continue
                now = active(I, s, p)
                evs = list(s.events())
                told = None if v is None or fn is fd else (v[1] != 0 if v[0] == 'i' else None)
                if name == 'active' and told is False:
                    ck.bad(rule, inst, endsite(s, fn), 'reports that nothing was shut down although the worker was the active one', s)
                if name == 'foreign':
                    for e in s.events('awr', 'wr'):
                        if e.loc in gs and e.val != ('ptr', cur):
                            ck.bad(rule, inst, e, 'destroying a worker that is not active turns the active one off', s)
                    for e in posts(I, s):
                        if not (is_prefix(arg, e.cont) or mentions(e.cont, lambda y: y == arg)) and e.locks and any(m[0] == 'G' for m in e.locks):
                            ck.bad(rule, inst, e, 'logs while %s is held' % ', '.join(show(m) for m in e.locks), s)
                    if fn is fd:
                        for e in s.events('clear', 'erase', 'cassign', 'delete', 'join'):
                            c = e.get('cont') or e.get('thread') or e.get('val')
                            if c is not None and mentions(c, lambda y: y == cur):
                                ck.bad(rule, inst, e, 'destroying a worker that is not active touches the active one', s)
                    if told is True:
                        ck.bad(rule, inst, endsite(s, fn), 'reports that logging was shut down although the worker is not active', s)
                    continue
                if any(x != NULL for x in now):
                    ck.bad(rule, inst, endsite(s, fn), 'logging is still on after the active worker was shut down', s)
                if fn is fd and name == 'active':
                    off = [e for e in s.events('awr', 'wr') if e.loc in gs]
                    ws = [e for e in evs if e.k in ('wait', 'join') or e.k in ('clear', 'erase') and mentions(e.cont, lambda y: y == arg)]
                    if off and ws and evs.index(off[0]) > evs.index(ws[0]):
                        ck.bad(rule, inst, ws[0], 'the worker is taken apart before logging is turned off', s)
                # and again
                fi = p.fn(INIT)
                for s2, _ in ck.clean(I, live(call(I, s, fi, ptr_arg(fi, OTHER))), rule, inst)[:3]:
                    if s2.comp is not None:
                        ck.bad('initialize again', inst, endsite(s2, fi), 'logging cannot be initialized again (%s)' % (s2.comp,), s2)
                    elif any(x != ('ptr', OTHER) for x in active(I, s2, p)):
                        ck.bad('initialize again', inst, endsite(s2, fi), 'initializing again does not make the worker active', s2)
            if not n:
                ck.undecided(rule, inst, 'no complete path')


def c12(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_initialize(ck)
        check_decision(ck)
        check_shutdown(ck)
    ck.cfg = 'default'
