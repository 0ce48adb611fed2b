"""C07-C10: fatal events."""
from rules.common import *
from rules import pipeline as pl, signals as sg

HOLD = ('clear', 'cassign', 'cswap')
DIE = 'g3::internal::exitWithDefaultSignalHandler'


def handlers(p):
    """globals that hold the replaceable handling of fatal events"""
    out = [k for k, g in p.globals.items() if 'std::function' in g['t'] and 'FatalMessage' in g['t'] and not g.get('const')]
    if not out:
        raise AnalysisError('anchor vanished: the default handling of fatal events')
    return out


def initial(p, key):
    I = Interp(p, {}, frozen=[key])
    st = I.new_state()
    try:
        return I._read(st, ('G', key))
    except Exception:
        return None


def wait_flags(p):
    """atomic flags that start out set: they keep the threads of fatal events waiting"""
    return [k for k, g in p.globals.items() if 'atomic' in g['t'] and 'bool' in g['t'] and not g.get('const') and 'init' in g and initial(p, k) == ('i', 1)]


def hook_globals(p):
    """the replaceable hook for fatal events"""
    out = [k for k, g in p.globals.items() if g['t'].replace(' ', '').startswith(('std::function<void()>', 'std::function<void(void)>')) and not g.get('const')]
    if not out:
        raise AnalysisError('anchor vanished: the hook for fatal events')
    return out


def fatal_call(ck, worker='set', value=None, flags=False, **opt):
    """a fatal log statement with the default handling in place"""
    p = ck.prog()
    return pl.submit(ck, fatal=True, worker=worker, value=value, frozen=handlers(p) + (wait_flags(p) if flags else []), **opt)


def die_hooks(p):
    return hooks(p, **{DIE: noreturn_hook('die', level=0, sig=1)})


def deaths(st):
    """what ends the process on this path: (event, signal)"""
    out = [(e, e.sig) for e in st.events('die', 'raise')]
    return out


# ----------------------------------------------------------------- the signal handler
def handler_function(ck):
    """the function the library installs for fatal signals"""
    p = ck.prog()
    I = interp(p)
    f = p.fn('g3::installCrashHandler')
    out = []
    for st, _ in I.run_fn(f):
        for e in st.events('sigaction'):
            h = e.handler
            if h and h[0] == 'ptr':
                h = h[1]
            if h and h[0] == 'fn' and h[1] not in out:
                out.append(h[1])
    if not out:
        raise AnalysisError('anchor vanished: the handler of fatal signals')
    if len(out) > 1:
        raise AnalysisError('more than one handler of fatal signals: %s' % out)
    return p.functions[out[0]]


def run_handler(ck, worker='set', prep=None, h=None, **opt):
    p = ck.prog()
    I = interp(p, h, frozen=handlers(p) + wait_flags(p), **opt)
    f = handler_function(ck)
    st = I.new_state()
    set_worker(p, I, st, worker)
    if prep:
        prep(I, st)
    args = []
    for n, q in enumerate(f['params']):
        args.append(Arg(val=SIGNAL if n == 0 else A(q['n']), t=q['t']))
    return I, f, I.run_fn(f, st=st, args=args)


# ----------------------------------------------------------------- C09
def check_blocked(ck):
    """control never returns to the statement"""
    p = ck.prog()
    rule = 'never continues'
    for worker in ('set', 'null'):
        I, f, res = fatal_call(ck, worker, flags=True, everything=True, h=die_hooks(p))
        inst = 'fatal log call, worker %s [%s]' % (worker, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        n = 0
        for st, _ in ck.clean(I, res, rule, inst):
            n += 1
            if st.comp is None:
                ck.bad(rule, inst, endsite(st, f), 'a fatal log call returns to the application', st)
            elif st.comp[0] == 'thr':
                ck.bad(rule, inst, endsite(st, f), 'a fatal log call throws into the application', st)
        ck.need(n, 'paths through a fatal log call')
        if not wait_flags(p) and not any(st.comp == ('noret', 'loop') for st, _ in res):
            ck.undecided(rule, inst, 'no waiting recognised')
    for worker in ('set', 'null'):
        if ck.cfg == 'nosignals':
            break
        I, f, res = run_handler(ck, worker, h=die_hooks(p))
        inst = 'fatal signal, worker %s [%s]' % (worker, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        for st, _ in ck.clean(I, res, rule, inst):
            if st.comp is None:
                ck.bad(rule, inst, endsite(st, f), 'the handler of a fatal signal returns to the interrupted code', st)
            elif st.comp[0] == 'thr':
                ck.bad(rule, inst, endsite(st, f), 'the handler of a fatal signal throws', st)


def check_no_hook(ck, rule='no hook'):
    """a fatal event before any hook was set (or with an empty one) is handled like every other"""
    p = ck.prog()
    hs = hook_globals(p)

    def prep(I, st):
        for k in hs:
            st.store[('G', k)] = ('null',)
    for worker in ('set', 'null'):
        I, f, res = fatal_entries(ck, worker, prep=prep)
        inst = 'fatal log call, worker %s, no hook set [%s]' % (worker, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        n = 0
        for st, _ in ck.clean(I, res, rule, inst):
            n += 1
            nc = st.events('null_call')
            if nc:
                ck.bad(rule, inst, nc[0], 'a fatal event calls an empty hook: it throws instead of being handed over', st)
            elif st.comp is None or st.comp[0] == 'thr':
                ck.bad(rule, inst, endsite(st, f), 'a fatal event without a hook is not handed over (%s)' % (st.comp,), st)
            elif worker == 'set' and len(posts(I, st)) != 1 and not deaths(st):
                ck.bad(rule, inst, endsite(st, f), 'a fatal event without a hook does not reach the worker', st)
        ck.need(n, 'paths through a fatal log call')


def check_second(ck, rule='second event'):
    """once the worker has a fatal entry, it alone ends the process, also when it has turned logging off meanwhile"""
    p = ck.prog()
    inst = 'second fatal event [%s]' % ck.cfg
    I, f, res = fatal_entries(ck)
    ck.ob(rule, inst, where_fn(f))
    good = ck.clean(I, res, rule, inst)
    off = None
    for st, ev in reps(I, good)[:4]:
        for s, _ in live(ck.clean(I, run_task(I, ev), rule, inst)):
            for e in s.events('awr', 'wr'):
                if root(e.loc)[0] == 'G' and root(e.loc)[1] in worker_globals(p) and e.get('val') == ('null',) and e.k in ('awr', 'wr'):
                    off = off or e
    if off is None:
        return      # later fatal events are queued behind the first
    seen = []
    for st, _ in good:
        for e in posts(I, st):
            if st.comp is not None and st.comp[0] == 'thr':
                continue
            # what the first event left behind when it handed its entry over
            left = {}
            for x in st.events():
                if x is e:
                    break
                if x.k in ('awr', 'wr') and root(x.loc)[0] == 'G' and root(x.loc)[1] not in worker_globals(p):
                    left[x.loc] = I._read(e.st, x.loc)
            if left in seen:
                continue
            seen.append(left)

            def prep(I2, s2):
                for l, v in left.items():
                    if v[0] in ('i', 'null', 'ptr', 'b', 'f', 's'):
                        s2.store[l] = v
                        keep(s2, l)
            I2, f2, res2 = fatal_entries(ck, 'null', prep=prep)
            n = 0
            for s, _ in ck.clean(I2, res2, rule, inst):
                n += 1
                for d, sig in deaths(s):
                    ck.bad(rule, inst, d, 'a second fatal event ends the process although the worker, which has turned logging off at %s, may not have flushed the first one' % off.where(), s)
            ck.need(n, 'paths of a second fatal event')
    ck.need(len(seen), 'hand-overs of a fatal event')


def check_die(ck):
    rule, inst = 'never continues', 'termination [%s]' % ck.cfg
    r = die_run(ck)
    if not r:
        return
    I, f, res = r
    ck.ob(rule, inst, where_fn(f))
    for st, _ in live(ck.clean(I, res, rule, inst)):
        if st.comp is None or st.comp[0] == 'thr':
            ck.bad(rule, inst, endsite(st, f), 'the function that ends the process can return', st)


def gates_of(ck, I, f, res, rule=None, inst=None):
    """per path of the handler that reports: (path, the atomic decision that let it pass, its new value)"""
    p = ck.prog()
    out, own = [], []
    for st, _ in ck.clean(I, res, rule or 'one report', inst or 'concurrent fatal signals [%s]' % ck.cfg):
        ps = posts(I, st)
        if not ps:
            continue
        evs = list(st.events())
        first = ps[0]
        before = evs[:evs.index(first)]
        gates = [e for e in before if e.k == 'awr' and e.op == 'rmw' and e.loc[0] == 'G' and not p.globals.get(e.loc[1], {}).get('tls') and decides(st, e, I)]
        if not gates:
            if own_second(p, st):
                own.append((st, first))
                continue                    # this thread's signal was let pass before: see check_nested
            loose = [e for e in before if e.k in ('aload', 'rd', 'awr') and e.loc[0] == 'G' and decides(st, e, I)]
            if rule:
                ck.bad(rule, inst, (loose or [first])[0], 'nothing admits only one of several concurrent fatal signals: the test that leads here is not one atomic test-and-set', st)
            out.append((st, None, None))
            continue
        g = gates[0]
        val = st.store.get(g.loc)
        if val is None or val[0] != 'i' and val[:2] != ('sym', 'thread_id'):
            # value relative to the first: old value of the admitted one is known
            if I.known(st, ('op', '==', g.old, ('i', 0))) is True:
                val = ('i', 1) if g.val[0] == 'op' else g.val
            else:
                if rule:
                    ck.undecided(rule, inst, 'gate value %s' % (show(val) if val else val))
                val = None
        out.append((st, g, val))
    if own and not out and rule:
        ck.bad(rule, inst, own[0][1], 'nothing admits only one of several concurrent fatal signals: what is tested belongs to each thread', own[0][0])
    return out


def own_second(p, st):
    """the path knows that its own thread handles the first signal already"""
    me = ('sym', 'thread_id', ('i', 0))
    for a, b in st.facts.items():
        if b is True and a[0] == '==' and me in a[1:] and mentions(a, lambda t: t and t[0] in ('ald', 'ld') and root(t[1])[0] == 'G'):
            return True
        if mentions(a, lambda t: t and t[0] in ('ald', 'ld') and root(t[1])[0] == 'G' and p.globals.get(root(t[1])[1], {}).get('tls')):
            return True
    return False


def set_gate(s2, loc, val):
    s2.store[loc] = val
    keep(s2, loc)
    s2.facts[('nz', ('sinit', loc[1]))] = True


def initial_literal(p, k):
    """what an object with static storage starts with, when that is a literal"""
    def look(x):
        if isinstance(x, dict):
            if x.get('static') and x.get('id') == k:
                return x
            x = list(x.values())
        if isinstance(x, list):
            for y in x:
                r = look(y)
                if r:
                    return r
        return None
    d = p.globals.get(k, {})
    if 'init' not in d and '@' not in k and '::' not in k:
        return None
    if 'init' not in d:
        m = k.split('::')[0]
        d = next((r for r in (look(f.get('body')) for n, f in p.functions.items() if n == m or n.split('@')[0] == m.split('@')[0]) if r), {})
    i = d.get('init')
    while isinstance(i, dict) and i.get('k') in ('cast', 'icast', 'conv') and i.get('e'):
        i = i['e']
    if isinstance(i, dict) and i.get('k') in ('int', 'bool') and str(i.get('v')).lstrip('-').isdigit():
        return ('i', int(i['v']))
    if isinstance(d, dict) and d and 'init' not in d and d.get('t') in ('bool', 'int', 'unsigned int'):
        return ('i', 0)
    return None


def own_globals(p, s2, first, I=None):
    """objects each thread has of its own: as the first signal left them, or, on another thread, untouched"""
    for k, g in p.globals.items():
        if not g.get('tls'):
            continue
        l = ('G', k)
        if first is None:
            v = initial_literal(p, k)
            if v is not None:
                set_gate(s2, l, v)
        elif l in first.store:
            v = first.store[l]
            t = I.known(first, v) if v[0] in ('op', 'ald', 'nz', 'b') else None
            set_gate(s2, l, v if t is None else ('i', int(t)))


def check_gate(ck):
    """the first signal alone is reported; the decision is one atomic operation"""
    p = ck.prog()
    rule, inst = 'one report', 'concurrent fatal signals [%s]' % ck.cfg
    if ck.cfg == 'nosignals':
        return
    I, f, res = run_handler(ck, h=die_hooks(p))
    ck.ob(rule, inst, where_fn(f))
    silent = 0
    for st, _ in ck.clean(I, res, rule, inst):
        if not posts(I, st):
            silent += 1
            if not mentions(tuple(st.facts), lambda t: t and t[0] == 'ald') and not st.facts:
                ck.bad(rule, inst, endsite(st, f), 'a fatal signal is not reported at all', st)
    firsts = gates_of(ck, I, f, res, rule, inst)
    done = set()
    for st, g, val in firsts:
        if val is None or (g.loc, val) in done:
            continue
        done.add((g.loc, val))

        def prep(I2, s2, g=g, val=val):     # a second signal, on another thread, after the first one passed
            set_gate(s2, g.loc, val)
            own_globals(p, s2, None)
            s2.meta['thread'] = s2.meta.get('thread', 0) + 1
        I2, f2, res2 = run_handler(ck, prep=prep, h=die_hooks(p))
        for s2, _ in ck.clean(I2, res2, rule, inst):
            if posts(I2, s2):
                ck.bad(rule, inst, posts(I2, s2)[0], 'a second fatal signal is reported too', s2)
                break
    if not firsts:
        ck.never(rule, inst, where_fn(f), 'no fatal signal is ever reported')
    if not silent:
        ck.never(rule, inst, where_fn(f), 'every fatal signal is reported: later ones disturb the flush')


def check_nested(ck, rule='nested signal'):
    """a thread that is hit by another fatal signal while it prepares the report of the first does not wait for itself"""
    p = ck.prog()
    if ck.cfg == 'nosignals':
        return
    inst = 'a second fatal signal on the same thread [%s]' % ck.cfg
    I, f, res = run_handler(ck, h=die_hooks(p))
    ck.ob(rule, inst, where_fn(f))
    done = set()
    for st, g, val in gates_of(ck, I, f, res):
        if val is None or (g.loc, val) in done:
            continue
        done.add((g.loc, val))
        I2, f2, res2 = run_handler(ck, prep=lambda a, s2, st=st, g=g, val=val: (set_gate(s2, g.loc, val), own_globals(p, s2, st, a)), h=die_hooks(p))
        for s2, _ in ck.clean(I2, res2, rule, inst):
            if s2.comp == ('noret', 'loop') and not posts(I2, s2) and not deaths(s2):
                ck.bad(rule, inst, endsite(s2, f), 'a thread that is hit by a second fatal signal (for example raised by its own pre fatal hook) before the first was handed over waits for itself forever', s2)
    if not done:
        ck.undecided(rule, inst, 'no decision about the first signal recognised')


def check_stays(ck, rule='handler stays installed'):
    """a thread hit by the same signal while the first is being reported meets the handler, not the default action"""
    p = ck.prog()
    if ck.cfg == 'nosignals':
        return
    f = p.fn('g3::installCrashHandler')
    h = handler_function(ck)
    inst = '%s [%s]' % (f['sn'], ck.cfg)
    ck.ob(rule, inst, where_fn(f))
    I = interp(p)
    n = 0
    for st, _ in ck.clean(I, live(I.run_fn(f)), rule, inst):
        for e in st.events('sigaction'):
            if not mentions(e.handler, lambda y: y[0] == 'fn' and p.functions.get(y[1]) is h):
                continue
            n += 1
            if e.flags is None or e.flags[0] != 'i':
                ck.undecided(rule, inst, 'flags %s' % (show(e.flags) if e.flags else e.flags))
            elif e.flags[1] & 0x80000000:
                ck.bad(rule, inst, e, 'the handler is installed with SA_RESETHAND: a second thread with the same signal ends the process while the first report is being flushed', st)
    if not n:
        ck.undecided(rule, inst, 'no installation recognised')


def decides(st, e, I):
    v = e.get('old') or e.get('val')
    if v is None:
        return False
    if v[0] == 'i':
        return True
    return any(mentions(t, lambda y: y == v) for t in list(st.facts) + list(st.iv))


def check_release(ck, runs, rule='released only after the signal'):
    """the flag that keeps the failing threads waiting is cleared only after the signal was raised"""
    p = ck.prog()
    fl = {('G', k) for k in wait_flags(p)}
    for inst, I, results in runs:
        inst = '%s [%s]' % (inst, ck.cfg)
        ck.ob(rule, inst)
        for st, _ in ck.clean(I, results, rule, inst):
            seen = False
            for e in st.events('raise', 'awr', 'die'):
                if e.k != 'awr':
                    seen = True
                elif e.loc in fl and e.val != ('i', 1) and not seen:
                    ck.bad(rule, inst, e, 'the threads of a fatal event are released before the signal is raised', st)


def die_run(ck):
    p = ck.prog()
    fs = [f for f in p.fns(DIE) if f.get('body')]
    if not fs:
        return None
    f = fs[0]
    I = sg.sig_interp(p)
    st = I.new_state()
    args = []
    for q in f['params']:
        if p.isrec(p.unref(q['t'])):
            args.append(level_arg(p, I, st, None))
        else:
            args.append(Arg(val=SIGNAL, t=q['t']))
    return I, f, I.run_fn(f, st=st, args=args)


def c09(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else ['nosignals']):
        ck.cfg = cfg
        check_blocked(ck)
        check_no_hook(ck)
        check_gate(ck)
        check_nested(ck)
        check_stays(ck)
        check_die(ck)
        r = die_run(ck)
        runs = [('termination', r[0], r[2])] if r else []
        I, f, res = fatal_call(ck, 'set', everything=True, h=die_hooks(ck.prog()))
        runs.append(('fatal log call', I, res))
        check_release(ck, runs)
    ck.cfg = 'default'


# ----------------------------------------------------------------- C07
def fatal_entries(ck, worker='set', **opt):
    return fatal_call(ck, worker, flags=True, everything=True, h=die_hooks(ck.prog()), **opt)


def reps(I, res):
    """one path per different hand-over of the same kind"""
    seen = {}
    for st, _ in res:
        ps = posts(I, st)
        if len(ps) != 1:
            continue
        key = (ps[0].site, tuple(sorted(show(v)[:80] for k, v in ps[0].st.store.items() if 'essage' in show(k) and root(k)[0] == 'H')))
        seen.setdefault(key, (st, ps[0]))
    return list(seen.values())


def releases(s, conts):
    """events that destroy the elements of these containers, also after they were swapped into others"""
    hold = set(conts)
    out = []
    for e in s.events('erase', 'pop', *HOLD):
        if e.k == 'cswap':
            a, b = e.cont in hold, e.other in hold
            for c, other in ((e.cont, b), (e.other, a)):
                (hold.add if other else hold.discard)(c)
        elif e.cont in hold:
            out.append(e)
        elif e.k == 'clear' and e.get('val') and e.val[0] == 'ld' and e.val[1] in hold and pl.moved(s.store.get(e.val[1])):
            out.append(e)       # moved into a local first
    return out


def keepers(I, st, conts):
    """local owners of sinks: copies of the container, or of an element"""
    out = []
    for k, v in st.store.items():
        if root(k)[0] in ('L', 'T') and k[0] != '#init' and isinstance(v, tuple) and v and v[0] == 'ld':
            l = v[1]
            if l in conts or l[0] == 'E' and l[1] in conts:
                out.append(k)
    return out


def I_name(I, k):
    t = I.ltype.get(k) or ''
    return 'a local copy (%s)' % strip(t) if t else 'a local copy'


def check_flush(ck, rule='flush'):
    p = ck.prog()
    inst = 'fatal log call [%s]' % ck.cfg
    I, f, res = fatal_entries(ck)
    ck.ob(rule, inst, where_fn(f))
    good = ck.clean(I, res, rule, inst)
    conts = set()
    ends = 0
    for st, _ in good:
        ps = posts(I, st)
        if st.comp is not None and st.comp[0] == 'thr':
            continue                                    # C09
        if not deaths(st) and st.comp not in (None, ('noret', 'loop')):
            ck.bad(rule, inst, endsite(st, f), 'the process ends (%s) before the fatal entry reached the sinks' % (st.comp,), st)
            continue
        if len(ps) != 1:
            ck.bad(rule, inst, ps[1] if ps else endsite(st, f), 'a fatal log call queues %d tasks at the worker' % len(ps), st)
            continue
        ends += 1
        conts.add(ps[0].cont)
        for e, sig in deaths(st):
            ck.bad(rule, inst, e, 'the failing thread ends the process itself: entries that are still queued are lost', st)
    ck.need(ends, 'fatal log calls that reach the worker')
    # same queue as ordinary entries
    I0, f0, good0 = pl.check_submit(ck)
    for st, ev in good0:
        if conts and ev.cont not in conts:
            ck.bad(rule, inst, ev, 'fatal entries do not pass through the queue of ordinary entries: they can overtake them')
    # the worker
    out = []
    inst2 = 'worker task for a fatal entry [%s]' % ck.cfg
    ck.ob(rule, inst2)
    for st, ev in reps(I, good)[:6]:
        rr = ck.clean(I, run_task(I, ev), rule, inst2)
        full = live(rr)
        if not full:
            ck.undecided(rule, inst2, 'no complete path')
            continue
        pl.iteration_check(ck, rule, inst2, I, rr)
        pl.check_fanout(ck, rule, inst2, I, full)
        if not any(s.events('sinksend') for s, _ in rr):
            ck.bad(rule, inst2, ev, 'the fatal entry reaches no sink on any path', st)
        conts = pl.sink_containers(I, rr)
        for s, _ in full:
            if s.comp is None or s.comp[0] == 'thr':
                ck.bad(rule, inst2, endsite(s, f), 'the worker continues after a fatal entry: the process does not end', s)
                continue
            ds = deaths(s)
            evs = list(s.events())
            if not ds:
                if s.comp[0] == 'noret':
                    ends_ = s.events('end')
                    ck.bad(rule, inst2, ends_[-1] if ends_ else endsite(s, f), 'the process does not end by the signal of the fatal event', s)
                continue
            d = ds[0][0]
            sends = s.events('sinksend')
            cl = releases(s, conts)
            if sends and evs.index(sends[-1]) > evs.index(d):
                ck.bad(rule, inst2, sends[-1], 'a sink is sent the fatal entry after the process was told to end', s)
            if not cl and all(pl.moved((d.st or s).store.get(c)) for c in conts) and not keepers(I, d.st or s, conts):
                ck.undecided(rule, inst2, 'the sinks were moved out of their container')
            elif not cl:
                if sends:
                    ck.bad(rule, inst2, d, 'the process is ended without waiting for the sinks to finish', s)
            elif evs.index(cl[-1]) > evs.index(d):
                ck.bad(rule, inst2, d, 'the process is ended before the sinks have finished', s)
            elif sends and any(c.k != 'pop' and evs.index(c) < evs.index(sends[-1]) for c in cl):
                ck.bad(rule, inst2, sends[-1], 'sinks are removed before they were sent the fatal entry', s)
            for k in keepers(I, d.st or s, conts) if cl else ():
                ck.bad(rule, inst2, d, 'the process is ended while %s still keeps the sinks alive: nobody waits for them' % I_name(I, k), s)
            for e in sends:
                check_fatal_text(ck, rule, inst2, I, e, s)
                break
        out.append((I, ev, rr))
    return out


def check_fatal_text(ck, rule, inst, I, e, st):
    """the entry carries what was logged, and the reason"""
    p = ck.prog()
    lm = pl.message_in(I, I.recof(I.ltype.get(e.msg) or ''))
    if not lm:
        ck.undecided(rule, inst, 'entry of a send: %s' % show(e.msg))
        return
    g = pl.field_terms(p, I, e.st, at(e.msg, lm[0]))
    m = g.get(('_message',))
    if m is None or m[0] == 'sym':
        ck.undecided(rule, inst, 'message: %s' % (show(m) if m else m))
        return
    if not mentions(m, lambda y: y == TEXT):
        ck.bad(rule, inst, e, 'the fatal entry does not contain the message that was logged', st)
    if not mentions(m, lambda y: y == SIGNAL or (y and y[0] == 's' and isinstance(y[1], str) and 'SIG' in y[1]) or
                    (y and y[0] == 'op' and len(y) > 2 and y[1] == 'text' and y[2][0] == 's' and ('eason' in y[2][1]))):
        ck.bad(rule, inst, e, 'the fatal entry does not carry the reason', st)
    from rules.delivery import expectations
    for path, ok in expectations(p).items():
        v = g.get(path)
        if path != ('_message',) and v is not None and not ok(v):
            if v[0] == 'sym' or (v[0] == 'ld' and v[2] != 0):
                ck.undecided(rule, inst, 'attribute %s: %s' % ('.'.join(path), show(v)))
            else:
                ck.bad(rule, inst, e, 'attribute %s of the fatal entry reaches a sink as %s' % ('.'.join(path), show(v)), st)


def check_uninitialized(ck, rule='no logger'):
    """without a logger the event is reported on stderr and the process ends"""
    inst = 'fatal log call without a worker [%s]' % ck.cfg
    I, f, res = fatal_entries(ck, 'null')
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, res, rule, inst):
        ds = deaths(st)
        if st.comp is None or st.comp[0] == 'thr':
            continue                                    # C09
        if not ds:
            if st.events('end'):
                ck.bad(rule, inst, st.events('end')[-1], 'the process does not end by the signal of the fatal event', st)
            continue
        n += 1
        evs = list(st.events())
        before = [e for e in evs[:evs.index(ds[0][0])] if (e.k == 'out' and is_err(e.stream)) or (e.k == 'write' and e.fd == ('i', 2))]
        if not before:
            ck.bad(rule, inst, ds[0][0], 'a fatal event without a logger ends the process silently', st)
        elif not any(mentions(e.val, lambda t: t == TEXT or (t and t[0] == 'op' and t[1] == 'text')) for e in before if e.val is not None):
            ck.undecided(rule, inst, 'text on stderr not recognised')
        for e, sig in ds:
            check_signal(ck, rule, inst, e, sig, st)
    if not n:
        ck.never(rule, inst, where_fn(f), 'a fatal event without a logger never ends the process')


def is_err(s):
    t = show(s)
    return 'cerr' in t or 'clog' in t or 'stderr' in t


def check_signal(ck, rule, inst, e, sig, st, want=SIGNAL):
    if sig == want:
        return
    if sig is None or sig[0] in ('sym', 'ld') and sig[1] != want[1]:
        (ck.undecided(rule, inst, 'signal %s' % (show(sig) if sig else sig)) if sig is None or sig[0] == 'sym' else
         ck.bad(rule, inst, e, 'the process ends by %s instead of the signal of the fatal event' % show(sig), st))
    else:
        ck.bad(rule, inst, e, 'the process ends by %s instead of the signal of the fatal event' % show(sig), st)


def check_handler_flush(ck, rule='flush'):
    """a caught signal becomes one fatal entry at the worker"""
    p = ck.prog()
    inst = 'fatal signal [%s]' % ck.cfg
    I, f, res = run_handler(ck, h=die_hooks(p))
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, res, rule, inst):
        ps = posts(I, st)
        if len(ps) > 1:
            ck.bad(rule, inst, ps[1], 'one fatal signal queues %d tasks at the worker' % len(ps), st)
        n += len(ps)
    if not n:
        ck.never(rule, inst, where_fn(f), 'a fatal signal never reaches the worker')
    for st, ev in reps(I, ck.clean(I, res, rule, inst))[:2]:
        for s, _ in live(ck.clean(I, run_task(I, ev), rule, inst)):
            for e, sig in deaths(s):
                check_signal(ck, rule, inst, e, sig, s)
            for e in s.events('sinksend')[:1]:
                g = pl.field_terms(p, I, e.st, at(e.msg, pl.message_in(I, I.recof(I.ltype.get(e.msg) or ''))[0]))
                m = g.get(('_message',))
                if m is not None and m[0] != 'sym' and not mentions(m, lambda y: y == SIGNAL or (y and y[0] == 's' and isinstance(y[1], str) and 'SIG' in y[1])):
                    ck.bad(rule, inst, e, 'the report of a fatal signal does not say which signal it was', s)


def c07(ck):
    from rules import shutdown as sd, queue as q
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_flush(ck)
        check_uninitialized(ck)
        check_no_hook(ck)
        check_second(ck)
        if cfg != 'nosignals':
            check_handler_flush(ck)
            check_stays(ck)
    ck.cfg = 'default'
    from rules import handles as hd
    hd.check_sole_owner(ck)
    sd.check_sink_end(ck)
    bodies = q.check_active(ck)
    q.check_active_end(ck, bodies)
    q.check_queue(ck)


# ----------------------------------------------------------------- C08
def check_termination(ck, rule='original actions first'):
    """the recorded actions are put back, the signal is raised, and if that returns the process ends by a failure"""
    p = ck.prog()
    inst = 'termination [%s]' % ck.cfg
    r = die_run(ck)
    if not r:
        raise AnalysisError('anchor vanished: %s' % DIE)
    I, f, res = r
    fl = {('G', k) for k in wait_flags(p)}
    if not fl:
        raise AnalysisError('anchor vanished: the flag that keeps the threads of a fatal event waiting')
    ck.ob(rule, inst, where_fn(f))
    ck.ob('signal', inst, where_fn(f))
    ck.ob('release and exit', inst, where_fn(f))
    handler = cont = saved = None
    if ck.cfg != 'nosignals':
        _, _, _, handler, cont = sg.installed(ck)
        saved = sg.saved_global(p)
        ck.ob('unblocked', inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, live(res), rule, inst):
        evs = list(st.events())
        rs = st.events('raise')
        ends = st.events('end')
        if not rs:
            if st.comp == ('noret', 'abort'):
                continue
            ck.bad('signal', inst, endsite(st, f), 'the process ends without raising the signal of the fatal event', st)
            continue
        n += 1
        if len(rs) > 1:
            ck.bad('signal', inst, rs[1], 'the signal is raised twice', st)
        check_signal(ck, 'signal', inst, rs[0], rs[0].sig, st)
        if ck.cfg != 'nosignals':
            check_unblocked(ck, inst, st, rs[0])
            sg.check_restored_all(ck, rule, inst, I, st, f, saved, handler, cont, rs[0])
            for e in evs:
                if e.k != 'sigaction':
                    continue
                if func_is(e, handler):
                    ck.bad(rule, inst, e, 'the handler of the library is installed while the process ends', st)
                elif not sg.from_saved(e, saved):
                    ck.bad(rule, inst, e, 'an action other than the recorded one is put in place before the signal is raised', st)
                elif evs.index(e) > evs.index(rs[0]):
                    ck.bad(rule, inst, e, 'an original action is put back after the signal was raised', st)
        after = evs[evs.index(rs[-1]):]
        rel = [e for e in after if e.k == 'awr' and e.loc in fl and e.val == ('i', 0)]
        if st.comp is None or st.comp[0] != 'noret':
            ck.bad('release and exit', inst, endsite(st, f), 'the process goes on if the signal does not end it', st)
            continue
        if not ends:
            continue
        e = ends[-1]
        if not rel or evs.index(rel[0]) > evs.index(e):
            ck.bad('release and exit', inst, e, 'the threads that wait for the end of the process are not released before it exits', st)
        if e.how in ('exit', '_exit', 'quick_exit') and e.code == ('i', 0):
            ck.bad('release and exit', inst, e, 'the process exits with success after a fatal event', st)
        elif e.how in ('exit', '_exit', 'quick_exit') and e.code is not None and e.code != SIGNAL and e.code[0] != 'i':
            ck.undecided('release and exit', inst, 'exit status %s' % show(e.code))
    if not n:
        ck.never('signal', inst, where_fn(f), 'the signal of the fatal event is never raised')


SIG_UNBLOCK, SIG_SETMASK = ('i', 1), ('i', 2)


def check_unblocked(ck, inst, st, e, rule='unblocked'):
    """the signal is not left pending: it can be the one this thread is handling, which is blocked meanwhile"""
    open_ = None
    for x in st.events('sigmask', 'raise'):
        if x is e:
            break
        if x.k != 'sigmask':
            continue
        v = x.setval
        if v is None or v[0] != 'sigset' or ('sym', '?') in v:
            ck.undecided(rule, inst, 'set of signals not recognised')
            return
        has = e.sig in v or ('s', 'all') in v
        if x.how == SIG_UNBLOCK:
            open_ = x if has else open_
        elif x.how == SIG_SETMASK:
            open_ = None if has else x
        elif has:
            open_ = None
    if open_ is None:
        ck.bad(rule, inst, e, 'the signal is raised while it may be blocked (by the handler this runs in, if there is no logger): the process does not die by it', st)


def func_is(e, h):
    return sg.func(e.handler) == h


def check_signal_passed(ck, rule='signal'):
    """the signal of the statement or of the handler is the one the process is ended with"""
    p = ck.prog()
    runs = []
    I, f, res = fatal_entries(ck)
    runs.append(('fatal log call', I, f, res))
    I, f, res = fatal_entries(ck, 'null')
    runs.append(('fatal log call without a worker', I, f, res))
    if ck.cfg != 'nosignals':
        for w in ('set', 'null'):
            I, f, res = run_handler(ck, w, h=die_hooks(p))
            runs.append(('fatal signal, worker %s' % w, I, f, res))
    for name, I, f, res in runs:
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        n = 0
        good = ck.clean(I, res, rule, inst)
        for st, _ in good:
            for e, sig in deaths(st):
                n += 1
                check_signal(ck, rule, inst, e, sig, st)
        for st, ev in reps(I, good)[:4]:
            for s, _ in live(ck.clean(I, run_task(I, ev), rule, inst)):
                for e, sig in deaths(s):
                    n += 1
                    check_signal(ck, rule, inst, e, sig, s)
        if not n:
            ck.never(rule, inst, where_fn(f), 'no path ends the process by the signal')


ABORTS = ('probe::log_fatal', 'probe::check_stream', 'probe::check_printf', 'probe::check_printf2', 'probe::log_fatal_printf')


def check_abort(ck, rule='abort'):
    """fatal log calls and failed contracts end the process by SIGABRT"""
    p = ck.prog()
    n = 0
    for name in ABORTS:
        fs = [f for f in p.fns(name) if f.get('body')]
        if not fs:
            continue
        h = macro_hooks(p)
        h.update({DIE: noreturn_hook('die', level=0, sig=1)})
        I = Interp(p, h, max_s=60, snap=['push'], frozen=handlers(p) + wait_flags(p))
        st = I.new_state()
        set_worker(p, I, st, 'set')
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(fs[0]))
        for st, _ in ck.clean(I, I.run_fn(fs[0], st=st), rule, inst):
            ps = posts(I, st)
            for e, sig in deaths(st):
                check_signal(ck, rule, inst, e, sig, st, want=('i', 6))
            if not ps:
                continue
            n += 1
            key = reps(I, [(st, None)])
            for s0, ev in key[:1]:
                for s, _ in live(ck.clean(I, run_task(I, ev), rule, inst))[:4]:
                    for e, sig in deaths(s):
                        check_signal(ck, rule, inst, e, sig, s, want=('i', 6))
            break
    ck.need(n, 'fatal statements of the application', 3)


def c08(ck):
    for cfg in ['default', 'nosignals'] + (['dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_termination(ck)
        check_signal_passed(ck)
        check_abort(ck)
        if cfg != 'nosignals':
            sg.check_install(ck)
            sg.check_restore(ck)
    ck.cfg = 'default'
