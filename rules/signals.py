"""C23 (and part of C08): signal dispositions."""
from rules.common import *

OUT = 'g3::internal::writeErrorMessage'
SIGNALS = {'SIGABRT': 6, 'SIGFPE': 8, 'SIGILL': 4, 'SIGSEGV': 11, 'SIGTERM': 15}


def sig_hooks(p, **more):
    return hooks(p, **{OUT: simple(('sym', 'written', 0)), 'g3::signalToStr': text_hook, **more})


def sig_interp(p, **opt):
    return Interp(p, sig_hooks(p), max_s=60, snap=['sigaction'], **opt)


def run_named(ck, name, args=None, prep=None, **opt):
    p = ck.prog()
    f = p.fn(name)
    I = sig_interp(p, **opt)
    st = I.new_state()
    if prep:
        prep(I, st)
    return I, f, I.run_fn(f, st=st, args=args)


def func(h):
    if h and h[0] == 'ptr':
        h = h[1]
    return h


def saved_global(p):
    out = [k for k, g in p.globals.items() if 'sigaction' in g['t'] and not g.get('const')]
    if len(out) != 1:
        raise AnalysisError('anchor vanished: the saved signal actions (%s)' % out)
    return ('G', out[0])


def sets_of(st, acts):
    """containers the handled signals come from"""
    out = []
    for e in acts:
        c = elem(e.sig)
        if c and c[0] not in out:
            out.append(c[0])
    return out


def elem(t):
    """(container, position) of the element a signal number belongs to"""
    if t is None or t[0] != 'ld':
        return None
    l = t[1]
    while l[0] == 'F':
        l = l[1]
    if l[0] == 'E':
        return (l[1], l[2])
    return None


def has(I, st, saved, key):
    """is the action of a signal saved: True, False or unknown"""
    r = None
    for t, b in path_facts(I, st).items():
        if t[0] == 'has' and t[-1] == key and mentions(t[1], lambda y: y == saved):
            if b is False:
                return False
            r = b
    return r


def installed(ck):
    """the handler of the library and the set of signals it is installed for"""
    p = ck.prog()
    I, f, res = run_named(ck, 'g3::installCrashHandler')
    hs, cs = [], []
    for st, _ in res:
        for e in st.events('sigaction'):
            h = func(e.handler)
            if h and h[0] == 'fn' and h not in hs:
                hs.append(h)
            c = elem(e.sig)
            if c and root(c[0])[0] == 'G' and c[0] not in cs:
                cs.append(c[0])
    if len(hs) != 1 or len(cs) != 1:
        raise AnalysisError('anchor vanished: the handler of fatal signals (%s) and its set of signals (%s)' % (len(hs), len(cs)))
    return I, f, res, hs[0], cs[0]


def covers(ck, rule, inst, I, st, f, handled, cont, at_event, what, loops):
    """every element of a container was handled before an event: by enumeration, or in every iteration of a loop"""
    sz = stdmodel.size_of(cont_value(I, st, cont))
    pos = [x[1] for x in handled]
    generic = [e for e in st.events('iter') if e.loop in loops and e.mode == 'generic']
    if not generic:
        k = len(set(pos))
        if sorted(set(pos), key=str) != sorted([('i', n) for n in range(k)], key=str):
            ck.bad(rule, inst, at_event, '%s: not consecutive elements of the set (%s)' % (what, ', '.join(show(x) for x in pos)), st)
            return False
        r = I.known(st, ('op', '==', sz, ('i', k)))
        if r is None and k == 0:
            e = I.known(st, stdmodel.is_empty(cont_value(I, st, cont)))
            r = e
        if r is not True:
            ck.bad(rule, inst, at_event, '%s: happens for %d signal(s) although the set is not known to have %d' % (what, k, k), st)
            return False
        return True
    for lp in {e.loop for e in generic}:
        ex = [e for e in st.events('loop_exit') if e.loop == lp]
        if ex and ex[-1].how != 'cond':
            ck.bad(rule, inst, ex[-1], '%s: the loop over the signals can be left early' % what, st)
            return False
    return True


def cont_value(I, st, cont):
    """value a container had at the start"""
    for e in st.events('wr', 'cassign'):
        if (e.get('loc') or e.get('cont')) == cont:
            return ('ld', cont, 0)
    return I._read(st, cont)


def check_install(ck, rule='install'):
    p = ck.prog()
    inst = 'g3::installCrashHandler [%s]' % ck.cfg
    I, f, res, handler, cont = installed(ck)
    saved = saved_global(p)
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, live(res), rule, inst):
        n += install_path(ck, rule, inst, I, st, f, handler, cont, saved)
    ck.need(n, 'paths that install handlers', 2)
    return I, f, res, handler, cont


def install_path(ck, rule, inst, I, st, f, handler, cont, saved, after=None):
    acts = [e for e in st.events('sigaction') if func(e.handler) == handler]
    evs = list(st.events())
    if after is not None:
        acts = [e for e in acts if evs.index(e) > evs.index(after)]
    if st.comp is not None:
        ck.bad(rule, inst, endsite(st, f), 'installing signal handlers does not return normally (%s)' % (st.comp,), st)
        return 0
    for e in acts:
        if e.sig is None or elem(e.sig) is None or elem(e.sig)[0] != cont:
            if elem(e.sig) is None and e.sig and e.sig[0] == 'sym':
                ck.undecided(rule, inst, 'signal %s' % show(e.sig))
            else:
                ck.bad(rule, inst, e, 'a handler is installed for %s, which is not in the set of fatal signals' % show(e.sig), st)
            return 0
        for part, v in (('sa_mask', e.mask), ('sa_flags', e.flags)):
            if v is not None and v[0] == 'uninit':
                ck.bad(rule, inst, e, 'the handler is installed with a %s that was never given a value' % part, st)
        if e.flags is not None and e.flags[0] == 'i' and not e.flags[1] & 4:
            ck.bad(rule, inst, e, 'the handler takes three arguments but is installed without SA_SIGINFO', st)
        if e.flags is not None and e.flags[0] == 'i' and e.flags[1] & (0x80000000 | 0x40000000):
            ck.bad(rule, inst, e, 'the handler is installed with SA_RESETHAND or SA_NODEFER', st)
    keys = [elem(e.sig)[1] for e in acts]
    for i, k in enumerate(keys):
        if k in keys[:i] and k[0] == 'i':
            ck.bad(rule, inst, acts[i], 'the handler of one signal is installed twice', st)
    loops = {enclosing_loop(st, e) for e in acts} - {None}
    ok = covers(ck, rule, inst, I, st, f, [elem(e.sig) for e in acts], cont, acts[-1] if acts else endsite(st, f), 'installing the handler', loops)
    for lp in loops:
        for mode, es, it in iterations(st, lp, 'sigaction', 'it_deref'):
            if not any(e in acts for e in es):
                ck.bad(rule, inst, it, 'an iteration over the fatal signals installs no handler', st)
                ok = False
    # what was there before is kept, once
    rule2 = 'save once'
    ck.ob(rule2, inst, where_fn(f))
    for i, e in enumerate(acts):
        nxt = [x for x in acts[i + 1:]] or [None]
        a, b = evs.index(e), evs.index(nxt[0]) if nxt[0] is not None else len(evs)
        ws = [x for x in evs[a:b] if x.k == 'wr' and is_prefix(saved, x.loc) and x.loc != saved or
              x.k == 'map_set' and x.cont == saved and x.val is not None]
        failed = I.known(st, ('op', '<', e.res, ('i', 0)))
        if failed is None:
            failed = path_facts(I, st).get(I.norm_cond(('op', '<', e.res, ('i', 0)))[0])
        if failed is None:
            z = I.known(st, ('op', '==', e.res, ('i', 0)))
            failed = None if z is None else not z
        facts = path_facts(I, st)
        old = [t for t in facts if t[0] == '==' and mentions(t, lambda y: y == handler) and
               mentions(t, lambda y: len(y) > 2 and y[0] == 'op' and y[1] == 'oldaction' and y[3] == ('i', e.res[2]))]
        ours = None
        for t in old:
            ours = facts[t] if ours is None else ours
        known = has(I, st, saved, e.sig)
        good = [x for x in ws if x.val == ('op', 'oldaction', e.sig, ('i', e.res[2]))]
        keyed = [x for x in ws if (x.key == e.sig if x.k == 'map_set' else mentions(x.loc, lambda y: y == e.sig))]
        if ws and failed is True:
            ck.bad(rule2, inst, ws[0], 'an action is recorded as replaced although the handler was not installed', st)
        elif ws:
            if not good and any(x.val and x.val[0] == 'sym' for x in ws):
                ck.undecided(rule2, inst, 'recorded action %s' % show(ws[0].val))
            elif not good:
                ck.bad(rule2, inst, ws[0], 'what is recorded is not the action that was replaced', st)
            elif not keyed:
                ck.bad(rule2, inst, ws[0], 'the replaced action is recorded for another signal', st)
            elif ours is not False and known is not False:
                ck.bad(rule2, inst, ws[0], 'installing again overwrites the original action of a signal with the handler of the library', st)
        elif failed is not True and ours is not True and known is not True:
            ins = [x for x in evs[a:b] if x.k in ('map_insert', 'push') and x.cont == saved]
            if ins:
                ck.undecided(rule2, inst, 'recorded by %s' % ins[0].k)
            else:
                ck.bad(rule2, inst, e, 'the action that was replaced is not recorded', st)
    for x in evs:
        if after is None and x.k in ('clear', 'cassign', 'map_erase', 'erase') and x.cont == saved:
            ck.bad(rule2, inst, x, 'installing handlers drops recorded actions', st)
    return 1 if ok else 0


def restored(I, st, saved, handler, upto=None, kept=None):
    """signals whose recorded action was put back, or that have none (or stay in the set kept), before an event: {key term: event or None}"""
    out = {}
    for e in st.events():
        if e is upto:
            break
        if e.k == 'sigaction' and func(e.handler) != handler and from_saved(e, saved):
            out[e.sig] = e
    for t, b in path_facts(I, st).items():
        if t[0] == 'has' and b is False and mentions(t[1], lambda y: y == saved):
            out.setdefault(t[-1], None)
        if t[0] == 'has' and b is True and kept is not None and mentions(t[1], lambda y: y == kept):
            out.setdefault(t[-1], None)
    return out


def from_saved(e, saved):
    a = e.act
    if a and a[0] == 'ptr' and is_prefix(saved, a[1]) and mentions(a[1], lambda y: y == e.sig):
        return True
    for v in (e.actval, e.handler):
        if v is not None and mentions(v, lambda y: y == saved) and mentions(v, lambda y: y == e.sig):
            return True
    return False


def check_restore(ck, rule='restore one'):
    p = ck.prog()
    inst = 'g3::restoreSignalHandler [%s]' % ck.cfg
    I, f, res = run_named(ck, 'g3::restoreSignalHandler')
    saved = saved_global(p)
    key = ('ld', ('A', f['params'][0]['n']), 0)
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, live(res), rule, inst):
        acts = st.events('sigaction')
        h = has(I, st, saved, key)
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'does not return normally', st)
            continue
        for e in acts:
            if e.sig != key:
                ck.bad(rule, inst, e, 'restoring a signal changes the action of %s' % show(e.sig), st)
            elif not from_saved(e, saved):
                ck.bad(rule, inst, e, 'the action put back is not the recorded one', st)
            elif h is not True:
                ck.bad(rule, inst, e, 'an action is put back although none is recorded', st)
        if len(acts) > 1:
            ck.bad(rule, inst, acts[1], 'the action is put back twice', st)
        gone = [e for e in st.events('map_erase', 'erase', 'clear', 'cassign', 'cswap') if e.cont == saved]
        for e in gone:
            if e.k == 'map_erase' and e.key == key:
                continue
            if e.k == 'map_erase' and not (e.key[0] == 'sym'):
                ck.bad(rule, inst, e, 'restoring one signal drops the recorded action of %s' % show(e.key), st)
            elif e.k in ('clear', 'cassign', 'cswap'):
                ck.bad(rule, inst, e, 'restoring one signal drops every recorded action', st)
            else:
                ck.undecided(rule, inst, 'removal %r' % e.k)
        if h is True:
            n += 1
            if not acts:
                ck.bad(rule, inst, endsite(st, f), 'a recorded action is not put back', st)
            elif not gone and I.known(st, ('op', '<', acts[0].res, ('i', 0))) is not True:
                ck.bad(rule, inst, endsite(st, f), 'a signal can be restored again: its recorded action is kept', st)
            ev = list(st.events())
            if acts and gone and ev.index(gone[0]) < ev.index(acts[0]) and mentions(acts[0].act, lambda y: y == saved):
                ck.bad(rule, inst, acts[0], 'the recorded action is used after it was removed', st)
        elif h is None:
            ck.undecided(rule, inst, 'a path that does not ask whether an action is recorded')
    ck.need(n, 'paths that restore a signal')


def check_restored_all(ck, rule, inst, I, st, f, saved, handler, cont, upto, allow=None):
    """every signal of the set got its recorded action back before an event"""
    done = restored(I, st, saved, handler, upto, allow)
    c = upto.where() if hasattr(upto, 'where') else upto
    if I.known(st, stdmodel.is_empty(I._read(st, saved))) is True:
        return True
    conts = [cont, saved]
    other = [k for k in done if k[0] == 'i' or elem(k) and elem(k)[0] not in conts and root(elem(k)[0])[0] == 'G']
    if other and not any(elem(k) and elem(k)[0] in conts for k in done):
        ck.bad(rule, inst, done[other[0]] or c, 'the original actions are put back for a set of signals of its own, handled are those in %s' % show(cont), st)
        return False
    for x in conts:
        mine = [elem(k) for k in done if elem(k) and elem(k)[0] == x]
        loops = set()
        for k, e in done.items():
            if e is not None and elem(k) and elem(k)[0] == x:
                loops.add(enclosing_loop(st, e))
        for e in st.events('iter'):
            if e is upto:
                break
            if e.mode == 'generic':
                loops.add(e.loop)
        loops -= {None}
        if not mine and x != cont:
            continue
        if not mine and any(elem(k) and elem(k)[0] == saved for k in done):
            continue
        ok = covers(ck, rule, inst, I, st, f, mine, x, c, 'putting back the original action', loops)
        evs = list(st.events())
        lim = evs.index(upto) if upto in evs else len(evs)
        for lp in loops:
            for mode, es, it in iterations(st, lp, 'sigaction', 'it_deref'):
                if evs.index(it) > lim or (es and evs.index(es[0]) > lim):
                    continue
                if any(e.k in ('sigaction',) and func(e.handler) == handler for e in es):
                    continue
                if any(e in [d for d in done.values() if d is not None] for e in es):
                    continue
                idx = [e.pos for e in es if e.k == 'it_deref' and e.cont == x]
                if any(elem(k) and elem(k)[0] == x and (elem(k)[1] in idx or not idx) for k, d in done.items() if d is None):
                    continue
                if not any(e.k == 'it_deref' and e.cont == x for e in es):
                    continue
                ck.bad(rule, inst, it, 'an iteration over the fatal signals does not put back the original action', st)
                ok = False
        return ok
    return True


def check_override(ck, rule='override'):
    p = ck.prog()
    inst = 'g3::overrideSetupSignals [%s]' % ck.cfg
    _, _, _, handler, cont = installed(ck)
    saved = saved_global(p)
    I, f, res = run_named(ck, 'g3::overrideSetupSignals')
    arg = ('A', f['params'][0]['n'])
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, live(res), rule, inst):
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'does not return normally', st)
            continue
        ws = [e for e in st.events('wr', 'cassign', 'cswap') if (e.get('loc') or e.get('cont')) == cont]
        if not ws:
            ck.bad(rule, inst, endsite(st, f), 'the set of fatal signals is not replaced', st)
            continue
        w = ws[0]
        v = I._read(st, cont)
        if not mentions(v, lambda y: y == arg) and v[0] != 'sym':
            ck.bad(rule, inst, ws[-1], 'the set of fatal signals becomes %s instead of the one given' % show(v), st)
            continue
        n += 1
        check_restored_all(ck, rule, inst, I, st, f, saved, handler, cont, w, allow=arg)
        evs = list(st.events())
        for e in st.events('sigaction'):
            if evs.index(e) > evs.index(ws[-1]) and func(e.handler) != handler:
                ck.bad(rule, inst, e, 'an original action is put back after the new set is in place', st)
            if evs.index(e) < evs.index(w) and func(e.handler) == handler:
                ck.bad(rule, inst, e, 'handlers are installed for the old set', st)
        acts = [e for e in st.events('sigaction') if func(e.handler) == handler]
        src = sets_of(st, acts)
        loops = {enclosing_loop(st, e) for e in acts} - {None}
        newc = src[0] if src else arg
        if acts:
            if newc not in (cont, arg):
                ck.bad(rule, inst, acts[0], 'the handlers are not installed for the given set', st)
            else:
                covers(ck, rule, inst, I, st, f, [elem(e.sig) for e in acts], newc, acts[-1], 'installing the handler', loops)
        else:
            sz = stdmodel.size_of(v)
            if I.known(st, ('op', '==', sz, ('i', 0))) is not True and I.known(st, stdmodel.is_empty(v)) is not True:
                ck.bad(rule, inst, endsite(st, f), 'no handler is installed for the new set', st)
    ck.need(n, 'paths that replace the set of signals')


def check_default_set(ck, rule='default set'):
    p = ck.prog()
    _, _, _, handler, cont = installed(ck)

    def nothing_set(I, st):
        I.assume(st, stdmodel.is_empty(I._read(st, cont)), True)
        I.assume(st, stdmodel.is_empty(I._read(st, saved_global(p))), True)
    for name, fn in (('initial set', 'g3::installCrashHandler'), ('g3::internal::restoreFatalHandlingToDefault', 'g3::internal::restoreFatalHandlingToDefault')):
        inst = '%s [%s]' % (name, ck.cfg)
        I, f, res = run_named(ck, fn, frozen=[cont[1]] if fn == 'g3::installCrashHandler' else [], unroll=9, head_cap=12,
                           prep=None if fn == 'g3::installCrashHandler' else nothing_set)
        ck.ob(rule, inst, where_fn(f))
        n = 0
        for st, _ in ck.clean(I, live(res), rule, inst):
            acts = [e for e in st.events('sigaction') if func(e.handler) == handler]
            vals = [e.sig for e in acts]
            if any(v is None or v[0] != 'i' for v in vals):
                ck.undecided(rule, inst, 'signals %s' % [show(v) for v in vals][:3])
                continue
            got = sorted(v[1] for v in vals)
            n += 1
            if got != sorted(SIGNALS.values()):
                miss = [k for k, v in SIGNALS.items() if v not in got]
                extra = [v for v in got if v not in SIGNALS.values()]
                ck.bad(rule, inst, acts[0] if acts else where_fn(f), 'the default fatal signals are wrong (missing %s, extra %s)' % (miss, extra), st)
        if not n:
            ck.undecided(rule, inst, 'no complete path')


def check_initialize(ck, rule='initialization installs'):
    p = ck.prog()
    inst = 'g3::initializeLogging [%s]' % ck.cfg
    _, _, _, handler, cont = installed(ck)
    I = sig_interp(p)
    f = p.fn('g3::initializeLogging')
    res = I.run_fn(f)
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, live(res), rule, inst):
        if st.comp is not None:
            continue
        acts = [e for e in st.events('sigaction') if func(e.handler) == handler]
        done = [t for t, b in st.facts.items() if b is True and mentions(t, lambda y: y and y[0] in ('op', 'once') and 'once' in str(y[:2]))]
        empty = I.known(st, stdmodel.is_empty(('ld', cont, 0)))
        if acts:
            n += 1
        elif not done and empty is not True:
            ck.bad(rule, inst, endsite(st, f), 'logging can be initialized without handling fatal signals', st)
    if not n:
        ck.never(rule, inst, where_fn(f), 'initialization never installs the handling of fatal signals')


def check_disabled(ck, rule='disabled handling'):
    """a build without signal handling changes no disposition"""
    p = ck.prog()
    for name in ('g3::initializeLogging', 'g3::installCrashHandler', 'g3::overrideSetupSignals', 'g3::restoreSignalHandler',
                 'g3::internal::restoreFatalHandlingToDefault', 'g3::internal::exitWithDefaultSignalHandler', 'g3::internal::shutDownLogging'):
        fs = [f for f in p.fns(name) if f.get('body')]
        if not fs:
            continue
        inst = '%s [%s]' % (name, ck.cfg)
        I = sig_interp(p)
        res = I.run_fn(fs[0])
        ck.ob(rule, inst, where_fn(fs[0]))
        for st, _ in ck.clean(I, res, rule, inst):
            for e in st.events('sigaction'):
                ck.bad(rule, inst, e, 'a build with signal handling disabled changes the action of a signal', st)


def c23(ck):
    for cfg in ['default'] + (['dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_install(ck)
        check_restore(ck)
        check_override(ck)
        check_default_set(ck)
        check_initialize(ck)
    ck.cfg = 'nosignals'
    check_disabled(ck)
    ck.cfg = 'default'
