"""C10: the hook for fatal events."""
from rules.common import *
from rules import pipeline as pl, fatal as ft
from rules.queue import region


def hook_of(e, hooks_):
    w = e.get('what')
    return isinstance(w, tuple) and mentions(w, lambda y: y in hooks_)


def accesses(st, locs):
    return [e for e in st.events('rd', 'wr') if e.loc in locs]


def fatal_paths(ck, prep=None):
    p = ck.prog()
    return ft.fatal_call(ck, 'set', flags=True, everything=True, h=ft.die_hooks(p), trace_rw=True, snap_user=True, prep=prep)


def signal_paths(ck):
    p = ck.prog()
    return ft.run_handler(ck, h=ft.die_hooks(p), trace_rw=True, snap_user=True)


def check_once(ck):
    p = ck.prog()
    hk = {('G', k) for k in ft.hook_globals(p)}
    rule = 'hook'
    runs = [('fatal log call',) + fatal_paths(ck)]
    if ck.cfg != 'nosignals':
        runs.append(('fatal signal',) + signal_paths(ck))
    locks = None
    for name, I, f, res in runs:
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        ck.ob('disarmed first', inst, where_fn(f))
        n = 0
        for st, _ in ck.clean(I, res, rule, inst):
            ps = posts(I, st)
            evs = list(st.events())
            calls = [e for e in st.events('usercall') if hook_of(e, hk)]
            ends = ps + [e for e, _ in ft.deaths(st)]
            if not ends and not calls:
                continue
            for e in accesses(st, hk):
                locks = set(e.locks) if locks is None else locks & set(e.locks)
                if not e.locks:
                    ck.bad('hook lock', inst, e, 'the hook is %s without holding its lock' % ('read' if e.k == 'rd' else 'replaced'), st)
            if len(calls) > 1:
                ck.bad(rule, inst, calls[1], 'the hook is called twice for one fatal event', st)
            facts = path_facts(I, st)
            armed = {b for t, b in facts.items() if mentions(t, lambda y: y in hk) and t[0] in ('nz', 'b', 'empty')}
            if not calls:
                if False not in armed and ends:
                    ck.bad(rule, inst, ends[0], 'the fatal entry is handed over without calling the hook', st)
                continue
            n += 1
            c = calls[0]
            if ends and evs.index(ends[0]) < evs.index(c):
                ck.bad(rule, inst, c, 'the hook is called after the fatal entry was handed to the logger', st)
            if c.locks:
                ck.bad('hook lock', inst, c, 'the hook is called while %s is held: a fatal event in the hook waits for itself' % ', '.join(show(m) for m in c.locks), st)
            # disarmed
            s = c.st
            for h in hk:
                if not mentions(c.what, lambda y: y == h):
                    continue
                v = I._read(s, h) if s is not None else None
                ws = [e for e in evs[:evs.index(c)] if e.k == 'wr' and e.loc == h]
                rs = [e for e in evs[:evs.index(c)] if e.k == 'rd' and e.loc == h and mentions(e.val, lambda y: y == h)]
                if v is not None and (v == ('ld', h, s.gen) or v == ('ld', h, 0) or (v[0] == 'ld' and v[1] == h)):
                    ck.bad('disarmed first', inst, c, 'the hook is still armed while it runs', st)
                elif v is not None and reaches(s, v, h):
                    ck.bad('disarmed first', inst, ws[-1] if ws else c, 'what replaces the hook while it runs calls it again', st)
                elif not ws:
                    ck.bad('disarmed first', inst, c, 'the hook is not disarmed before it is called', st)
                elif rs and region(st, rs[-1]) != region(st, ws[0]) and all(region(st, r) != region(st, ws[0]) for r in rs):
                    ck.bad('disarmed first', inst, ws[0], 'the hook is fetched and disarmed in two critical sections: two threads can both call it', st)
                elif rs and region(st, rs[-1]) > region(st, ws[0]):
                    ck.undecided('disarmed first', inst, 'the hook is read after it was disarmed')
        if not n:
            ck.never(rule, inst, where_fn(f), 'the hook is never called')
    # the other users of the hook
    for fn in ('g3::setFatalPreLoggingHook', 'g3::initializeLogging'):
        f = p.fn(fn)
        inst = '%s [%s]' % (fn, ck.cfg)
        I = Interp(p, hooks(p, **{'g3::installCrashHandler': simple(('void',))}), max_s=60, trace_rw=True)
        st0 = I.new_state()
        res = ck.clean(I, live(I.run_fn(f, st=st0)), 'hook lock', inst)
        ck.ob('hook lock', inst, where_fn(f))
        n = 0
        for st, _ in res:
            if st.comp is not None:
                continue
            n += 1
            for e in accesses(st, hk):
                locks = set(e.locks) if locks is None else locks & set(e.locks)
                if not e.locks:
                    ck.bad('hook lock', inst, e, 'the hook is %s without holding its lock' % ('read' if e.k == 'rd' else 'replaced'), st)
            ws = [e for e in st.events('wr') if e.loc in hk]
            if not ws:
                ck.bad(rule, inst, endsite(st, f), 'the hook is not %s' % ('set' if 'set' in fn else 'reset'), st)
                continue
            for h in {e.loc for e in ws}:
                v = I._read(st, h)
                if mentions(v, lambda y: y == h):
                    ck.bad(rule, inst, ws[-1], 'the previous hook stays in place', st)
                if fn.endswith('Hook'):
                    a = ('A', f['params'][0]['n'])
                    if not mentions(v, lambda y: y == a):
                        if v[0] == 'sym':
                            ck.undecided(rule, inst, 'hook becomes %s' % show(v))
                        else:
                            ck.bad(rule, inst, ws[-1], 'the hook becomes %s instead of the one given' % show(v), st)
        ck.need(n, 'paths through %s' % fn)
    if locks is not None and not locks:
        ck.bad('hook lock', 'one common lock [%s]' % ck.cfg, where_fn(p.fn('g3::setFatalPreLoggingHook')), 'no single lock is held at every access to the hook')
    ck.ob('hook lock', 'one common lock [%s]' % ck.cfg)


def reaches(st, v, h):
    """a value is, or captures, the hook set by the user"""
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if mentions(t, lambda y: y == h or y and y[0] == 'ld' and y[1] == h):
            return True
        locs = set()
        mentions(t, lambda y: isinstance(y, tuple) and y and y[0] in ('L', 'T', 'H') and locs.add(y) or False)
        for l in locs - seen:
            seen.add(l)
            todo.extend(w for k, w in st.store.items() if k[0] != '#init' and root(k) == l and isinstance(w, tuple))
    return False


def counters(ck):
    """what counts fatal events: atomics changed by a read-modify-write before the hand-over, read by it"""
    p = ck.prog()
    I, f, res = fatal_paths(ck)
    out = []
    for st, _ in res:
        for e in st.events('awr'):
            if e.op == 'rmw' and e.loc[0] == 'G' and e.loc not in out and initial_int(p, e.loc[1]) == 0 and 'bool' not in p.globals.get(e.loc[1], {'t': ''})['t']:
                out.append(e.loc)
    return I, f, res, out


def initial_int(p, key):
    v = ft.initial(p, key)
    return v[1] if v and v[0] == 'i' else None


def report(I, ev):
    """messages of the fatal entry that is handed over"""
    return [v for k, v in ev.st.store.items() if k[0] == 'F' and k[-1] == '_message' and root(k)[0] == 'H' and mentions(v, lambda y: y == TEXT)]


def flat(t, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple):
        if len(t) >= 2 and (t[0] in ('s', 'op') and isinstance(t[1], str) or t[0] == 'sym' or t[0] == 'ld' and root(t[1])[0] == 'G'):
            out.append(t)
        for x in t:
            flat(x, out)
    return out


def recursive(m):
    """position of the notice about a recursive crash, and whether the first stack trace follows it"""
    fl = flat(m)
    i = [n for n, t in enumerate(fl) if t[0] == 's' and 'ecursive' in t[1]]
    if not i:
        return None
    tail = fl[i[-1] + 1:]
    if any(t[0] in ('ld', 'sym') for t in tail):
        return 'first'
    return 'this' if any('stackdump' in t[1] or 'STACKDUMP' in t[1] for t in tail) else ''


def in_sequence(ck, rule, inst, atoms):
    """a fatal event in the hook of the first one, with the flags as the first one leaves them; True: not decided"""
    p = ck.prog()
    hk = {('G', k) for k in ft.hook_globals(p)}
    values = [tuple(('i', initial_int(p, a[1])) for a in atoms)]
    for n in range(2):
        now, seen, noted = set(), 0, False
        for vs in values:
            def prep(I2, st, vs=vs):
                for a, v in zip(atoms, vs):
                    st.store[a] = v
                    keep(st, a)
            I2, f2, res2 = fatal_paths(ck, prep)
            for st, _ in res2:
                if st.marks:
                    return True
                for u in st.events('usercall'):
                    if hook_of(u, hk) and u.st is not None:
                        now.add(tuple(I2._read(u.st, a) for a in atoms))
                for ev in posts(I2, st)[:1]:
                    ms = report(I2, ev)
                    seen += bool(ms)
                    noted = noted or any(recursive(m) is not None for m in ms)
                    last = ev, st
        if n == 1 and seen and not noted:
            ck.bad(rule, inst, last[0], 'the report of a fatal event in the hook of another one does not say that a recursive crash happened: nothing the first one does tells it so', last[1])
            return False
        values = [v for v in sorted(now, key=repr) if all(x[0] == 'i' for x in v)]
        if not values or len(values) < len(now):
            return True
    return True


def check_recursion(ck, rule='recursion'):
    p = ck.prog()
    inst = 'fatal log call [%s]' % ck.cfg
    I, f, res, cs = counters(ck)
    ck.ob(rule, inst, where_fn(f))
    if len(cs) != 1:
        any_note = any(recursive(m) is not None for st, _ in res for ev in posts(I, st) for m in report(I, ev))
        atoms = [('G', k) for k, g in p.globals.items() if 'atomic' in g['t'] and not g.get('const') and k not in ft.wait_flags(p) and initial_int(p, k) is not None]
        if not any_note:
            ck.never(rule, inst, where_fn(f), 'no report ever says that a recursive crash happened')
        elif not cs and atoms and not in_sequence(ck, rule, inst, atoms):
            pass
        else:
            ck.undecided(rule, inst, 'no counter of fatal events recognised (%s)' % [show(c) for c in cs])
        return
    c = cs[0]
    hk = {('G', k) for k in ft.hook_globals(p)}
    for before, want in ((0, False), (1, True), (2, True)):
        def prep(I2, st, before=before):
            st.store[c] = ('i', before)
            keep(st, c)
        I2, f2, res2 = fatal_paths(ck, prep)
        n = 0
        seen = []
        inst2 = 'event number %d [%s]' % (before + 1, ck.cfg)
        ck.ob(rule, inst2, where_fn(f2))
        for st, _ in ck.clean(I2, res2, rule, inst2):
            for ev in posts(I2, st)[:1]:
                ms = report(I2, ev)
                if not ms:
                    ck.undecided(rule, inst2, 'text of the report not recognised')
                    continue
                n += 1
                r = [recursive(m) for m in ms]
                if want and all(x is None for x in r):
                    ck.bad(rule, inst2, ev, 'the report of a fatal event in the hook does not say that a recursive crash happened', st)
                elif want:
                    seen += [(ev, st, x) for x in r if x]
                if want and any(x is not None for x in r) and not any(r):
                    ck.bad(rule, inst2, ev, 'the report of a recursive crash does not include the first stack trace', st)
                elif not want and any(x is not None for x in r):
                    ck.bad(rule, inst2, ev, 'the report of the first fatal event says that a recursive crash happened', st)
            evs = list(st.events())
            cnt = [e for e in evs if e.k == 'awr' and e.loc == c]
            for u in st.events('usercall'):
                if hook_of(u, hk) and (not cnt or evs.index(cnt[0]) > evs.index(u)):
                    ck.bad(rule, inst2, u, 'the hook runs before the fatal event is counted: a fatal event in it is not recognised as recursive', st)
        if seen and all(x == 'this' for _, _, x in seen):
            ck.bad(rule, inst2, seen[0][0], 'the report of a recursive crash repeats its own stack trace: the first one is never kept', seen[0][1])
        if not n:
            ck.undecided(rule, inst2, 'no complete path')
    # reset
    f = p.fn('g3::initializeLogging')
    inst = 'g3::initializeLogging [%s]' % ck.cfg
    I = Interp(p, hooks(p, **{'g3::installCrashHandler': simple(('void',))}), max_s=60)
    ck.ob(rule, inst, where_fn(f))
    for st, _ in ck.clean(I, live(I.run_fn(f)), rule, inst):
        if st.comp is not None:
            continue
        ws = [e for e in st.events('awr') if e.loc == c]
        if not ws:
            ck.bad(rule, inst, endsite(st, f), 'initializing logging does not reset the count of fatal events', st)
        elif ws[-1].val != ('i', 0):
            ck.bad(rule, inst, ws[-1], 'initializing logging sets the count of fatal events to %s' % show(ws[-1].val), st)


def c10(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_once(ck)
        check_recursion(ck)
        ft.check_no_hook(ck)
        ft.check_nested(ck)
    ck.cfg = 'default'
