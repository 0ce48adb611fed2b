"""C24: state shared between threads."""
from rules.common import *
from rules import pipeline as pl, fatal as ft, queue as qu, initial as ini, shutdown as sh, hook as hk

# functions a program uses while its other threads log (g3::only_change_at_initialization, the installation of signal
# handlers and the replacement of the fatal handler for tests are not among them)
CALLS = ['g3::initializeLogging', 'g3::setFatalPreLoggingHook', 'g3::internal::isLoggingInitialized', 'g3::internal::shutDownLogging',
         'g3::internal::shutDownLoggingForActiveOnly', 'g3::logLevel', 'g3::log_levels::*', 'g3::internal::exitWithDefaultSignalHandler',
         'g3::internal::shouldBlockForFatalHandling', 'g3::internal::stackdump', 'g3::localtime_formatted', 'g3::internal::wasFatal', 'LogCapture::capturef']
SETUP = {'g3::log_levels::addLevel'}
# what sinks, each on a thread of its own, and their users do with entries and options at the same time
OBJECTS = ('g3::LogMessage', 'g3::FatalMessage', 'LEVELS', 'g3::LogMessageMover')


def synchronised(t):
    return any(x in t for x in ('std::atomic', 'std::mutex', '_mutex', 'std::once_flag', 'std::condition_variable', 'std::atomic_flag', 'std::memory_order', 'thread_local'))


def shared_globals(p):
    """objects with static storage that can change after they were initialized"""
    out = {}
    for k, g in p.globals.items():
        if g.get('const') or g.get('tls') or 'probe' in (g.get('file') or ''):
            continue
        out[k] = g
    return out


def names(p, pat):
    if pat.endswith('*'):
        return sorted({f['n'] for f in p.functions.values() if f['n'].startswith(pat[:-1]) and '::' not in f['n'][len(pat) - 1:] and f.get('body') is not None})
    return [pat] if p.fns(pat) else []


def entries(ck):
    """(what the application does, interpreter, function, paths) for everything threads do concurrently"""
    p = ck.prog()
    opt = dict(trace_rw=True, everything=True, h=hooks(p))
    yield ('log call',) + pl.submit(ck, worker=None, **opt)
    yield ('fatal log call',) + ft.fatal_call(ck, None, flags=True, **{**opt, 'h': ft.die_hooks(p)})
    if ck.cfg != 'nosignals':
        yield ('fatal signal',) + ft.run_handler(ck, None, h=ft.die_hooks(p), trace_rw=True)
    methods = sorted({f['n'] for f in p.functions.values() if f.get('rec') in OBJECTS and f.get('body') is not None and 'probe' not in (f.get('file') or '') and f.get('kind') != 'dtor'})
    for pat in CALLS + methods:
        for n in names(p, pat):
            for f in p.fns(n):
                if f.get('body') is None or n in SETUP:
                    continue
                I = Interp(p, {k: v for k, v in hooks(p, text=False, **{ini.INSTALL: event_hook('install')}).items() if k != n}, max_s=30, max_paths=3000, trace_rw=True, snap=[])
                st = I.new_state()
                yield n, I, f, I.run_fn(f, st=st, this=THIS if f.get('rec') and not f.get('static') else None)
    for f in p.functions.values():
        if f.get('rec') == 'g3::LogWorker' and f.get('body') is not None and (f.get('kind') != 'ctor' or len(f['params']) == 0):
            I, res = sh.run_worker_method(ck, f, trace_rw=True) if f.get('kind') != 'ctor' and not f.get('static') else (None, None)
            if I is None:
                I = Interp(p, hooks(p), max_s=30, trace_rw=True, snap=['push', 'wait'])
                res = I.run_fn(f, st=I.new_state(), this=WORKER if not f.get('static') else None)
            yield f['n'], I, f, res


WRITES = ('push', 'pop', 'erase', 'clear', 'cassign', 'cswap', 'map_insert', 'map_erase', 'wr')
READS = ('rd', 'cread', 'it_deref')


def place(e):
    l = e.get('loc') or e.get('cont')
    return l if isinstance(l, tuple) and l and l[0] in ('G', 'F', 'E') else None


def this_thread(t):
    return mentions(t, lambda y: isinstance(y, tuple) and y and y[:2] == ('sym', 'thread_id'))


def equal(a, old):
    """what an atom says the old value is equal to"""
    if a[0] == 'op':
        a = a[1:]
    return a[2 if a[1] == old else 1] if a[0] == '==' and old in a[1:] else None


def claims(I, steps, brs):
    """atomic objects an earlier step on this path claimed for one thread: the step changed the object, and the path
    continues only for one value it had before; or the object names the thread that claimed it, which is this one"""
    out = set()
    for loc, old, rmw in steps:
        for a, b in brs:
            x = equal(a, old) if b else None
            if rmw and (a in (old, ('nz', old)) and not b or x is not None) or x is not None and this_thread(x):
                out.add(('claim', loc))
    return out


def walk_path(I, st, gs):
    """(event, location, is it a write, what guards it) for the accesses to globals that are not atomic"""
    steps, brs = [], []
    for e in st.events():
        if e.k == 'awr' and e.op == 'rmw' and root(e.loc)[0] == 'G':
            steps.append((e.loc, e.old, True))
        elif e.k == 'aload' and root(e.loc)[0] == 'G':
            steps.append((e.loc, e.val, False))
        elif e.k == 'br':
            a, pos = I.norm_cond(e.cond)
            brs.append((a, bool(e.taken) == pos))
        elif e.k in WRITES or e.k in READS:
            l = place(e)
            if l is not None and root(l)[0] == 'G' and root(l)[1] in gs:
                yield e, l, e.k in WRITES, set(e.locks) | claims(I, steps, brs)


def check_guards(ck, rule='guarded'):
    """every object that changes while threads use it is atomic, or has a guard common to all places that use it"""
    p = ck.prog()
    gs = shared_globals(p)
    uses, ways = {}, 0
    for what, I, f, res in entries(ck):
        inst = '%s [%s]' % (what, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        ways += 1
        res = ck.clean(I, res, rule, inst)
        both = either_way(I, res, gs)
        for st, _ in res:
            for e, l, w, g in walk_path(I, st, gs):
                k = (e.site, w, frozenset(g))
                uses.setdefault(root(l)[1], {}).setdefault(k, (e, w, g, st, inst))
            check_steps(ck, rule, inst, I, st, gs, both)
    ck.need(ways, 'ways to use the logger', 20)
    changed = 0
    for k, us in uses.items():
        us = list(us.values())
        ws = [u for u in us if u[1]]
        if not ws:
            continue
        changed += 1
        inst = '%s [%s]' % (pretty(k), ck.cfg)
        ck.ob(rule, inst)
        common = None
        for e, w, g, st, what in us:
            common = g if common is None else common & g
        if common:
            continue
        done = set()
        for e, w, g, st, what in sorted(us, key=lambda u: (len(u[2]), not u[1])):
            other = [u for u in (us if w else ws) if not (u[2] & g)]
            if not other or e.where() in done:
                continue
            done.add(e.where())
            o = ([u for u in other if u[0].where() != e.where()] or other)[0]
            ck.bad(rule, inst, e, '%s is %s %s (%s), while another thread can %s it at %s: nothing keeps them apart' % (
                pretty(k), 'changed' if w else 'read', 'without a lock' if not g else 'under ' + ', '.join(sorted(pretty(x[1][1]) if x[0] in ('claim', 'once') else show(x) for x in g)),
                what, 'change' if o[1] else 'read', o[0].where()), st)
            if len(done) >= 2:
                break
    ck.need(changed, 'objects that change while threads use them')


def pretty(k):
    return (k.split('@')[0] if '::' not in k.partition('@')[2] else k.rpartition('::')[2]).replace('(anonymous namespace)::', '')


def either_way(I, res, gs):
    """stores of a constant to a shared object that come about whatever a test of it found, as {(place, site of the store)}"""
    out = {}
    for st, _ in res:
        vals, found = {}, {}
        for e in st.events():
            if e.k == 'br':
                a, pos = I.norm_cond(e.cond)
                for v, l in vals.items():
                    if mentions(a, lambda y: y == v):
                        found.setdefault(l, []).append((e.site, e.taken == pos))
            elif e.k == 'aload' and root(e.loc)[0] == 'G' and root(e.loc)[1] in gs and isinstance(e.val, tuple) and e.val[0] == 'ald':
                vals[e.val] = e.loc
            elif e.k == 'awr' and e.op != 'rmw' and isinstance(e.val, tuple) and e.val[0] == 'i':
                for x in found.get(e.loc, []):
                    out.setdefault((e.loc, e.site), {}).setdefault(x[0], set()).add(x[1])
    return {k for k, v in out.items() if all(len(x) > 1 for x in v.values())}


def check_steps(ck, rule, inst, I, st, gs, both=()):
    """what was found in a shared object is still there when it is changed because of it"""
    tested, brs, done = {}, [], set()
    for e in st.events():
        if e.k == 'br':
            a, pos = I.norm_cond(e.cond)
            brs.append(a)
        elif e.k in ('aload', 'rd') and root(e.loc)[0] == 'G' and root(e.loc)[1] in gs:
            tested.setdefault(e.loc, []).append(e)
        elif (e.k == 'awr' and e.op != 'rmw' or e.k == 'wr') and root(e.loc)[0] == 'G' and root(e.loc)[1] in gs:
            rs = [r for r in tested.get(e.loc, []) if isinstance(r.val, tuple) and r.val[0] in ('ald', 'ld') and
                  any(mentions(a, lambda y: y == r.val) for a in brs)]
            if e.k == 'wr':
                rs = rs if e.locks and all(r.locks for r in rs) else []
            if rs and not any(set(r.locks) & set(e.locks) and section(st, r, set(r.locks) & set(e.locks)) == section(st, e, set(r.locks) & set(e.locks)) for r in (rs if e.k == 'awr' else tested[e.loc])):
                if (e.loc, e.site) in both:
                    ck.undecided(rule, inst, '%s is set at %s whether a test found it set or not' % (show(e.loc).split('::')[-1], e.where()))
                elif e.where() not in done:
                    done.add(e.where())
                    ck.bad(rule, inst, e, '%s was tested at %s and is changed here in a separate step: another thread can come in between' % (show(e.loc).split('::')[-1], rs[-1].where()), st)


def member_uses(st, this, upto=None):
    """(event, member, write) for what a path does to members of an object, until it has waited for the thread to end"""
    for e in st.events():
        if upto and e.k == upto:
            return
        if e.k in WRITES or e.k in READS or e.k in ('awr', 'aload'):
            l = place2(e)
            if l is not None and l != this and is_prefix(this, l) and not e.get('gone'):
                yield e, l, e.k in WRITES or e.k == 'awr'


def place2(e):
    l = e.get('loc') or e.get('cont')
    return l if isinstance(l, tuple) and l and l[0] in ('F', 'E') else None


def shared_objects(ck):
    """objects that several threads call: (name, object, methods any thread calls, what its own thread does)"""
    p = ck.prog()
    out = [('g3::LogWorker', WORKER, sh.worker_methods(p))]
    for rec in p.records:
        if (p.recname(rec) or '') == 'g3::internal::Sink' and ('probe' in rec or rec == 'g3::internal::Sink<g3::FileSink>'):
            out.append((rec, ('A', 'sink'), [f for f in p.functions.values() if f.get('rec') == rec and f.get('body') is not None and f.get('kind') != 'ctor' and not f.get('static') and not is_helper(p, f)]))
    out.append(('kjellkod::Active', qu.Q, [f for f in p.functions.values() if f.get('rec') == 'kjellkod::Active' and f.get('body') is not None and f.get('kind') != 'ctor' and not f.get('static') and not is_helper(p, f)
                                           and f['sn'].split('::')[-1] != 'run']))
    return out


def thread_bodies(ck):
    """what the thread of an active object does, with every access to its members"""
    p = ck.prog()
    out = []
    I = Interp(p, hooks(p), max_s=60, snap=['push', 'thread_start'], trace_rw=True)
    for st, v in live(I.run_fn(p.fn('kjellkod::Active::createActive'))):
        ts = st.events('thread_start')
        if st.comp is not None or len(ts) != 1:
            continue
        objs = [e.loc for e in st.events('new') if e.t and 'Active' in e.t]
        out.append((I, ts[0], objs[0] if objs else None, None, qu.thread_body(I, ts[0], objs[0] if objs else None)))
    return out


def check_members(ck, bodies, rule='members'):
    """a member is changed by one thread only, or it is atomic or guarded"""
    p = ck.prog()
    for name, this, fs in shared_objects(ck):
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst)
        anys, own = {}, {}
        for f in fs:
            I = Interp(p, pl.sink_hooks(p), max_s=60, snap=['push'], trace_rw=True)
            st0 = I.new_state()
            if this == WORKER:
                own_worker(p, I, st0)
            else:
                I.ltype[this] = name
                keep_handles(p, I, st0, this, name)
                for path in sh.thread_fields(p, name):
                    I.assume(st0, I._read(st0, at(this, path)), True)
            for st, _ in ck.clean(I, I.run_fn(f, this=this, st=st0), rule, inst):
                for e, l, w in member_uses(st, this, 'join' if f.get('kind') == 'dtor' else None):
                    anys.setdefault((l, w, e.where()), (e, st, f.get('kind') == 'dtor'))
                for t in posts(I, st):
                    for s2, _ in live(run_task(I, t)):
                        if s2.marks:
                            continue
                        for e, l, w in member_uses(s2, this):
                            own.setdefault((l, w, e.where()), (e, s2))
        if name == 'kjellkod::Active':
            for I2, ev, obj, own_t, rr in bodies:
                for s, _ in rr:
                    if obj is None or s.marks:
                        continue
                    for e, l, w in member_uses(s, qu.SELF):
                        own.setdefault((rebase(l, qu.SELF, this), w, e.where()), (e, s))
        guarded = lambda e: e.k in ('awr', 'aload') or bool(e.locks)
        for (l, w, where), (e, st, end) in anys.items():
            if not guarded(e) and w and not end:
                ck.bad(rule, inst, e, '%s of an object that all threads use is changed on the calling thread without a lock' % member(l), st)
                continue
            for (l2, w2, where2), (e2, s2) in own.items():
                if not (w or w2) or not (is_prefix(l, l2) or is_prefix(l2, l)) or e.k in ('awr', 'aload') and e2.k in ('awr', 'aload') or set(e.locks) & {rebase(m, qu.SELF, this) for m in e2.locks}:
                    continue
                ck.bad(rule, inst, e2 if guarded(e) else e, '%s is %s on the calling thread at %s and %s by the thread of the object at %s: nothing keeps them apart' % (
                    member(l), 'changed' if w else 'read', where, 'changed' if w2 else 'read', where2), s2 if guarded(e) else st)


def member(l):
    while l[0] == 'E':
        l = l[1]
    return l[2] if l[0] == 'F' and isinstance(l[2], str) else show(l)


def c24(ck):
    for cfg in ['default', 'dynlevels'] + (['nosignals', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_guards(ck)
        if cfg == 'dynlevels' and ck.tier != 'thorough':
            continue
        ini.check_tested_pointer(ck)
        ini.check_decision(ck)
        hk.check_once(ck)
        qu.check_queue(ck)
        bodies = qu.check_active(ck)
        qu.check_active_end(ck, bodies)
        check_members(ck, thread_bodies(ck))
        sh.check_confined(ck)
    ck.cfg = 'default'
