"""C04, C19, C20: what the calling thread does, and what the entry it hands over consists of."""
from rules.common import *
from rules import pipeline as pl, queue as q
from rules.delivery import expectations, check_entry

SLOW = ('sinksend', 'deliver', 'usercall', 'calluser', 'open', 'join', 'sleep', 'wait', 'cv_wait', 'cv_wait_for')


def stream_is_local(I, st, s):
    r = root(s)
    return r[0] in ('L', 'T', 'H') or is_prefix(THIS, s)


def is_std_err(s):
    t = show(s)
    return 'cerr' in t or 'clog' in t or 'stderr' in t


# ----------------------------------------------------------------- C04
def caller_paths(ck):
    out = []
    for worker in ('set', 'null'):
        I, f, res = pl.submit(ck, worker=worker)
        out.append((worker, I, f, res))
    return out


def check_caller(ck):
    """the logging thread neither runs consumers of the entry nor waits for them"""
    rule = 'calling thread'
    mutexes = {}
    for worker, I, f, res in caller_paths(ck):
        inst = 'non-fatal log call, worker %s [%s]' % (worker, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        for st, _ in ck.clean(I, res, rule, inst):
            for e in st.events():
                if e.k in BLOCKING:
                    ck.bad(rule, inst, e, 'a log call %s' % BLOCKING[e.k], st)
                elif e.k in ('sinksend', 'deliver'):
                    ck.bad(rule, inst, e, 'a log call sends to a sink on the calling thread', st)
                elif e.k in ('usercall', 'calluser'):
                    if e.locks or not own_text(e):
                        ck.bad(rule, inst, e, 'a log call runs %s on the calling thread' % show_what(e), st)
                elif e.k == 'open':
                    ck.bad(rule, inst, e, 'a log call opens a file', st)
                elif e.k in ('write', 'perror', 'stdio') and worker == 'set':
                    ck.bad(rule, inst, e, 'a log call writes output on the calling thread', st)
                elif e.k in ('out', 'flush') and not stream_is_local(I, st, e.stream) and (worker == 'set' or not is_std_err(e.stream)):
                    ck.bad(rule, inst, e, 'a log call writes to %s on the calling thread' % show(e.stream), st)
                elif e.k == 'lock':
                    mutexes.setdefault(e.m, e)
    return mutexes


def own_text(e):
    return False


def show_what(e):
    w = e.get('what')
    return show(w) if isinstance(w, tuple) else str(w)


def lock_name(m):
    """a lock, independent of the object the analysis found it in"""
    names = []
    while m[0] in ('F', 'E', 'D'):
        if m[0] == 'F':
            names.append(m[2])
            m = m[1]
        else:
            break
    return (m[1] if m[0] == 'G' else None, tuple(names[:1]))


def check_slow_locks(ck, mutexes):
    """a lock that a log call takes is never held around sink work or waiting"""
    rule = 'no slow work under a lock of the log call'
    p = ck.prog()
    inst = 'worker and sink tasks [%s]' % ck.cfg
    ck.ob(rule, inst)
    runs = []
    I, tasks = pl.check_worker(ck)
    for st0, ev, rr in tasks:
        runs += [s for s, _ in ck.clean(I, rr, rule, inst)]
    n = 0
    for s in runs:
        for e in s.events(*SLOW):
            n += 1
            for m in e.locks:
                if m in mutexes:
                    ck.bad(rule, inst, e, '%s is held here, and every log call takes it (%s): a slow sink would stop the application' % (show(m), mutexes[m].where()), s)
    ck.need(n, 'sends, calls and waits on the worker thread')


def c04(ck):
    for cfg in ['default'] + (['dynlevels', 'fullname', 'nosignals'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        m = check_caller(ck)
        check_slow_locks(ck, m)
    ck.cfg = 'default'
    q.consume(ck, q.check_create(ck))
    att = pl.check_attach(ck)
    pl.check_sinks(ck, attached=att)


# ----------------------------------------------------------------- C19
def leafs(t):
    """locations a value refers to"""
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] in ('ptr', 'ref', 'func', 'shared', 'weak', 'refw', 'closureref') and len(x) > 1 and isinstance(x[1], tuple):
            out.append((x[0], x[1]))
            return
        for y in x:
            go(y)
    go(t)
    return out


def check_owned(ck, rule, inst, I, ev, st, allowed=(), raw=()):
    """everything reachable from a queued task is owned by it (or outlives it: the worker, the sink, functions, globals)"""
    p = ck.prog()
    s = ev.st
    seen = set()
    todo = [(ev.elem, 'the task')]
    bad = False
    views = []

    def vals(loc):
        return [(k, v) for k, v in s.store.items() if is_prefix(loc, k)]
    while todo:
        loc, via = todo.pop()
        if loc in seen or any(is_prefix(a, loc) for a in allowed):
            continue
        seen.add(loc)
        t = I.ltype.get(loc)
        rec = I.recof(t) if t else None
        for path, ft in (all_fields(p, rec) if rec else []):
            if 'basic_string_view' in ft:
                views.append(show(at(loc, path)))
        for k, v in vals(loc):
            if v[0] == 'ld' and v[1][0] == 'A' and v[1][1] in raw:
                ck.bad(rule, inst, ev, 'the entry that is handed over keeps the pointer %s of the log statement (in %s) instead of a copy of its text' % (v[1][1], show(k)), st)
                bad = True
            if v[0] == 'cstr' and not (len(v) > 1 and isinstance(v[1], tuple) and v[1][0] == 's'):
                ck.bad(rule, inst, ev, 'the entry that is handed over keeps a pointer into a string of the calling thread (in %s)' % show(k), st)
                bad = True
            for kind, l in leafs(v):
                r = root(l)
                if any(is_prefix(a, l) for a in allowed):
                    continue
                if r[0] in ('L', 'T', 'S'):
                    ck.bad(rule, inst, ev, 'the task that is handed over refers to %s, a local object of the thread that hands it over (in %s)' % (show(l), show(k)), st)
                    bad = True
                elif r[0] in ('A', 'D'):
                    if r[0] == 'D' and not mentions(r, lambda y: y[0] == 'ld' and y[1][0] == 'A' and y[1][1] in raw) and r[0] != 'A':
                        continue
                    ck.bad(rule, inst, ev, 'the task that is handed over refers to %s, which belongs to the caller (in %s)' % (show(l), show(k)), st)
                    bad = True
                elif r[0] == 'H':
                    todo.append((l, show(k)))
    for v in views:
        ck.undecided(rule, inst, 'view of text held elsewhere: %s' % v)
    return not bad


def check_self_contained(ck):
    p = ck.prog()
    rule = 'self-contained'
    raw = PTR_ARGS
    I, f, good = pl.check_submit(ck)
    inst = 'task of a non-fatal log call [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    for st, ev in good:
        check_owned(ck, rule, inst, I, ev, st, (WORKER,), raw)
    from rules import fatal as ft
    I, f, res = ft.fatal_call(ck)
    inst = 'task of a fatal log call [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st, _ in ck.clean(I, res, rule, inst):
        for ev in posts(I, st):
            n += 1
            check_owned(ck, rule, inst, I, ev, st, (WORKER,), raw)
    if not n:
        ck.undecided(rule, inst, 'no fatal hand-over found')
    # worker -> sink
    for kind, I, st0, ev in pl.check_attach(ck):
        inst = '%s: task of a sink [%s]' % (kind, ck.cfg)
        ck.ob(rule, inst)
        obj = ev.val[1]
        rec = I.recof(I.ltype[obj])
        fs = [f for f in p.functions.values() if f.get('rec') == rec and f['sn'].endswith('::send') and f.get('body')]
        if len(fs) != 1:
            ck.undecided(rule, inst, 'send of %s not found' % rec)
            continue
        st = st0.fork()
        st.ev, st.comp = None, None
        mrec = p.rec(p.unref(fs[0]['params'][0]['t']))
        I.ltype[pl.MSG] = mrec
        I.mark_private(st, pl.MSG)
        for s, _ in live(ck.clean(I, I.run_fn(fs[0], this=obj, st=st, args=[Arg(loc=pl.MSG, t=mrec, x=True)]), rule, inst)):
            for pv in posts(I, s):
                check_owned(ck, rule, inst, I, pv, s, (obj,), {'msg'})


def run_probe(ck, f, locs, **kw):
    p = ck.prog()
    I = interp(p, **kw)
    st = I.new_state()
    args = []
    for q in f['params']:
        l = ('A', q['n'])
        I.ltype[l] = p.unref(q['t'])
        I.mark_private(st, l)
        args.append(Arg(loc=l, t=p.unref(q['t']), x='&&' in q['t']))
    return I, I.run_fn(f, st=st, args=args)


RET = ('A', '#ret')


def check_copies(ck):
    """copying, moving, assigning, swapping: the target has every attribute of the source"""
    p = ck.prog()
    rule = 'complete copies'
    LM, LV, FM = 'g3::LogMessage', 'LEVELS', 'g3::FatalMessage'
    jobs = [('probe::message_copy', LM, [('b', (), 'a', ())], ['a']),
            ('probe::message_swap', LM, [('b', (), 'a', ()), ('a', (), 'b', ())], []),
            ('probe::level_swap', LV, [('b', (), 'a', ()), ('a', (), 'b', ())], []),
            ('probe::level_assign', LV, [('a', (), 'b', ())], ['b'])]
    for n, rec, pairs, same in jobs:
        f = p.fn(n)
        I, res = run_probe(ck, f, None)
        compare(ck, rule, n, I, res, rec, [(('A', d), ('A', s)) for d, _, s, _ in pairs], f)
        compare(ck, rule, n + ' (source)', I, res, rec, [(('A', s), ('A', s)) for s in same], f)
    mv = [path for path, t in all_fields(p, p.rec(p.unref(p.fn('probe::mover_copy')['params'][0]['t']))) if p.recname(p.rec(t) or '') == LM]
    if len(mv) != 1:
        raise AnalysisError('anchor vanished: the LogMessage inside LogMessageMover')
    for n, d, s in (('probe::mover_copy', '#ret', 'm'), ('probe::mover_move', '#ret', 'm'), ('probe::mover_assign', 'a', 'b'), ('probe::mover_move_assign', 'a', 'b')):
        f = p.fn(n)
        I, res = run_probe(ck, f, None)
        compare(ck, rule, n, I, res, LM, [(at(('A', d), mv[0]), at(('A', s), mv[0]))], f)
    # constructors and conversions
    for rec in (LM, FM, LV):
        for f in p.fns('%s::%s' % (rec, rec.split('::')[-1])):
            if f.get('kind') != 'ctor' or not f.get('body') or len(f['params']) < 1:
                continue
            src = f['params'][0]
            srec = p.recname(p.rec(p.unref(src['t'])) or '')
            if srec not in (LM, FM, LV) or (srec == LV and rec != LV):
                continue
            I = interp(p)
            st = I.new_state()
            I.mark_private(st, THIS)
            I.ltype[THIS] = p.rec_by_name[rec][0]
            args = []
            for q in f['params']:
                l = ('A', q['n'])
                if p.isrec(p.unref(q['t'])):
                    I.ltype[l] = p.unref(q['t'])
                    I.mark_private(st, l)
                    args.append(Arg(loc=l, t=p.unref(q['t']), x='&&' in q['t']))
                else:
                    args.append(Arg(val=A(q['n']), t=q['t']))
            res = I.run_fn(f, this=THIS, st=st, args=args)
            inst = '%s(%s)' % (f['sn'], ', '.join(q['t'] for q in f['params']))
            compare(ck, rule, inst, I, res, srec, [(THIS, ('A', src['n']))], f)
            if rec == FM and srec == LM:
                rest = [path for path in leaf_paths(p, FM) if path not in leaf_paths(p, LM)]
                for s, _ in live(res):
                    for path in rest:
                        if len(f['params']) == 2 and I._read(s, at(THIS, path)) != A(f['params'][1]['n']):
                            ck.bad(rule, inst, endsite(s, f), 'the signal of a fatal entry is not kept', s)
    f = p.fn('g3::FatalMessage::copyToLogMessage')
    I = interp(p)
    st = I.new_state()
    I.ltype[THIS] = FM
    res = I.run_fn(f, this=THIS, st=st)
    compare(ck, rule, f['sn'], I, res, LM, [(RET, THIS)], f)


def leaf_paths(p, rec):
    r = p.rec_by_name.get(rec)
    return pl.leaf_fields(p, r[0] if r else rec)


def compare(ck, rule, inst, I, res, rec, pairs, f):
    p = ck.prog()
    inst = '%s [%s]' % (inst, ck.cfg)
    ck.ob(rule, inst, where_fn(f))
    paths = leaf_paths(p, rec)
    ck.need(len(paths), 'attributes of %s' % rec, 2)
    n = 0
    for st, v in live(ck.clean(I, res, rule, inst)):
        if st.comp is not None:
            continue
        n += 1
        for dst, src in pairs:
            for path in paths:
                got = I._read(st, at(dst, path))
                want = ('ld', at(src, path), 0)
                if got == want:
                    continue
                if got[0] == 'sym' and got[1] != 'thread_id':
                    ck.undecided(rule, inst, 'attribute %s: %s' % ('.'.join(path), show(got)))
                    continue
                what = 'is not carried over' if got == ('ld', at(dst, path), 0) else 'becomes %s' % show(got)
                ck.bad(rule, inst, endsite(st, f), 'attribute %s %s' % ('.'.join(path), what), st)
    if not n:
        ck.undecided(rule, inst, 'no complete path')


def c19(ck):
    check_self_contained(ck)
    check_copies(ck)
    if ck.tier == 'thorough':
        for cfg in ('dynlevels', 'fullname', 'nosignals', 'dynsize'):
            ck.cfg = cfg
            check_self_contained(ck)
            check_copies(ck)


# ----------------------------------------------------------------- C20
def check_capture(ck):
    """time and thread are taken by the calling thread, before the entry is handed over"""
    p = ck.prog()
    rule = 'captured at the call'
    inst = 'entry of a non-fatal log call [%s]' % ck.cfg
    I, tasks = pl.check_worker(ck)
    ck.ob(rule, inst)
    n = 0
    for st0, ev, rr in tasks:
        for st, _ in ck.clean(I, rr, rule, inst):
            for e in st.events('sinksend'):
                n += 1
                check_entry(ck, rule, inst, p, I, e, st)
                lm = pl.message_in(I, I.recof(I.ltype.get(e.msg) or ''))
                if not lm:
                    continue
                g = pl.field_terms(p, I, e.st, at(e.msg, lm[0]))
                check_stamp(ck, rule, inst, e, st, g, st0)
    ck.need(n, 'sends to sinks')


def check_fatal_capture(ck):
    """the report of a fatal event has the attributes of the failing statement too"""
    from rules import fatal as ft
    p = ck.prog()
    rule = 'captured at the call'
    inst = 'entry of a fatal log call [%s]' % ck.cfg
    I, f, res = ft.fatal_entries(ck)
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for st0, ev in ft.reps(I, ck.clean(I, res, rule, inst))[:4]:
        for st, _ in ck.clean(I, run_task(I, ev), rule, inst):
            for e in st.events('sinksend'):
                n += 1
                check_entry(ck, rule, inst, p, I, e, st, fatal=True)
                lm = pl.message_in(I, I.recof(I.ltype.get(e.msg) or ''))
                if lm:
                    check_stamp(ck, rule, inst, e, st, pl.field_terms(p, I, e.st, at(e.msg, lm[0])), st0)
    if not n:
        ck.undecided(rule, inst, 'no send of a fatal entry recognised')


def check_stamp(ck, rule, inst, e, st, g, caller):
    p = ck.prog()
    tp = [path for path, t in all_fields(p, 'g3::LogMessage') if 'time_point' in t]
    tid = [path for path, t in all_fields(p, 'g3::LogMessage') if 'thread::id' in t]
    if not tp or not tid:
        raise AnalysisError('anchor vanished: time stamp or thread id of LogMessage')
    taken = [show(x.get('val')) for x in caller.events('now') if x.get('val') is not None]
    for path in tp:
        v = g[path]
        if v[0] == 'now':
            if taken and show(v) not in taken:
                ck.bad(rule, inst, e, 'the time of the entry (%s) is not taken by the calling thread' % show(v), st)
        else:
            ns = []
            mentions(v, lambda y: (ns.append(y) if y and y[0] == 'now' else None, False)[1])
            if any(show(x) in taken for x in ns):
                ck.undecided(rule, inst, 'time stamp: %s' % show(v))
            elif v[0] == 'sym' or (v[0] == 'ld' and v[2] != 0):
                ck.undecided(rule, inst, 'time stamp: %s' % show(v))
            else:
                ck.bad(rule, inst, e, 'the time of the entry is %s instead of the time of the call' % show(v), st)
    for path in tid:
        v = g[path]
        if v == ('sym', 'thread_id', ('i', 0)):
            continue
        if v[:2] == ('sym', 'thread_id') or v[0] == 'i' or v == ('zero',):
            ck.bad(rule, inst, e, 'the thread of the entry is %s instead of the calling thread' % ('that of a background thread' if v[0] == 'sym' else show(v)), st)
        else:
            ck.undecided(rule, inst, 'thread id: %s' % show(v))


ACCESSORS = {'file_path': ('_file_path',), 'file': ('_file',), 'function': ('_function',), 'message': ('_message',), 'expression': ('_expression',),
             'line': ('_line',), 'threadID': ('_call_thread_id',), 'timestamp': ('_timestamp',), 'level': ('_level', 'text')}


def check_accessors(ck):
    """each accessor returns exactly the attribute it names"""
    p = ck.prog()
    rule = 'accessors'
    LM = ('A', 'lm')
    paths = leaf_paths(p, 'g3::LogMessage')
    n = 0
    for name, path in ACCESSORS.items():
        for f in p.fns('g3::LogMessage::' + name):
            if not f.get('body'):
                continue
            if path not in paths:
                raise AnalysisError('anchor vanished: attribute %s' % '.'.join(path))
            inst = 'LogMessage::%s [%s]' % (name, ck.cfg)
            ck.ob(rule, inst, where_fn(f))
            n += 1
            I = interp(p, hooks(p, text=False))
            I.ltype[LM] = 'g3::LogMessage'
            want = ('ld', at(LM, path), 0)
            other = {('ld', at(LM, x), 0) for x in paths if x != path}
            for st, v in live(ck.clean(I, I.run_fn(f, this=LM), rule, inst)):
                if st.comp is not None:
                    ck.bad(rule, inst, endsite(st, f), 'does not return normally', st)
                    continue
                for e in st.events('wr'):
                    if is_prefix(LM, e.loc):
                        ck.bad(rule, inst, e, 'reading an attribute changes the entry', st)
                r = v
                if r and r[0] in ('A', 'F', 'L', 'T', 'H'):
                    r = I._read(st, r)
                if r == want:
                    continue
                late = [e for e in st.events('strftime') if e.tm and not mentions(e.tm, lambda y: y == want) and mentions(e.tm, lambda y: y and y[0] == 'now')]
                if late or r and not mentions(r, lambda y: y == want) and mentions(r, lambda y: y and y[0] in ('now', 'thread_id')):
                    ck.bad(rule, inst, late[0] if late else endsite(st, f), 'is taken when it is asked for instead of from the entry', st)
                    continue
                if name == 'timestamp':
                    for e in st.events('strftime'):
                        k = linear(e.tm)
                        if k is None or want not in k:
                            continue
                        clock = sum(c for y, c in k.items() if y[0] == 'now')
                        if k[want] != 1 or clock:
                            ck.bad(rule, inst, e, 'the time shown is not the time of the entry, but %s' % ' + '.join('%s%s' % ('' if c == 1 else '%d * ' % c, show(y)) for y, c in k.items()), st)
                            break
                mine = mentions(r, lambda y: y == want)
                if mentions(r, lambda y: y in other):
                    ck.bad(rule, inst, endsite(st, f), 'returns %s instead of its attribute' % show(r), st)
                elif name == 'line' and r == ('fmt', want) or name == 'threadID' and r == ('fmt', want):
                    pass
                elif name in ('line', 'threadID', 'timestamp'):
                    if not mine:
                        if name == 'timestamp' and st.events('strftime'):
                            continue        # the system rejected the format: it is returned as text (C25)
                        (ck.undecided(rule, inst, show(r)) if mentions(r, lambda y: y and y[0] in ('sym', 'ld')) else
                         ck.bad(rule, inst, endsite(st, f), 'returns %s' % show(r), st))
                elif mine:
                    ck.bad(rule, inst, endsite(st, f), 'alters the attribute: %s' % show(r), st)
                elif r is None or r[0] in ('sym', 'ld'):
                    ck.undecided(rule, inst, 'returns %s' % (show(r) if r else r))
                else:
                    ck.bad(rule, inst, endsite(st, f), 'returns %s' % show(r), st)
    ck.need(n, 'accessors of LogMessage', 8)


def linear(t):
    """a time as a sum of multiples of its parts; None if it is not one"""
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
        a, b = linear(t[2]), linear(t[3])
        if a is None or b is None:
            return None
        out = dict(a)
        for y, c in b.items():
            out[y] = out.get(y, 0) + (c if t[1] == '+' else -c)
        return {y: c for y, c in out.items() if c}
    if t[0] == 'op' and t[1] == 'neg':
        a = linear(t[2])
        return None if a is None else {y: -c for y, c in a.items()}
    if t[0] == 'op' and t[1] in ('floor', 'cast', 'to_time_t', 'localtime_r', 'round', 'from_time_t', 'time_since_epoch'):
        return linear(t[2])
    if t[0] == 'i':
        return {}
    if t[0] in ('now', 'ld'):
        return {t: 1}
    return None


def check_file_name(ck):
    """the file of an entry is what follows the last separator of its path"""
    p = ck.prog()
    rule = 'file name'
    n = 0
    for f in p.functions.values():
        if f.get('rec') != 'g3::LogMessage' or f.get('kind') != 'ctor' or not f.get('body') or not any('basic_string' in q['t'] or 'char' in q['t'] for q in f['params']) or len(f['params']) < 3:
            continue
        inst = 'g3::LogMessage [%s]' % ck.cfg
        ck.ob(rule, inst, where_fn(f))
        LM = ('A', 'lm')
        I = interp(p, hooks(p, text=False))
        I.ltype[LM] = 'g3::LogMessage'
        for st, _ in live(ck.clean(I, I.run_fn(f, this=LM), rule, inst)):
            if st.comp is not None:
                continue
            n += 1
            v = I._read(st, at(LM, ('_file',)))
            path = I._read(st, at(LM, ('_file_path',)))
            if ck.cfg != 'fullname':
                judge_file_name(ck, rule, inst, endsite(st, f), v, path, st)
            elif v != path and mentions(v, lambda y: y[0] == 'op' and y[1] == 'substr') and mentions(v, lambda y: y == path):
                ck.bad(rule, inst, endsite(st, f), 'the full file name is asked for, but the entry has %s' % show(v), st)
    ck.need(n, 'constructions of entries')


def judge_file_name(ck, rule, inst, site, v, path, st):
    if v == path:
        # the whole path is fine only where it has no separator
        if not any(mentions(a, lambda y: y[0] == 'op' and y[1] in ('rfind', 'find_last_of')) for a in st.facts):
            ck.bad(rule, inst, site, 'the file of an entry is its whole path', st)
        return
    if mentions(v, lambda y: y and y[0] == 'uninit'):
        ck.bad(rule, inst, site, 'the file of an entry is computed from a value that was never set', st)
        return
    parts = []
    mentions(v, lambda y: (parts.append(y) if y[0] == 'op' and y[1] == 'substr' else None, False)[1])
    if v[0] != 'op' or v[1] != 'substr' or v[2] != path:
        return ck.undecided(rule, inst, 'file name computed as %s' % show(v)[:120])
    k = position(v[3])
    if k is None:
        return ck.undecided(rule, inst, 'file name computed as %s' % show(v)[:120])
    found, off = k
    if found[1] in ('find', 'find_first_of'):
        return ck.bad(rule, inst, site, 'the file of an entry is what follows the first separator of its path', st)
    if off != 1:
        return ck.bad(rule, inst, site, 'the file of an entry is its path from the last separator %+d on' % off, st)
    if len(found) > 3 and found[3][0] in ('s', 'i') and '/' not in (found[3][1] if found[3][0] == 's' else chr(found[3][1])):
        return ck.bad(rule, inst, site, 'the file of an entry is what follows the last of %r in its path: its directory stays' % found[3][1], st)
    if len(v) > 4 and v[4][0] == 'i' and 0 <= v[4][1] < 2 ** 31:
        ck.bad(rule, inst, site, 'the file of an entry is cut to %d characters' % v[4][1], st)


def position(t):
    """(search, offset) of a position in text"""
    if t[0] == 'op' and t[1] in ('rfind', 'find_last_of', 'find', 'find_first_of'):
        return t, 0
    if t[0] == 'op' and t[1] in ('+', '-') and t[3][0] == 'i':
        k = position(t[2])
        return k and (k[0], k[1] + (t[3][1] if t[1] == '+' else -t[3][1]))
    if t[0] == 'op' and t[1] == 'cast':
        return position(t[2])
    return None


def check_site(ck):
    """a log statement records its own file, line and function"""
    p = ck.prog()
    rule = 'place of the statement'
    n = 0
    for name in ('probe::log_stream', 'probe::log_printf', 'probe::log_if', 'probe::log_printf_if'):
        f = p.fn(name)
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst)
        I = interp(p, macro_hooks(p))
        st = I.new_state()
        level_arg(p, I, st, False)
        set_worker(p, I, st, 'set')
        for s, _ in live(ck.clean(I, I.run_fn(f, st=st), rule, inst)):
            for ev in posts(I, s):
                ms = {l for k, v in ev.st.store.items() for _, l in leafs(v) if I.recof(I.ltype.get(l) or '') and I.p.subclass_of(I.recof(I.ltype[l]), 'g3::LogMessage')}
                for m in ms:
                    if root(m)[0] != 'H':
                        continue
                    g = {path: I._read(ev.st, at(m, path)) for path in leaf_paths(p, 'g3::LogMessage')}
                    n += 1
                    ln, fn, fp = g.get(('_line',)), g.get(('_function',)), g.get(('_file_path',))
                    if ln is not None and ln[0] == 'i' and ln[1] != f['line']:
                        ck.bad(rule, inst, where_macro(p, I, s), 'the line of the entry is %s, the statement is on line %s' % (ln[1], f['line']), s)
                    if fn is not None and fn[0] == 's' and name.split('::')[1] not in fn[1]:
                        ck.bad(rule, inst, where_macro(p, I, s), 'the function of the entry is %s' % show(fn), s)
                    if fp is not None and fp[0] == 's' and not fp[1].endswith('probe.cpp'):
                        ck.bad(rule, inst, where_macro(p, I, s), 'the file of the entry is %s' % show(fp), s)
    ck.need(n, 'entries of log statements')


def where_macro(p, I, st):
    e = [x for x in st.events('enter') if x.fn and x.fn.startswith('LogCapture::LogCapture')]
    return e[0].where() if e else 'g3log/g3log.hpp:0 (macro)'


def c20(ck):
    for cfg in ['default', 'fullname'] + (['dynlevels', 'nosignals', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_capture(ck)
        check_fatal_capture(ck)
        check_copies(ck)
        check_accessors(ck)
        check_file_name(ck)
        check_site(ck)
    ck.cfg = 'default'
    pl.check_sinks(ck)
