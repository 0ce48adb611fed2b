"""C16: which levels are logged."""
from rules.common import *
from rules import macros as mc

BUILTIN = {100: 'G3LOG_DEBUG', 300: 'INFO', 500: 'WARNING', 1000: 'FATAL'}
CUSTOM = (-7, 301, 1500)
OTHER = (-2147483648, -8, 0, 99, 101, 299, 302, 700, 999, 1001, 2000, 2147483647)
INIT = 'g3::only_change_at_initialization::'
LV = 'g3::log_levels::'


def fn_of(p, name, n=None, must=True):
    fs = [f for f in p.fns(name) if f.get('body') and (n is None or len(f['params']) == n)]
    if not fs and must:
        raise AnalysisError('anchor vanished: %s' % name)
    return fs[0] if fs else None


class Registry:
    """the public operations, applied to an abstract state"""

    def __init__(self, ck):
        self.p = ck.prog()
        regs = mc.registry(self.p)
        if not regs:
            raise AnalysisError('anchor vanished: the registry of levels')
        self.I = Interp(self.p, {}, frozen=regs, max_s=120)
        self.n = 0

    def start(self):
        return self.I.new_state()

    def level(self, st, v):
        l = ('A', 'lv%d' % v)
        self.I.ltype[l] = 'LEVELS'
        self.I.mark_private(st, l)
        st.store[F(l, 'value')] = ('i', v)
        st.store[F(l, 'text')] = A('text%d' % v)
        return Arg(loc=l, t='LEVELS')

    def call(self, st, op):
        """op: (name, level or None, status or None)"""
        name, v, b = op
        args = []
        if v is not None:
            args.append(self.level(st, v))
        if b is not None:
            args.append(Arg(val=b, t='bool'))
        f = fn_of(self.p, name, len(args))
        self.n += 1
        I = self.I
        out = []
        ev0 = st.ev
        for s, r in live(I.run_fn(f, st=st, args=args)):
            out.append((s, r))
        return f, out


def model(m, op, initial):
    """the registry after an operation"""
    name, v, b = op
    m = dict(m)
    n = name.split('::')[-1]
    if n == 'addLogLevel':
        m[v] = b if b is not None else ('i', 1)
    elif n == 'reset':
        return dict(initial)
    elif n == 'set' and v in m:
        m[v] = b
    elif n in ('enable', 'disable') and v in m:
        m[v] = ('i', int(n == 'enable'))
    elif n in ('enableAll', 'disableAll'):
        m = {k: ('i', int(n == 'enableAll')) for k in m}
    elif n == 'setHighest' and v in m:
        m = {k: ('i', int(k >= v)) for k in m}
    return m


def strip_nz(t):
    while isinstance(t, tuple) and t and (t[0] == 'nz' or t[0] == 'op' and t[1] == 'b'):
        t = t[1] if t[0] == 'nz' else t[2]
    return t


def same(I, st, got, want):
    """True / False / None: a boolean term equals the expected one on this path"""
    got, want = strip_nz(got), strip_nz(want)
    if got == want:
        return True
    fs = {strip_nz(t): b for t, b in path_facts(I, st).items()}
    g = bool(got[1]) if got[0] == 'i' else fs.get(got)
    w = bool(want[1]) if want[0] == 'i' else fs.get(want)
    if g is not None and w is not None:
        return g == w
    if mentions(got, lambda y: y and y[0] in ('sym', 'ald', 'havoc') or y and y[0] == 'ld' and y[2] != 0):
        return None
    return False


def name_of(v):
    return BUILTIN.get(v, str(v))


def observe(ck, R, rule, inst, st, m, f, what, queries):
    """the registry looks as expected to every query"""
    I = R.I
    for q in queries:
        want = m.get(q)
        g, res = R.call(st.fork(), ('g3::logLevel', q, None))
        for s, v in ck.clean(I, res, rule, inst):
            if s.comp is not None:
                ck.bad(rule, inst, where_fn(g), '%s: asking for level %s fails (%s)' % (what, name_of(q), s.comp), s)
                continue
            ok = same(I, s, v, want if want is not None else ('i', 0))
            if ok is None:
                ck.undecided(rule, inst, 'state of level %s after %s: %s' % (name_of(q), what, show(v)))
            elif not ok:
                ck.bad(rule, inst, where_fn(f), 'after %s a statement of level %s is %s, expected %s' % (what, name_of(q), state_text(v), state_text(want)), s)
            if I_changes(R, s, st):
                pass
        g, res = R.call(st.fork(), (LV + 'getStatus', q, None))
        for s, v in ck.clean(I, res, rule, inst):
            if s.comp is not None or v is None or v[0] != 'i':
                ck.undecided(rule, inst, 'getStatus gives %s' % (show(v) if v else None))
                continue
            if want is None or v[1] == ABSENT:
                if (want is None) != (v[1] == ABSENT):
                    ck.bad(rule, inst, where_fn(f), 'after %s the level %s is reported as %s' % (what, name_of(q), 'absent' if v[1] == ABSENT else 'registered'), s)
                continue
            ok = same(I, s, ('i', int(v[1] == ENABLED)), want)
            if ok is None:
                ck.undecided(rule, inst, 'status of %s' % name_of(q))
            elif not ok:
                ck.bad(rule, inst, where_fn(f), 'after %s the level %s is reported as %s, expected %s' % (what, name_of(q), 'enabled' if v[1] == ENABLED else 'disabled', state_text(want)), s)


ABSENT, ENABLED, DISABLED = 0, 1, 2


def I_changes(R, s, st):
    return False


def state_text(t):
    if t is None:
        return 'absent'
    t = strip_nz(t)
    return {('i', 0): 'disabled', ('i', 1): 'enabled'}.get(t, 'in state %s' % show(t))


def status(v):
    return ('nz', A('status_of_%s' % str(v).replace('-', 'm')))


def check_operations(ck, deep):
    p = ck.prog()
    R = Registry(ck)
    I = R.I
    initial = {v: ('i', 1) for v in BUILTIN}
    values = sorted(set(BUILTIN) | set(CUSTOM) | set(OTHER))
    queries = values if deep else sorted(set(BUILTIN) | set(CUSTOM) | {-8, 101, 302, 1001})
    inst = 'initial state [%s]' % ck.cfg
    f0 = fn_of(p, 'g3::logLevel')
    ck.ob('initial', inst, where_fn(f0))
    observe(ck, R, 'initial', inst, R.start(), initial, f0, 'start', values)
    # an arbitrary registry: custom levels, every status unknown
    st = R.start()
    m = dict(initial)
    inst = 'setting up [%s]' % ck.cfg
    ck.ob('register', inst)
    setup = [(INIT + 'addLogLevel', v, status(v)) for v in CUSTOM] + [(LV + 'set', v, status(v)) for v in BUILTIN]
    # code that branches on a status: each branch is checked, then the states alternate
    for ops in (setup, [(n, v, ('i', i % 2)) for i, (n, v, _) in enumerate(setup)]):
        st, m, split = R.start(), dict(initial), False
        for op in ops:
            f, res = R.call(st, op)
            good = ck.clean(I, res, 'register', inst)
            m = model(m, op, initial)
            for s, _ in good:
                if s.comp is not None:
                    ck.bad('register', inst, where_fn(f), '%s fails (%s)' % (op[0], s.comp), s)
            if len(good) != 1 or good[0][0].comp is not None:
                for s, _ in good:
                    if s.comp is None:
                        observe(ck, R, 'register', inst, s, m, f, op[0].split('::')[-1], [op[1]])
                split = True
                break
            st = good[0][0]
        if not split:
            break
    else:
        ck.undecided('register', inst, '%s has %d outcomes' % (op[0], len(good)))
        return
    observe(ck, R, 'register', inst, st.fork(), m, fn_of(p, INIT + 'addLogLevel', 2), 'registering', queries)
    # every query was made before: none may have changed anything
    inst = 'queries [%s]' % ck.cfg
    ck.ob('queries', inst)
    s1, s2 = st.fork(), st.fork()
    for q in queries:
        for name in ('g3::logLevel', LV + 'getStatus'):
            f, res = R.call(s1, (name, q, None))
            good = [x for x in ck.clean(I, res, 'queries', inst) if x[0].comp is None]
            f, res = R.call(s2, (name, q, None))
            more = [x for x in ck.clean(I, res, 'queries', inst) if x[0].comp is None]
            if not good or not more:
                return
            # two histories: enabled levels answer first, disabled ones last
            s1, s2 = forget(good[0][0], st), forget(more[-1][0], st)
    for name in (LV + 'getAll', LV + 'to_string'):
        f, res = R.call(s1, (name, None, None))
        good = [x for x in ck.clean(I, res, 'queries', inst) if x[0].comp is None]
        if good:
            s1 = good[0][0]
            if name.endswith('getAll'):
                check_snapshot(ck, R, inst, good, m, f)
    s1 = forget(s1, st)
    for s in (s1, s2):
        observe(ck, R, 'queries', inst, s.fork(), m, fn_of(p, LV + 'getStatus'), 'asking for states', queries)
    ops = []
    for v in (values if deep else sorted(set(BUILTIN) | set(CUSTOM) | {-8, 302, 2000})):
        ops += [(LV + 'set', v, A('new')), (LV + 'set', v, ('i', 1)), (LV + 'set', v, ('i', 0)), (LV + 'enable', v, None), (LV + 'disable', v, None), (LV + 'setHighest', v, None),
                (INIT + 'addLogLevel', v, A('new')), (INIT + 'addLogLevel', v, ('i', 0)), (INIT + 'addLogLevel', v, None)]
    ops += [(LV + 'enableAll', None, None), (LV + 'disableAll', None, None), (INIT + 'reset', None, None)]
    for op in ops:
        f = fn_of(p, op[0], sum(x is not None for x in op[1:]))
        name = op[0].split('::')[-1]
        rule = {'addLogLevel': 'register', 'reset': 'register', 'setHighest': 'threshold'}.get(name, 'change')
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        f, res = R.call(s1.fork(), op)
        what = '%s(%s)' % (name, ', '.join([name_of(op[1])] if op[1] is not None else []))
        m2 = model(m, op, initial)
        for s, _ in ck.clean(I, res, rule, inst):
            if s.comp is not None:
                ck.bad(rule, inst, where_fn(f), '%s fails (%s)' % (what, s.comp), s)
                continue
            observe(ck, R, rule, inst, s, m2, f, what, queries)
    # sequences
    if deep:
        seqs = [((LV + 'setHighest', 500, None), (INIT + 'reset', None, None)), ((LV + 'disableAll', None, None), (INIT + 'addLogLevel', 301, None)),
                ((LV + 'disableAll', None, None), (LV + 'enable', 300, None)), ((INIT + 'reset', None, None), (LV + 'disableAll', None, None)),
                ((INIT + 'addLogLevel', 302, A('new')), (LV + 'setHighest', 302, None)), ((INIT + 'reset', None, None), (LV + 'setHighest', 301, None)),
                ((LV + 'disableAll', None, None), (LV + 'setHighest', 1500, None)), ((LV + 'setHighest', 1500, None), (LV + 'setHighest', -7, None)),
                ((LV + 'enableAll', None, None), (INIT + 'addLogLevel', 300, ('i', 0))), ((INIT + 'addLogLevel', 700, ('i', 0)), (INIT + 'reset', None, None)),
                ((LV + 'set', 100, A('new')), (LV + 'set', 100, A('newer'))), ((LV + 'set', 302, A('new')), (INIT + 'addLogLevel', 302, None))]
        for seq in seqs:
            names = ' then '.join(op[0].split('::')[-1] for op in seq)
            inst = 'sequence %s [%s]' % (names, ck.cfg)
            ck.ob('sequences', inst)
            states = [(st.fork(), m)]
            for op in seq:
                nxt = []
                for s, mm in states:
                    f, res = R.call(s, op)
                    nxt += [(x, model(mm, op, initial)) for x, _ in ck.clean(I, res, 'sequences', inst) if x.comp is None]
                states = nxt
            for s, mm in states:
                observe(ck, R, 'sequences', inst, s, mm, f, names, queries)
    ck.need(R.n, 'operations on the registry', 100)


def forget(s, st):
    """what an answer told about the unknown states does not hold for every registry"""
    s = s.fork()
    s.facts, s.iv = dict(st.facts), dict(st.iv)
    return s


def check_snapshot(ck, R, inst, good, m, f):
    for s, v in good:
        l = v
        mv = R.I._read(s, l) if l and l[0] in ('A', 'L', 'T', 'H', 'F') else l
        if mv and mv[0] == 'cmap':
            keys = [k[1] for k in mv[1] if k[0] == 'i']
            if sorted(keys) != sorted(m):
                ck.bad('queries', inst, where_fn(f), 'the snapshot has the levels %s, registered are %s' % (sorted(keys), sorted(m)), s)
        else:
            ck.undecided('queries', inst, 'snapshot: %s' % (show(mv) if mv else None))


def check_static(ck):
    """without dynamic levels everything is enabled"""
    p = ck.prog()
    f = fn_of(p, 'g3::logLevel')
    inst = 'logLevel [%s]' % ck.cfg
    ck.ob('all enabled', inst, where_fn(f))
    I = Interp(p, {})
    st = I.new_state()
    a = level_arg(p, I, st, None)
    for s, v in ck.clean(I, live(I.run_fn(f, st=st, args=[a])), 'all enabled', inst):
        if s.comp is not None or v is None or I.known(s, v) is not True:
            ck.bad('all enabled', inst, where_fn(f), 'a level is not enabled although levels are not dynamic', s)


def check_flag(ck):
    """the status flag holds the value it was given"""
    p = ck.prog()
    recs = [r for r in p.records if p.recname(r) == 'g3::atomicbool']
    if not recs:
        ck.undecided('status flag', 'atomicbool', 'not found')
        return
    paths = [path for path, t in all_fields(p, recs[0]) if 'atomic' in t]
    ck.need(len(paths), 'the value of atomicbool')
    fs = [f for f in p.functions.values() if f.get('rec') == recs[0] and f.get('body')]
    ck.need(len(fs), 'members of atomicbool', 4)
    for f in fs:
        n = f['sn'].split('::')[-1]
        inst = '%s(%s) [%s]' % (f['sn'], ', '.join(p.unref(q['t']) for q in f['params']), ck.cfg)
        if n.startswith('~'):
            continue
        I = Interp(p, {})
        st = I.new_state()
        T, O = ('A', 'this'), ('A', 'other')
        for l in (T, O):
            I.ltype[l] = recs[0]
            I.mark_private(st, l)
        mine, others = ('nz', A('mine')), ('nz', A('others'))
        st.store[at(T, paths[0])] = mine
        args = []
        for q in f['params']:
            t = p.unref(q['t'])
            if p.recname(t) == 'g3::atomicbool' or t == recs[0] or 'atomicbool' in t:
                st.store[at(O, paths[0])] = others
                args.append(Arg(loc=O, t=recs[0]))
            elif 'atomic' in t:
                st.store[('A', 'other')] = others
                I.ltype[O] = t
                args.append(Arg(loc=O, t=t))
            else:
                args.append(Arg(val=others, t=q['t']))
        ck.ob('status flag', inst, where_fn(f))
        for s, v in ck.clean(I, live(I.run_fn(f, this=T, st=st, args=args)), 'status flag', inst):
            now = s.store.get(at(T, paths[0]))
            if s.comp is not None:
                ck.bad('status flag', inst, where_fn(f), 'fails (%s)' % (s.comp,), s)
            elif n == 'operator==' or n == 'operator!=':
                pass
            elif n in ('atomicbool', 'operator=') and f['params']:
                if now is None or same(I, s, now, others) is False:
                    ck.bad('status flag', inst, where_fn(f), 'the flag does not take the value given (%s)' % (show(now) if now else None), s)
            elif n == 'value' and v is not None:
                if same(I, s, v, mine) is False:
                    ck.bad('status flag', inst, where_fn(f), 'the value reported is %s' % show(v), s)


def c16(ck):
    ck.cfg = 'dynlevels'
    check_operations(ck, ck.tier == 'thorough')
    check_flag(ck)
    mc.check_leveled(ck)
    for cfg in ['default'] + (['nosignals', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_static(ck)
    ck.cfg = 'default'
