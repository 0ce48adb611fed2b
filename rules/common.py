"""Anchors, entry points and predicates shared by the rules."""
import re
from interp import *
from prog import AnalysisError, pure_text, summaries, strip, walk
from flow import posts, run_task, is_task_push
import stdmodel

BLOCKING = {
    'wait': 'waits on a future', 'cv_wait': 'waits on a condition variable', 'join': 'joins a thread', 'sleep': 'sleeps',
    'cv_wait_for': 'waits on a condition variable',
}


def simple(res):
    return lambda I, st, c: [(st, res)]


def event_hook(kind, ret=('void',), **names):
    def h(I, st, c):
        a = {}
        for k, i in names.items():
            if i == 'obj':
                a[k] = c.obj
            elif isinstance(i, int) and i < len(c.args):
                x = c.args[i]
                a[k] = x.loc if x.loc is not None else x.val
                if x.loc is not None and x.t:
                    I.ltype.setdefault(x.loc, I.p.unref(x.t))
        I.emit(st, kind, c.node, c.fr, snap=True, **a)
        return [(st, ret)]
    return h


def noreturn_hook(kind, **names):
    e = event_hook(kind, **names)

    def h(I, st, c):
        r = e(I, st, c)
        for s, _ in r:
            s.comp = ('noret', kind)
        return r
    return h


def text_hook(I, st, c):
    avals = tuple((a.loc if a.loc is not None else a.val) for a in c.args)
    v = ('op', 'text', ('s', c.name), c.obj or ('null',)) + avals + (('i', I.fresh()),)
    I.emit(st, 'textfn', c.node, c.fr, fn=c.name, obj=c.obj, args=avals)
    if c.dest is not None:
        st.store[c.dest] = v
        return [(st, c.dest)]
    return [(st, v)]


def sinksend(I, st, c):
    a = c.args[0]
    I.emit(st, 'sinksend', c.node, c.fr, sink=c.obj, msg=a.loc, t=a.t, snap=True)
    return [(st, ('void',))]


def hooks(p, text=True, **more):
    h = {}
    if text:
        for k in pure_text(p):
            h['#' + k] = text_hook
    h['g3::internal::stackdump'] = text_hook
    h['g3::internal::SinkWrapper::send'] = sinksend
    h.update(more)
    return {k: v for k, v in h.items() if v is not None}


def interp(p, h=None, **opt):
    opt.setdefault('max_s', 60)
    opt.setdefault('snap', ['push'])
    return Interp(p, hooks(p) if h is None else h, **opt)


# ----------------------------------------------------------------- anchors
def worker_globals(p):
    out = []
    for k, g in p.globals.items():
        t = g['t'].replace('const ', '')
        n = strip(t)
        if 'g3::LogWorker' in t and 'LogWorkerImpl' not in t and ('*' in t):
            out.append(k)
    if not out:
        raise AnalysisError('anchor vanished: no global holding the active g3::LogWorker')
    return out


def field_of(p, rec, pred, what):
    r = p.rec_by_name.get(rec)
    if not r:
        raise AnalysisError('anchor vanished: record %s' % rec)
    for f in p.records[r[0]].get('fields', []):
        if pred(f):
            return f['n']
    raise AnalysisError('anchor vanished: %s in %s' % (what, rec))


def levels_value(p):
    return field_of(p, 'LEVELS', lambda f: p.ty(f['t']).get('k') == 'int', 'numeric level value')


def capture_level(p):
    return field_of(p, "LogCapture", lambda f: p.recname(p.rec(p.unref(f["t"])) or "") == "LEVELS", "level field")


FATAL = 1000
THIS = ('A', 'this')
LEVEL = ('A', 'level')


def A(n):
    return ('ld', ('A', n), 0)


TEXT = A('text')        # what the application streamed into the entry


def level_arg(p, I, st, fatal, loc=LEVEL, value=None):
    """an arbitrary level (fatal, not fatal, or unknown), owned by the caller"""
    I.ltype[loc] = 'LEVELS'
    I.mark_private(st, loc)
    lv = F(loc, levels_value(p))
    if value is not None:
        st.store[lv] = ('i', value)
    elif fatal is not None:
        I.assume(st, ('op', '<', I._read(st, lv), ('i', FATAL)), not fatal)
    return Arg(loc=loc, t='LEVELS')


NAMES = {'ptr': ['file', 'function', 'expression', 'dump'], 'int': ['line', 'fatal_signal']}
PTR_ARGS = {'file', 'function', 'expression', 'dump'}
SIGNAL = A('fatal_signal')


def capture_args(p, I, st, f, fatal, value=None):
    """arbitrary arguments of a log statement; the names do not depend on those in the source"""
    args = []
    lev = False
    left = {k: list(v) for k, v in NAMES.items()}
    for q in f['params']:
        if p.recname(p.rec(p.unref(q['t'])) or '') == 'LEVELS':
            args.append(level_arg(p, I, st, fatal, value=value))
            lev = True
        else:
            k = p.ty(p.unref(q['t'])).get('k')
            names = left.get('ptr' if k in ('ptr', 'rec') else 'int')
            args.append(Arg(val=A(names.pop(0) if names else q['n']), t=q['t']))
    if not lev:
        raise AnalysisError('LogCapture constructor without a level')
    return args


def capture(p, I, fatal, worker='set', value=None, st=None, ctor=None):
    """states in which an arbitrary log statement has built its LogCapture and streamed its text into it"""
    st = st or I.new_state()
    I.mark_private(st, THIS)
    I.ltype[THIS] = p.rec_by_name['LogCapture'][0]
    set_worker(p, I, st, worker)
    c = [f for f in p.fns('LogCapture::LogCapture') if len(f['params']) >= 5]
    f = ctor or (c[0] if c else None)
    if f is None:
        raise AnalysisError('anchor vanished: the LogCapture constructor')
    streams = [path for path, t in all_fields(p, 'LogCapture') if 'ostringstream' in t or 'basic_stringstream' in t]
    if len(streams) != 1:
        raise AnalysisError('anchor vanished: the stream of LogCapture')
    out = []
    for s, _ in live(I.run_fn(f, this=THIS, st=st, args=capture_args(p, I, st, f, fatal, value))):
        if s.comp is None:
            s.store[at(THIS, streams[0])] = TEXT
        out.append(s)
    return out


WORKER = ('A', 'worker')


def set_worker(p, I, st, worker):
    if worker is None:
        return st
    I.ltype[WORKER] = 'g3::LogWorker'
    for g in worker_globals(p):
        st.store[('G', g)] = ('ptr', WORKER) if worker == 'set' else ('null',)
        keep(st, ('G', g))
    if worker == 'set':
        own_worker(p, I, st)
    return st


def own_worker(p, I, st, loc=WORKER):
    """a live worker: it has its background thread (see rule 'worker has a thread')"""
    I.ltype[loc] = 'g3::LogWorker'
    keep_handles(p, I, st, loc, 'g3::LogWorker')
    for path, t in all_fields(p, 'g3::LogWorker'):
        if 'Active' in t and ('unique_ptr' in t or 'shared_ptr' in t or t.rstrip().endswith('*')):
            I.assume(st, I._read(st, at(loc, path)), True)


def owner(p, f):
    """the class whose code a function is part of (lambdas belong to the function they are written in)"""
    n = 0
    while f is not None and f.get('lambda') and n < 9:
        m = re.match(r'lambda\((.*)\)#\d+::', f['id'])
        f = p.functions.get(m.group(1)) if m else None
        n += 1
    return p.recname(f.get('rec') or '') if f is not None else ''


def is_helper(p, f, public=False):
    """a method that only methods of its own class call: it is judged where it is called"""
    hidden = public or f.get('access') in ('private', 'protected')
    c = getattr(p, '_callers', None)
    if c is None:
        c = p._callers = {}
        for k, s in summaries(p).items():
            for x in s['callees']:
                c.setdefault(x, set()).add(k)
    mine = p.recname(f.get('rec') or '')
    cs = [p.functions[k] for k in c.get(f['id'], ()) if k != f['id']]
    if not hidden and not all(g.get('kind') == 'dtor' for g in cs):
        return False
    return bool(mine) and bool(cs) and not f.get('virtual') and not f.get('virt') and all(owner(p, g) == mine for g in cs)


def run(ck, f, I, **kw):
    r = I.run_fn(f, **kw)
    return r


def ends_ok(st):
    return st.comp is None


def live(results):
    """paths that represent a complete run (not the re-entry of an already covered loop iteration)"""
    return [(s, v) for s, v in results if s.comp not in (('noret', 'loop'), ('noret', 'looplimit'))]


def where_fn(f):
    return '%s:%s (%s)' % (f['file'], f['line'], f['sn'])


def endsite(st, f):
    """where a path that misses something ends"""
    e = st.ev
    while e is not None and e.k in ('enter', 'leave'):
        e = e.prev
    if e is not None and e.site[0] not in ('?', ''):
        return '%s:%s (%s)' % (e.site[0], e.site[1], f['sn'])
    return where_fn(f)


def ptr_target(v):
    """object a pointer value points to"""
    if v is None:
        return None
    if v[0] == 'ptr':
        return v[1]
    return ('D', v)


def segments(st, loop=None):
    """iterations of a loop on this path: list of (mode, [events])"""
    out = []
    cur = None
    for e in st.events():
        if e.k == 'iter' and (loop is None or e.loop == loop):
            if cur is not None:
                out.append(cur)
            cur = (e.mode, [], e)
        elif e.k == 'loop_exit' and (loop is None or e.loop == loop):
            if cur is not None:
                out.append(cur)
            cur = None
        elif cur is not None:
            cur[1].append(e)
    if cur is not None:
        out.append(cur)
    return out


def iterations(st, loop, *kinds):
    """iterations of a loop whose body was run (not the final test of its condition)"""
    segs = segments(st, loop)
    ex = [e for e in st.events('loop_exit') if e.loop == loop]
    out = []
    for mode, es, it in segs:
        if not any(e.k in kinds for e in es) and any(last_before(st, x) is it for x in ex if x.how == 'cond'):
            continue
        out.append((mode, es, it))
    return out


def section(st, e, locks=None):
    """one number per critical section of the locks held at an event"""
    locks = set(e.locks if locks is None else locks)
    n = 0
    for x in st.events():
        if x is e:
            return n
        if x.k in ('lock', 'unlock') and x.m in locks or x.k in ('cv_wait', 'cv_wait_for'):
            n += 1
    return n


def process_start(p, I, st):
    """nothing of the library was used before: once-only initializations are still to come"""
    for k, g in p.globals.items():
        if 'once_flag' in g['t']:
            I.assume(st, ('once', ('G', k)), False)


def plain_globals(p):
    """globals of the library other than the active worker and its containers, for a process that just started"""
    ws = set(worker_globals(p))
    return [k for k, g in p.globals.items() if not g.get('const') and k not in ws and 'init' in g and 'once_flag' not in g['t'] and 'mutex' not in g['t']]


def path_facts(I, st):
    """everything decided on a path, also inside loop iterations that are over"""
    c = st.meta.get('pf')
    if c and c[0] is st.ev:
        return c[1]
    out = {}
    for e in st.events('br'):
        a, pos = I.norm_cond(e.cond)
        out[a] = bool(e.taken) == pos
    out.update(st.facts)
    st.meta['pf'] = (st.ev, out)
    return out


def last_before(st, x):
    """the start of the last iteration a loop exit ends"""
    r = None
    for e in st.events('iter', 'loop_exit'):
        if e is x:
            return r
        if e.k == 'iter' and e.loop == x.loop:
            r = e


def enclosing_loop(st, ev):
    """key of the innermost loop active at event ev"""
    stack = []
    for e in st.events():
        if e is ev:
            return stack[-1] if stack else None
        if e.k == 'loop':
            stack.append(e.loop)
        elif e.k in ('loop_exit', 'loop_again'):
            while stack and stack[-1] != e.loop:
                stack.pop()
            if stack:
                stack.pop()
    return None


def all_fields(p, rec):
    """(path, type) of the direct and nested (by value) fields of a record, bases included"""
    out = []
    r = p.records.get(rec)
    if not r:
        return out
    for b in r.get('bases', []):
        out += all_fields(p, b if isinstance(b, str) else b.get('rec') or b.get('t'))
    for f in r.get('fields', []):
        out.append(((f['n'],), f['t']))
        rr = p.rec(p.unref(f['t'])) if p.ty(f['t']).get('k') == 'rec' else None
        if rr and not (p.recname(rr) or '').startswith('std::'):
            out += [((f['n'],) + q, t) for q, t in all_fields(p, rr)]
    return out


def at(loc, path):
    for n in path:
        loc = F(loc, n)
    return loc


def keep(st, *locs):
    st.meta['keep'] = st.meta.get('keep', ()) + locs


def keep_handles(p, I, st, loc, rec):
    """pointers to background threads in an object that is being destroyed: only its own thread changes them"""
    n = 0
    for path, t in all_fields(p, rec):
        if 'Active' in t and ('unique_ptr' in t or 'shared_ptr' in t or t.rstrip().endswith('*')):
            keep(st, at(loc, path))
            n += 1
    return n


def expr_hook(name, ret):
    """an expression of the application in a log statement"""
    def h(I, st, c):
        I.emit(st, 'expr', c.node, c.fr, what=name, depth=st.depth)
        return [(st, ret(I, st) if callable(ret) else ret)]
    return h


def level_ref(I, st):
    I.ltype[LEVEL] = 'LEVELS'
    return LEVEL


def macro_hooks(p):
    return hooks(p, **{'probe::text': expr_hook('text', A('streamed')), 'probe::arg': expr_hook('arg', A('number')),
                       'probe::condition': expr_hook('condition', ('nz', A('condition'))), 'probe::level': expr_hook('level', level_ref),
                       'probe::other': expr_hook('other', ('void',)),
                       'probe::condition2': expr_hook('condition2', ('nz', A('condition2'))), 'probe::bits': expr_hook('bits', A('bits'))})


PER_CHAR = {'std::' + x for x in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'copy_if', 'remove_copy', 'remove_copy_if', 'transform', 'for_each', 'find_first_of', 'find',
                                  'count_if', 'count', 'accumulate', 'partition', 'stable_partition', 'erase_if', 'erase', 'regex_replace', 'regex_search', 'regex_match', 'replace_if',
                                  'replace_copy', 'adjacent_find', 'search', 'unique', 'mismatch', 'string_view')}


class Unsure:
    """reports violations of some rules as undecided: the code uses a construct the model of the rule does not follow"""
    def __init__(self, ck, why, rules):
        self._ck, self._why, self._rules = ck, why, rules

    def __getattr__(self, n):
        return getattr(self._ck, n)

    def bad(self, rule, inst, *rest):
        if rule in self._rules:
            return self._ck.undecided(rule, inst, self._why)
        return self._ck.bad(rule, inst, *rest)


def per_character(p, functions):
    """the place where text is handled one character at a time (a loop or an algorithm over its characters), if there is one:
    the model of strings follows whole operations on text, not such code"""
    for i in functions:
        f = p.functions.get(i)
        if not f or not f.get('body') or f.get('ext'):
            continue
        for n in walk(f['body']):
            where = '%s:%s' % (f['sn'], n.get('l', 0))
            if n.get('k') == 'call' and (n.get('n') or '').split('<')[0] in PER_CHAR and 'char' in (n.get('fn') or '') + ' '.join(map(str, n.get('pt') or ())):
                return where
            if n.get('s') not in ('for', 'while', 'do', 'range'):
                continue
            if n['s'] == 'range' and any(re.match(r'(const )?std::(__cxx11::)?(basic_string<|string\b)', str(x.get('t', ''))) for x in walk(n.get('range')) if x.get('k') in ('var', 'member')):
                return where
            for x in walk(n):
                if x.get('k') == 'call' and ('basic_string' in str(x.get('mrec', '')) and x.get('n', '').rsplit('::', 1)[-1] in ('operator[]', 'at') or x.get('n', '').endswith('::operator*') and '__normal_iterator' in x['n'] and 'char' in x['n']):
                    return where
    return None


LOOPS = ('for', 'while', 'do', 'range')


def erase_then_advance(p, functions):
    """loops that erase the character at the position they stand at and step over the one that moved into its place:
    [(function, line)]; only loops that are executed once and change their position nowhere else"""
    fns = [f for f in (p.functions.get(i) for i in functions) if f and f.get('body') and not f.get('ext')]
    inside, again = set(), set()
    for f in fns:
        for n in walk(f['body']):
            if n.get('s') in LOOPS:
                for x in walk(n):
                    if x is not n and x.get('s') in LOOPS:
                        inside.add(id(x))
                    if x.get('k') == 'call' and x.get('fn'):
                        again.add(x['fn'])
    out = []
    for f in fns:
        for n in walk(f['body']):
            if n.get('s') != 'for' or id(n) in inside or f['id'] in again or not n.get('inc') or not n.get('b'):
                continue
            v = stepped(n['inc'])
            if not v or any(x.get('s') in ('break', 'return', 'goto', 'try') or x.get('s') in LOOPS or x.get('k') in ('lambda', 'throw') for x in walk(n['b'])):
                continue
            er = [x for x in walk(n['b']) if x.get('k') == 'call' and x.get('n', '').endswith('::erase') and 'basic_string' in str(x.get('mrec'))]
            if len(er) != 1 or not one_at(er[0], v):
                continue
            if len([x for x in walk(n['b']) if changes(x, v)]) > len([x for x in walk(n['b']) if x.get('op') == '=' and x.get('k') == 'call' and changes(x, v) and any(y is er[0] for y in walk(x))]):
                continue
            out.append((f, er[0].get('l', n.get('l', 0))))
    return out


def stepped(n):
    """the variable that an expression steps forward by one"""
    while n.get('k') in ('load', 'cast', 'mat', 'cleanup', 'paren') and n.get('e'):
        n = n['e']
    x = None
    if n.get('k') == 'un' and n.get('op') in ('++', 'p++'):
        x = n['e']
    elif n.get('k') == 'call' and n.get('n', '').endswith('::operator++'):
        x = n.get('obj') or (n.get('args') or [None])[0]
    return x.get('id') if x and x.get('k') == 'var' else None


def changes(x, v):
    t = None
    if x.get('k') == 'un' and x.get('op') in ('++', '--', 'p++', 'p--') or x.get('k') in ('asg', 'casg'):
        t = x.get('a') or x.get('e')
    elif x.get('k') == 'call' and x.get('op') in ('=', '++', '--', '+=', '-='):
        t = x.get('obj') or (x.get('args') or [None])[0]
    return bool(t) and t.get('k') == 'var' and t.get('id') == v


def one_at(call, v):
    """whether erase() removes just the character at v"""
    a = call.get('args') or []
    if not a or any(x.get('k') == 'bin' or x.get('k') == 'call' and 'operator-' in x.get('n', '') for y in a for x in walk(y)):
        return False
    if not any(x.get('k') == 'var' and x.get('id') == v for x in walk(a[0])):
        return False
    return len(a) == 1 and 'normal_iterator' in str(call.get('pt')) or len(a) == 2 and a[1].get('k') == 'int' and str(a[1].get('v')) == '1'
