"""Path-sensitive, interprocedural abstract interpreter over the extracted syntax trees.

Values are provenance terms (tuples); memory is a map from abstract locations to values; each path carries branch
facts, integer intervals, the set of held locks and the ordered list of effects.  Loops run to a fixpoint with
widening of whatever changes from one iteration to the next.  Nothing is executed and no solver is involved.
"""
import os, re, sys, time
from prog import strip, AnalysisError, SPLIT

sys.setrecursionlimit(20000)
INF = float('inf')


# ------------------------------------------------------------------ locations and terms
def root(loc):
    while loc[0] in ('F', 'E'):
        loc = loc[1]
    return loc


def is_prefix(a, loc):
    while True:
        if loc == a:
            return True
        if loc[0] not in ('F', 'E'):
            return False
        loc = loc[1]


def rebase(loc, a, b):
    if loc == a:
        return b
    if loc[0] in ('F', 'E'):
        b = rebase(loc[1], a, b)
        return F(b, loc[2]) if loc[0] == 'F' else (loc[0], b) + loc[2:]
    return loc


def F(loc, name):
    if loc[0] == 'G':
        s = SPLIT.get((loc, name))
        if s is not None:
            return s
    return ('F', loc, name)


def mentions(t, pred):
    """does the term contain a subterm satisfying pred (or equal to it)"""
    if (pred(t) if callable(pred) else t == pred):
        return True
    if isinstance(t, tuple):
        return any(mentions(x, pred) for x in t if isinstance(x, tuple))
    return False


def cat(*ps):
    out = []

    def add(p):
        if p[0] == 'cat':
            for q in p[1:]:
                add(q)
        elif p[0] == 's':
            if p[1] == '':
                return
            if out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + p[1])
            else:
                out.append(p)
        else:
            out.append(p)
    for p in ps:
        add(p)
    if not out:
        return ('s', '')
    return out[0] if len(out) == 1 else ('cat',) + tuple(out)


def parts(t):
    return list(t[1:]) if t[0] == 'cat' else ([] if t == ('s', '') else [t])


def show(t, depth=0):
    """readable rendering of a term or location"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if depth > 9:
        return '...'
    if k == 'i' and len(t) == 2: return str(t[1])
    if k == 's': return repr(t[1])
    if k == 'null': return 'null'
    if k == 'F': return s(t[1]) + '.' + str(t[2])
    if k == 'E': return s(t[1]) + '[' + s(t[2]) + ']'
    if k == 'L': return re.sub(r'.*\|', '', str(t[2]))
    if k == 'G': return t[1].split('@')[0]
    if k == 'A': return t[1]
    if k == 'H': return 'heap%s' % t[1]
    if k == 'T': return 'tmp'
    if k == 'D': return '*' + s(t[1])
    if k == 'ld': return s(t[1])
    if k == 'ald': return 'atomic(%s)' % s(t[1])
    if k == 'ptr': return '&' + s(t[1])
    if k == 'cs': return 'text(%s)' % s(t[1])
    if k == 'cstr': return 'c_str(%s)' % s(t[1])
    if k == 'cat': return ' + '.join(s(x) for x in t[1:])
    if k == 'op':
        if len(t) == 4 and not t[1][0].isalpha(): return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
        return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2:]))
    if k == 'fn': return strip(str(t[2])) if len(t) > 2 else str(t[1])
    return '%s(%s)' % (k, ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


class Ev:
    __slots__ = ('k', 'a', 'site', 'locks', 'st', 'prev', 'n', 'nl')

    def __init__(self, k, a, site, locks, prev, st=None):
        self.k, self.a, self.site, self.locks, self.prev, self.st = k, a, site, locks, prev, st
        self.n = prev.n + 1 if prev else 0

    def __getattr__(self, x):
        try:
            return self.a[x]
        except KeyError:
            raise AttributeError(x)

    def get(self, x, d=None):
        return self.a.get(x, d)

    def where(self):
        return '%s:%s (%s)' % (self.site[0], self.site[1], self.site[2])

    def __repr__(self):
        return '%s %s @%s:%s%s' % (self.k, ', '.join('%s=%s' % (a, show(b) if isinstance(b, tuple) else b) for a, b in self.a.items() if a not in ('st',)),
                                   self.site[0], self.site[1], ' locks=' + ','.join(show(l) for l in self.locks) if self.locks else '')


class St:
    __slots__ = ('store', 'facts', 'iv', 'ev', 'locks', 'marks', 'gen', 'comp', 'scopes', 'heads', 'depth', 'inl', 'meta')

    def __init__(self):
        self.store, self.facts, self.iv = {}, {}, {}
        self.ev = None
        self.locks = ()
        self.marks = frozenset()
        self.gen = 0
        self.comp = None
        self.scopes = ()
        self.heads = {}
        self.depth = 0
        self.inl = ()
        self.meta = {}

    def fork(self):
        s = St.__new__(St)
        s.store, s.facts, s.iv = dict(self.store), dict(self.facts), dict(self.iv)
        s.ev, s.locks, s.marks, s.gen, s.comp, s.scopes, s.depth, s.inl = self.ev, self.locks, self.marks, self.gen, self.comp, self.scopes, self.depth, self.inl
        s.heads = dict(self.heads)
        s.meta = dict(self.meta)
        return s

    def events(self, *kinds):
        out = []
        e = self.ev
        while e is not None:
            if not kinds or e.k in kinds:
                out.append(e)
            e = e.prev
        out.reverse()
        return out


def zero_init(e):
    """an initializer that leaves all bytes of a C object zero"""
    if e is None or e['k'] in ('zero', 'null', 'nullptr'):
        return True
    if e['k'] == 'int':
        return e.get('v') in (0, '0')
    if e['k'] == 'init':
        return all(zero_init(i) for i in e.get('items') or [])
    return e['k'] == 'cast' and zero_init(e.get('e'))


def first_line(n):
    if isinstance(n, dict):
        if n.get('l'):
            return n['l']
        n = n.values()
    elif not isinstance(n, list):
        return 0
    for x in n:
        l = first_line(x)
        if l:
            return l
    return 0


class Frame:
    __slots__ = ('fn', 'uid', 'this', 'dest', 'file', 'name', 'caps', 'parent', 'ret', 'at')

    def __init__(self, fn, uid, this, dest, parent=None):
        self.fn, self.uid, self.this, self.dest, self.parent = fn, uid, this, dest, parent
        self.file = fn.get('file', '') if fn else ''
        self.name = fn.get('sn', '') if fn else '<entry>'
        self.caps = self.at = None
        self.ret = fn.get('ret') if fn else None


class Arg:
    """an evaluated argument: a location (glvalue or temporary object) or a scalar value"""
    __slots__ = ('loc', 'val', 't', 'x', 'tmp')

    def __init__(self, loc=None, val=None, t=None, x=False, tmp=False):
        self.loc, self.val, self.t, self.x, self.tmp = loc, val, t, x, tmp

    def __repr__(self):
        return 'Arg(%s)' % (show(self.loc) if self.loc is not None else show(self.val))


class Ctx:
    __slots__ = ('node', 'fr', 'obj', 'args', 'dest', 'name', 'fn', 't', 'ce')

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))


class Limit(Exception):
    pass


START, HARD = time.time(), 600


class Interp:
    def __init__(self, prog, hooks=None, **opt):
        self.p = prog
        self.hooks = dict(hooks or {})
        self.opt = opt
        self.uids = {}
        self.uidinfo = {}
        self.ltype = {}
        self.hn = 0
        self.npaths = 0
        self.max_paths = opt.get('max_paths', 6000)
        # a check as a whole answers in time, also on code that has far more paths
        self.deadline = min(time.time() + opt.get('max_s', 60), max(START + HARD, time.time() + 0.3))
        self.trace_rw = opt.get('trace_rw', False)
        self.startup = opt.get('startup', False)
        self.frozen = set(opt.get('frozen', ()))     # globals known to keep their initial value
        self.snap = set(opt.get('snap', ()))
        self.atomics = opt.get('atomics', 'fresh')
        self.cg = {}
        self.cg_busy = set()
        self.incomplete = []
        self.inlined = set()
        self.unknown = set()
        self.ncalls = 0
        import stdmodel
        self.model = stdmodel

    # ------------------------------------------------------------- small helpers
    def fresh(self):
        self.hn += 1
        return self.hn

    def heap(self, t):
        loc = ('H', self.fresh())
        self.ltype[loc] = t
        return loc

    def tmp(self, t, st=None):
        loc = ('T', self.fresh())
        self.ltype[loc] = t
        return loc

    def site(self, node, fr):
        f = fr
        while f is not None and not f.file:
            f = f.parent
        n = (node or {}).get('l') or first_line(node) or (first_line(fr.at) or (fr.fn or {}).get('line', 0) if fr is not None else 0)
        return (f.file if f else '?', n, fr.name if fr else '')

    def emit(self, st, k, node, fr, snap=False, **a):
        e = Ev(k, a, self.site(node, fr), st.locks, st.ev, st.fork() if snap or k in self.snap else None)
        st.ev = e
        return e

    def mark(self, st, note, node=None, fr=None):
        s = self.site(node, fr) if fr else ('', 0, '')
        st.marks = st.marks | {'%s @%s:%s' % (note, s[0], s[1])}

    def then(self, prs, f):
        out = []
        for st, v in prs:
            if st.comp:
                out.append((st, None))
            else:
                out.extend(f(st, v))
        return out

    def check_budget(self):
        self.ncalls += 1
        if self.ncalls % 64 == 0 and time.time() > self.deadline:
            raise Limit('time limit')

    # ------------------------------------------------------------- memory
    def shared_root(self, r):
        if r[0] == 'G':
            g = self.p.globals.get(r[1], {})
            return not g.get('const') and not g.get('tls') and r[1] not in self.frozen
        return r[0] in ('A', 'D')

    def is_const_global(self, r):
        return r[0] == 'G' and (self.p.globals.get(r[1], {}).get('const') or r[1] in self.frozen or self.startup)

    def ensure_global(self, st, r):
        """evaluate the initializer of a constant global into the state"""
        if r[0] != 'G' or ('#init', r) in st.store:
            return False
        g = self.p.globals.get(r[1])
        if not g or 'init' not in g and ('sinit' not in g or g.get('const') or self.tk(g['t']) in ('lref', 'rref')):
            return False
        if not (g.get('const') or r[1] in self.frozen or self.startup):
            return False
        if r[1] in self.cg_busy:
            return False
        if r[1] not in self.cg and 'parent' in g:
            top = r[1]
            while 'parent' in self.p.globals[top]:
                top = self.p.globals[top]['parent']
            if top in self.cg_busy:
                return False
            if top not in self.cg:
                self.cg_busy.add(top)
                fz, self.frozen = self.frozen, self.frozen | {top}
                try:
                    s = St()
                    self.cg_busy.discard(top)
                    self.ensure_global(s, ('G', top))
                finally:
                    self.frozen = fz
            self.cg[r[1]] = {k: v for k, v in self.cg.get(top, {}).items() if root(k) == r or root(k)[0] in ('H', 'T')}
        if r[1] not in self.cg:
            self.cg_busy.add(r[1])
            s = St()
            fr = Frame(None, self.uid(None, ('g', r[1])), None, None)
            fr.file = g.get('file', '')
            hk = self.hooks
            self.hooks = {}
            s.scopes = ((),)
            try:
                self.ltype[r] = g['t']
                outs = self.init(g['init'] if 'init' in g else g['sinit'], r, g['t'], s, fr)
            finally:
                self.hooks = hk
                self.cg_busy.discard(r[1])
            outs = [o for o, _ in outs if not o.comp]
            self.cg[r[1]] = {k: v for k, v in outs[0].store.items() if root(k)[0] in ('G', 'H', 'T')} if len(outs) == 1 else {}
        st.store.update({k: v for k, v in self.cg[r[1]].items() if k not in st.store})
        st.store[('#init', r)] = ('i', 1)
        return True

    def read(self, st, loc, fr=None, node=None, t=None, quiet=False):
        v = self._read(st, loc)
        if self.trace_rw and not quiet and fr is not None and self.shared_root(root(loc)):
            self.emit(st, 'rd', node, fr, loc=loc, val=v)
        return v

    def _read(self, st, loc):
        v = st.store.get(loc)
        if v is not None and v[0] != 'struct':
            return v
        # aggregate defaults of an enclosing object
        l = loc
        path = []
        while l[0] in ('F', 'E'):
            path.append((l[0], l[2]))
            l = l[1]
            pv = st.store.get(l)
            if pv is not None:
                if pv[0] == 'zero':
                    return ('i', 0)
                if pv[0] == 'struct':
                    s = pv[1]
                    if s[0] == 'val':
                        return ('op', 'field', s[1]) + tuple(('s', str(x[1])) for x in reversed(path))
                    for kk, nn in reversed(path):
                        s = (kk, s, nn)
                    return self._read(st, s)
                if pv[0] == 'op':
                    if pv[1] == 'filled' and path[-1][0] == 'E':
                        return pv[3]
                    if pv[1] in ('oldaction', 'localtime_r', 'gmtime_r', 'localtime', 'gmtime'):
                        return ('op', 'field', pv) + tuple(('s', str(x[1])) for x in reversed(path))
            s = st.store.get(('F', l, '#src'))
            if s is not None and path[-1][1] != '#src':
                for kk, nn in reversed(path):
                    s = (kk, s, nn)
                return self._read(st, s)
        if v is not None:
            return v
        r = root(loc)
        if r[0] == 'G' and loc == r and r[1].endswith('npos'):
            return ('i', 18446744073709551615)
        if r[0] == 'G' and self.ensure_global(st, r):
            return self._read(st, loc)
        if r[0] == 'S':
            return ('s', r[1])
        if r[0] in ('L', 'T', 'H') and not self.opt.get('lazy_local'):
            if r in st.meta.get('entry', ()):
                return ('ld', loc, 0)
            return ('uninit', loc)
        if self.is_const_global(r) or (r[0] == 'A' and r in st.meta.get('private', ())) or loc in st.meta.get('keep', ()):
            return ('ld', loc, 0)
        return ('ld', loc, st.gen)

    def write(self, st, loc, val, fr=None, node=None):
        if self.trace_rw and fr is not None and self.shared_root(root(loc)):
            self.emit(st, 'wr', node, fr, loc=loc, val=val)
        if self.shared_root(root(loc)) and fr is not None and not self.trace_rw:
            self.emit(st, 'wr', node, fr, loc=loc, val=val)
        if loc[0] == 'E' and self.ltype.get(loc) == 'char' and self.ltype.get(loc[1]) and self.p.recname(self.recof(self.ltype[loc[1]]) or '') == 'std::basic_string':
            st.store[loc[1]] = ('op', 'setat', self._read(st, loc[1]), loc[2], val)
        st.store[loc] = val

    def subtree(self, st, loc):
        return [k for k in st.store if k[0] in ('F', 'E') and is_prefix(loc, k) and k != loc]

    def purge(self, st, loc):
        for k in self.subtree(st, loc):
            del st.store[k]
        st.store.pop(loc, None)

    def copy_tree(self, st, src, dst, t=None):
        """bytewise / memberwise copy of an aggregate that has no modelled semantics"""
        self.purge(st, dst)
        v = st.store.get(src)
        r = root(src)
        if r[0] == 'G':
            self.ensure_global(st, r)
            v = st.store.get(src)
        for k in self.subtree(st, src):
            st.store[rebase(k, src, dst)] = st.store[k]
        if v is None:
            # lazily known
            st.store[dst] = ('struct', src)
        else:
            st.store[dst] = v

    def havoc(self, st, why=''):
        """unknown code may have run: forget everything about memory other code can reach"""
        st.gen += 1
        esc = self.escaped(st)
        for k in list(st.store):
            if k[0] == '#init':
                continue
            r = root(k)
            if r in esc or (self.shared_root(r) and not (r[0] == 'A' and r in st.meta.get('private', ()))):
                if r[0] == 'G' and self.is_const_global(r) and not self.startup:
                    continue
                if k in st.meta.get('keep', ()):
                    continue
                del st.store[k]
        old = [a for a in st.facts if self._stale(a, st)]
        for a in old:
            del st.facts[a]
        for a in [a for a in st.iv if self._stale(a, st)]:
            del st.iv[a]

    def escaped(self, st):
        return ()

    def _stale(self, t, st):
        if not isinstance(t, tuple):
            return False
        if t and t[0] == 'ld' and len(t) == 3 and t[2] < st.gen and not self.is_const_global(root(t[1])) and root(t[1])[0] in ('A', 'D', 'G') and t[1] not in st.meta.get('keep', ()):
            return True
        return False

    # ------------------------------------------------------------- facts
    def lin(self, t):
        """t as (base term, constant) for integer terms"""
        if t[0] == 'i':
            return None, t[1]
        c = 0
        while t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-') and t[3][0] == 'i':
            c += t[3][1] if t[1] == '+' else -t[3][1]
            t = t[2]
        return t, c

    def arith(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                if op == '+': return ('i', x + y)
                if op == '-': return ('i', x - y)
                if op == '*': return ('i', x * y)
                if op == '/': return ('i', int(x / y)) if y else ('op', op, a, b)
                if op == '%': return ('i', x - y * int(x / y)) if y else ('op', op, a, b)
                if op == '&': return ('i', x & y)
                if op == '|': return ('i', x | y)
                if op == '^': return ('i', x ^ y)
                if op == '<<' and 0 <= y < 128: return ('i', x << y)
                if op == '>>' and 0 <= y < 128: return ('i', x >> y)
            except Exception:
                pass
        if op in ('+', '-') and (a[0] != 'f' and b[0] != 'f'):
            ta, ca = self.lin(a)
            tb, cb = self.lin(b)
            if op == '+' and tb is None or op == '-' and tb is None:
                c = ca + cb if op == '+' else ca - cb
                if c == 0:
                    return ta
                return ('op', '+', ta, ('i', c)) if c > 0 else ('op', '-', ta, ('i', -c))
            if op == '+' and ta is None:
                return self.arith('+', b, a)
            if op == '-' and ta == tb:
                return ('i', ca - cb)
        if op == '*' and ('i', 1) in (a, b):
            return b if a == ('i', 1) else a
        if op == '/' and b == ('i', 1):
            return a
        return ('op', op, a, b)

    def bounds(self, st, t):
        if t[0] == 'i':
            return t[1], t[1]
        b, c = self.lin(t)
        if b is None:
            return c, c
        lo, hi = st.iv.get(b, (-INF, INF))
        if b[0] in ('size', 'len'):
            lo = max(lo, 0)
        if b[0] == 'op' and b[1] == '%' and b[3][0] == 'i' and b[3][1] > 0:
            lo, hi = max(lo, -b[3][1] + 1), min(hi, b[3][1] - 1)
        return lo + c, hi + c

    def order(self, st, a, b):
        """provable order between two terms from recorded comparisons: '<', '=', '>', '<=', '>=', '!=' or None"""
        if a == b:
            return '='
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if ha < lb: return '<'
        if la > hb: return '>'
        if la == ha == lb == hb: return '='
        # graph reachability over recorded facts
        edges = {}
        for f, v in st.facts.items():
            if f[0] == '<':
                x, y = f[1], f[2]
                if v:
                    edges.setdefault(x, []).append((y, True))
                else:
                    edges.setdefault(y, []).append((x, False))
            elif f[0] == '==' and v:
                edges.setdefault(f[1], []).append((f[2], False))
                edges.setdefault(f[2], []).append((f[1], False))

        def reach(x, y):
            best = {x: False}
            todo = [(x, False)]
            res = None
            while todo:
                n, s = todo.pop()
                for m, ss in edges.get(n, []):
                    ns = s or ss
                    if m == y:
                        res = ns if res is None else (res or ns)
                    if m not in best or (ns and not best[m]):
                        best[m] = ns
                        todo.append((m, ns))
            return res
        r1 = reach(a, b)
        r2 = reach(b, a)
        if r1 is True: return '<'
        if r2 is True: return '>'
        if r1 is False and r2 is False: return '='
        ne = st.facts.get(self.eqatom(a, b))
        if ne is False:
            if r1 is False: return '<'
            if r2 is False: return '>'
            return '!='
        if r1 is False or ha <= lb: return '<='
        if r2 is False or la >= hb: return '>='
        return None

    @staticmethod
    def eqatom(a, b):
        return ('==', a, b) if repr(a) <= repr(b) else ('==', b, a)

    def norm_cond(self, c):
        """(atom, positive) for a condition term"""
        pos = True
        while True:
            if c[0] == 'op' and c[1] == '!':
                pos = not pos
                c = c[2]
                continue
            if c[0] == 'op' and len(c) == 4 and c[1] in ('==', '!='):
                a, b = c[2], c[3]
                if c[1] == '!=':
                    pos = not pos
                for x, y in ((a, b), (b, a)):
                    if x == ('i', 1) and self.boolish(y):
                        c = y
                        break
                    if x == ('i', 0) and self.boolish(y):
                        c = y
                        pos = not pos
                        break
                    if x == ('null',):
                        c = y
                        pos = not pos
                        break
                else:
                    return ('==', a, b), pos
                continue
            if c[0] == 'op' and len(c) == 4 and c[1] in ('<', '>', '<=', '>='):
                a, b = c[2], c[3]
                if c[1] == '>': a, b = b, a
                elif c[1] == '<=': a, b, pos = b, a, not pos
                elif c[1] == '>=': pos = not pos
                if a[0] == 'op' and 'find' in a[1] and len(a) > 2 and b == ('size', a[2]):
                    return ('==', a, ('i', 18446744073709551615)), not pos      # a position inside is one that was found
                return ('<', a, b), pos
            return c, pos

    def boolish(self, t):
        return t[0] in ('empty', 'has', 'alive', 'once', 'nz', 'btrue', 'contains', 'ready') or t[0] == 'op' and t[1] in ('==', '!=', '<', '>', '<=', '>=', '!', 'b') or t[0] == 'ald' and t[-1] == 'b'

    def known(self, st, c):
        """True / False / None"""
        a, pos = self.norm_cond(c)
        r = self._known(st, a)
        return r if r is None else (r == pos)

    def _known(self, st, a):
        k = a[0]
        if k == 'i': return a[1] != 0
        if k == 'f': return a[1] != 0
        if k in ('ptr', 'fn', 'func', 'mfn', 'closure'): return True
        if k == 'cstr': return True
        if k == 'null': return False
        if k == 'zero': return False
        if k == 's': return True
        if k == '==':
            x, y = a[1], a[2]
            if x == y: return True
            if x[:2] == ('sym', 'thread_id') or y[:2] == ('sym', 'thread_id'):
                u, w = (x, y) if x[:2] == ('sym', 'thread_id') else (y, x)
                if w[:2] == ('sym', 'thread_id') and u[2][0] == w[2][0] == 'i': return u[2] == w[2]
                if w in (('i', 0), ('zero',)): return False          # no thread
            ptrs = ('ptr', 'null', 'fn', 'cstr')
            if x[0] in ptrs and y[0] in ptrs:
                if x[0] != y[0]: return False
                if x[0] == 'fn': return x[1] == y[1]
                if x[0] == 'ptr' and x[1][0] == 'E' and y[1][0] == 'E' and x[1][1] == y[1][1]:
                    return self._known(st, ('==', x[1][2], y[1][2]))
                rx, ry = root(x[1]), root(y[1])
                if rx != ry and (rx[0] in 'LTHS' or ry[0] in 'LTHS'): return False
            if x[0] == 's' and y[0] == 's': return x[1] == y[1]
            if x[0] == 'i' and y[0] == 'i': return x[1] == y[1]
            for u, v in ((x, y), (y, x)):
                if u == ('i', 0) and v[0] == 'size':
                    e = self._known(st, ('empty', v[1]))
                    if e is not None: return e
            o = self.order(st, x, y)
            if o == '=': return True
            if o in ('<', '>', '!='): return False
            return st.facts.get(self.eqatom(x, y))
        if k == '<':
            o = self.order(st, a[1], a[2])
            if o == '<': return True
            if o in ('=', '>', '>='): return False
            if a[1] == ('i', 0) and a[2][0] == 'size':
                e = self._known(st, ('empty', a[2][1]))
                if e is not None: return not e
            # t <= n facts through intervals
            return st.facts.get(a)
        if k == 'empty':
            v = a[1]
            if v[0] == 'seq': return v[1] == 0
            if v[0] in ('cpush', 'cins', 'cpushf'): return False
            if v[0] == 'cmap': return not v[1]
            if v[0] == 's': return v[1] == ''
            if v[0] == 'cat' and any(p[0] == 's' and p[1] for p in v[1:]): return False
            if v[0] in ('cat',) and any(self._known(st, ('empty', p)) is False for p in v[1:]): return False
            if v[0] == 'fmt': return False
            lo, hi = st.iv.get(('size', v), (0, INF))
            if lo >= 1: return False
            if hi == 0: return True
            r = st.facts.get(a)
            if r is None:
                r = st.facts.get(self.eqatom(('i', 0), ('size', v)))
            return r
        if k == 'has':
            v, key = a[1], a[2]
            if v[0] == 'cins':
                e = self._known(st, ('==', v[2], key))
                if e is True: return True
                if e is False: return self._known(st, ('has', v[1], key))
                return st.facts.get(a)
            if v[0] == 'cdel':
                e = self._known(st, ('==', v[2], key))
                if e is True: return False
                if e is False: return self._known(st, ('has', v[1], key))
                return st.facts.get(a)
            if v[0] == 'seq' and v[1] == 0: return False
            return st.facts.get(a)
        if k == 'op' and a[1] == 'b':
            return self._known(st, a[2])
        r = st.facts.get(('nz', a))
        if r is not None:
            return r
        if k in ('ld', 'op', 'ald', 'sym', 'len', 'size'):
            lo, hi = self.bounds(st, a)
            if lo > 0 or hi < 0: return True
            if lo == 0 and hi == 0: return False
            if self.lin(a)[0] != a: pass
        if k == 'size':
            e = self._known(st, ('empty', a[1]))
            if e is not None: return not e
        return None

    def assume(self, st, c, val):
        """record the outcome of a condition; False if it contradicts what is known"""
        a, pos = self.norm_cond(c)
        v = (val == pos)
        k = self._known(st, a)
        if k is not None:
            return k == v
        kind = a[0]
        if kind == '==':
            x, y = a[1], a[2]
            for u, w in ((x, y), (y, x)):
                if u[0] == 'i':
                    b, cc = self.lin(w)
                    if b is not None:
                        n = u[1] - cc
                        lo, hi = st.iv.get(b, (-INF, INF))
                        if v:
                            st.iv[b] = (n, n)
                        else:
                            if lo == n: lo = n + 1
                            if hi == n: hi = n - 1
                            if b[0] in ('size', 'len') and n == 0: lo = max(lo, 1)
                            st.iv[b] = (lo, hi)
                        if b[0] == 'size' and n == 0:
                            st.facts[('empty', b[1])] = v
            if v and x[0] != 'i' and y[0] != 'i' and self.wlike(x) and self.wlike(y):
                (bx, cx), (by, cy) = self.lin(x), self.lin(y)
                (lx, hx), (ly, hy) = self.bounds(st, x), self.bounds(st, y)
                lo, hi = max(lx, ly), min(hx, hy)
                for b, c in ((bx, cx), (by, cy)):
                    if b is not None and (lo, hi) != (-INF, INF):
                        st.iv[b] = (lo - c, hi - c)
            st.facts[self.eqatom(x, y)] = v
            return True
        if kind == '<':
            x, y = a[1], a[2]
            bx, cx = self.lin(x)
            by, cy = self.lin(y)
            if by is None and bx is not None:
                n = cy - cx            # bx < n
                lo, hi = st.iv.get(bx, (-INF, INF))
                st.iv[bx] = (lo, min(hi, n - 1)) if v else (max(lo, n), hi)
            elif bx is None and by is not None:
                n = cx - cy            # n < by
                lo, hi = st.iv.get(by, (-INF, INF))
                st.iv[by] = (max(lo, n + 1), hi) if v else (lo, min(hi, n))
                if by[0] == 'size':
                    if v and n >= 0: st.facts[('empty', by[1])] = False
                    if not v and n <= 0: st.facts[('empty', by[1])] = True
            st.facts[a] = v
            return True
        if kind == 'empty':
            st.facts[a] = v
            lo, hi = st.iv.get(('size', a[1]), (0, INF))
            st.iv[('size', a[1])] = (0, 0) if v else (max(lo, 1), hi)
            return True
        if kind == 'has':
            st.facts[a] = v
            if v: st.facts[('empty', a[1])] = False
            return True
        if kind == 'op' and a[1] == 'b':
            return self.assume(st, a[2], v)
        if kind in ('alive', 'once', 'sinit', 'contains', 'ready'):
            st.facts[('nz', a)] = v
            return True
        st.facts[('nz', a)] = v
        if kind in ('ld', 'op', 'sym', 'size') and not v:
            b, cc = self.lin(a)
            if b is not None and kind != 'op':
                st.iv.setdefault(b, (0, 0)) if False else None
        if kind == 'size':
            self.assume(st, ('empty', a[1]), not v)
        return True

    def decide(self, st, c, node=None, fr=None):
        """split on a condition: list of (state, bool)"""
        k = self.known(st, c)
        if k is not None:
            return [(st, k)]
        s2 = st.fork()
        out = []
        if self.assume(st, c, True):
            self.emit(st, 'br', node, fr, cond=c, taken=True)
            out.append((st, True))
        if self.assume(s2, c, False):
            self.emit(s2, 'br', node, fr, cond=c, taken=False)
            out.append((s2, False))
        return out

    # ------------------------------------------------------------- types
    def tk(self, t):
        return self.p.ty(t).get('k')

    def recof(self, t):
        return self.p.rec(self.p.unref(t))

    # ------------------------------------------------------------- expressions
    def rv(self, e, st, fr):
        """prvalue of scalar type (or decayed pointer)"""
        k = e['k']
        m = getattr(self, 'rv_' + k, None)
        if m is not None:
            return m(e, st, fr)
        if k in ('var', 'mem', 'idx') or e.get('lv'):
            return self.then(self.lv(e, st, fr), lambda s, l: [(s, self.read(s, l, fr, e))])
        self.mark(st, 'unsupported expression ' + k + ' ' + str(e.get('kind', '')), e, fr)
        return [(st, ('sym', 'expr', self.fresh()))]

    def rv_int(self, e, st, fr):
        return [(st, ('i', int(e['v'])))]

    def rv_float(self, e, st, fr):
        return [(st, ('f', e['v']))]

    def rv_null(self, e, st, fr):
        return [(st, ('null',))]

    def rv_zero(self, e, st, fr):
        k = self.tk(e['t'])
        return [(st, ('null',) if k in ('ptr', 'nullptr', 'memptr') else ('i', 0))]

    def rv_fn(self, e, st, fr):
        return [(st, ('fn', e['id'], e['n'], bool(e.get('virt'))))]

    def rv_fieldptr(self, e, st, fr):
        return [(st, ('fieldptr', e['rec'], e['f']))]

    def rv_this(self, e, st, fr):
        return [(st, ('ptr', self.this_of(st, fr)))]

    def this_of(self, st, fr):
        f = fr
        if f.caps is not None and '#this' in f.caps:
            loc = f.caps['#this']
            v = st.store.get(loc)
            if v is None:
                v = self._read(st, loc)
            if v[0] == 'ptr':
                return v[1]
            if v[0] == 'ref':
                return v[1]
            return self.deref(v)
        return f.this

    def rv_typeid(self, e, st, fr):
        return [(st, ('sym', 'typeid'))]

    def rv_vaarg(self, e, st, fr):
        return [(st, ('sym', 'vaarg', self.fresh()))]

    def rv_load(self, e, st, fr):
        def go(s, l):
            if l[0] == 'bitref':
                return [(s, l[1])]
            return [(s, self.read(s, l, fr, e['e']))]
        return self.then(self.lv(e['e'], st, fr), go)

    def rv_lambda(self, e, st, fr):
        loc = self.tmp(e['t'])
        return self.init(e, loc, e['t'], st, fr)

    def deref(self, v):
        if v[0] == 'ptr':
            return v[1]
        return ('D', v)

    def as_bool(self, v):
        if v[0] == 'i':
            return ('i', 1 if v[1] else 0)
        return v

    def rv_cast(self, e, st, fr):
        ck = e['ck']
        if ck == 'ArrayToPointerDecay':
            el = self.p.ty(self.p.ty(e['t']).get('el')) if e.get('t') else {}
            if el.get('k') == 'int' and el.get('bits') == 8:
                return self.then(self.lv(e['e'], st, fr), lambda s, l: [(s, ('ptr', l))])
            return self.then(self.lv(e['e'], st, fr), lambda s, l: [(s, ('ptr', l if l[0] == 'S' else ('E', l, ('i', 0))))])
        if ck == 'ToVoid':
            return self.then(self.discard(e['e'], st, fr), lambda s, v: [(s, ('void',))])
        if e['e'].get('lv') and e['e']['k'] not in ('call',) and e.get('lv'):
            return self.then(self.lv(e['e'], st, fr), lambda s, l: [(s, self.read(s, l, fr, e))])

        def go(s, v):
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean', 'FloatingToBoolean'):
                kn = self.known(s, v)
                if kn is not None:
                    return [(s, ('i', int(kn)))]
                return [(s, ('op', 'b', v))] if not self.boolish(v) else [(s, v)]
            if ck == 'IntegralCast' and v[0] == 'i':
                ty = self.p.ty(e['t'])
                if ty.get('k') == 'bool':
                    return [(s, ('i', int(bool(v[1]))))]
                if ty.get('bits') and v[1] < 0 and not ty.get('sgn'):
                    return [(s, ('i', v[1] % (1 << ty['bits'])))]
                return [(s, v)]
            if ck == 'IntegralCast':
                ty, ot = self.p.ty(e['t']), self.p.ty(e['e'].get('t'))
                if ty.get('bits') and ot.get('bits') and (ty['bits'] < ot['bits']):
                    return [(s, ('op', 'trunc%d%s' % (ty['bits'], 's' if ty.get('sgn') else 'u'), v))]
                if ty.get('k') == 'int' and ot.get('k') == 'int' and ot.get('sgn') and not ty.get('sgn'):
                    if self.bounds(s, v)[0] < 0 and not self.opt.get('ignore_sign', True):
                        return [(s, ('op', 'tou', v))]
                return [(s, v)]
            if ck == 'BooleanToSignedIntegral' or ck == 'IntegralToPointer':
                return [(s, v)]
            if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                if ck == 'IntegralToFloating' and v[0] == 'i' and abs(v[1]) < 2 ** 24:
                    return [(s, ('f', float(v[1])))]
                to = self.nocv(self.p.unref(e['t'])) if ck != 'FloatingToIntegral' else ''
                if ck == 'FloatingCast' and v[0] == 'f' and to in ('double', 'long double'):
                    return [(s, v)]
                return [(s, ('op', ck + {'float': '32', 'long double': '80'}.get(to, ''), v))]
            return [(s, v)]
        return self.then(self.rv(e['e'], st, fr), go)

    def rv_cleanups(self, e, st, fr):
        return self.full(st, fr, lambda s: self.rv(e['e'], s, fr), e)

    def rv_bindtmp(self, e, st, fr):
        return self.rv(e['e'], st, fr)

    def rv_mat(self, e, st, fr):
        return self.then(self.lv(e, st, fr), lambda s, l: [(s, self.read(s, l, fr, e))])

    def rv_un(self, e, st, fr):
        op = e['op']
        if op == '&':
            def addr(s, l):
                if l[0] == 'D':
                    return [(s, l[1])]
                return [(s, ('ptr', l))]
            return self.then(self.lv(e['e'], st, fr), addr)
        if op == '*':
            return self.then(self.lv(e, st, fr), lambda s, l: [(s, self.read(s, l, fr, e))])
        if op in ('++', '--', 'p++', 'p--'):
            def inc(s, l):
                v = self.read(s, l, fr, e)
                if v[0] == 'ptr' and v[1][0] == 'E':
                    n = ('ptr', ('E', v[1][1], self.arith(op[-1], v[1][2], ('i', 1))))
                elif v[0] == 'ptr':
                    n = ('ptr', ('E', v[1], ('i', 1 if op[-1] == '+' else -1)))
                else:
                    n = self.arith(op[-1], v, ('i', 1))
                self.write(s, l, n, fr, e)
                return [(s, v if op[0] == 'p' else n)]
            return self.then(self.lv(e['e'], st, fr), inc)

        def go(s, v):
            if op == '!':
                kn = self.known(s, v)
                if kn is not None:
                    return [(s, ('i', int(not kn)))]
                return [(s, ('op', '!', v))]
            if op == '-':
                if v[0] == 'i': return [(s, ('i', -v[1]))]
                if v[0] == 'f': return [(s, ('f', -v[1]))]
                return [(s, ('op', 'neg', v))]
            if op == '+': return [(s, v)]
            if op == '~' and v[0] == 'i': return [(s, ('i', ~v[1]))]
            return [(s, ('op', op, v))]
        return self.then(self.rv(e['e'], st, fr), go)

    def rv_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, v in self.rv(e['a'], st, fr):
                if s.comp:
                    out.append((s, None))
                    continue
                for s2, b in self.decide(s, v, e, fr):
                    if b == (op == '||'):
                        out.append((s2, ('i', int(b))))
                    else:
                        out.extend(self.then(self.rv(e['b'], s2, fr), lambda s3, w: [(s3, self.boolval(s3, w))]))
            return out
        if op == ',':
            return self.then(self.discard(e['a'], st, fr), lambda s, _: self.rv(e['b'], s, fr))
        return self.then(self.rv(e['a'], st, fr), lambda s, a: self.then(self.rv(e['b'], s, fr), lambda s2, b: [(s2, self.binop(s2, op, a, b))]))

    def boolval(self, st, w):
        k = self.known(st, w)
        if k is not None:
            return ('i', int(k))
        return w if self.boolish(w) else ('op', 'b', w)

    def binop(self, st, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            t = ('op', op, a, b)
            k = self.known(st, t)
            return t if k is None else ('i', int(k))
        if a[0] == 'ptr' or (b[0] == 'ptr' and op == '+'):
            if b[0] == 'ptr' and op == '+':
                a, b = b, a
            if op in '+-' and b[0] != 'ptr':
                l = a[1]
                if l[0] == 'E':
                    i = self.arith(op, l[2], b)
                    return ('ptr', ('E', l[1], i)) if i != ('i', 0) else ('ptr', ('E', l[1], i))
                return ('ptr', ('E', l, self.arith(op, ('i', 0), b)))
        return self.arith(op, a, b)

    def rv_asg(self, e, st, fr):
        return self.then(self.lv_asg(e, st, fr), lambda s, l: [(s, self.read(s, l, fr, e, quiet=True))])

    def lv_asg(self, e, st, fr):
        op = e['op']

        def withr(s, r):
            def go(s2, l):
                if op == '=':
                    nv = r
                else:
                    old = self.read(s2, l, fr, e)
                    nv = self.binop(s2, op[:-1], old, r)
                self.write(s2, l, nv, fr, e)
                return [(s2, l)]
            return self.then(self.lv(e['a'], s, fr), go)
        return self.then(self.rv(e['b'], st, fr), withr)

    def rv_cond(self, e, st, fr):
        return self.branch_on(e['c'], st, fr, lambda s, b: self.rv(e['a'] if b else e['b'], s, fr), e)

    def branch_on(self, c, st, fr, f, node):
        out = []
        for s, v in self.rv(c, st, fr):
            if s.comp:
                out.append((s, None))
                continue
            for s2, b in self.decide(s, v, c if c.get('l') else node, fr):
                out.extend(f(s2, b))
        return out

    def rv_call(self, e, st, fr):
        t = e['t']
        if e.get('lv'):
            return self.then(self.call(e, st, fr, None), lambda s, l: [(s, self.read(s, l, fr, e) if l is not None and l[0] in 'LGATHDFES' else (l or ('sym', 'r', self.fresh())))])
        if self.p.isrec(t):
            loc = self.tmp(t)
            return self.call(e, st, fr, loc)
        return self.call(e, st, fr, None)

    def rv_ctor(self, e, st, fr):
        return self.init(e, self.tmp(e['t']), e['t'], st, fr)

    def rv_str(self, e, st, fr):
        return [(st, ('ptr', ('S', e['v'])))]

    def rv_new(self, e, st, fr):
        t = e['ty']
        loc = self.heap(t)

        def done(s):
            self.emit(s, 'new', e, fr, loc=loc, t=t)
            return [(s, ('ptr', loc))]
        if e.get('n'):
            return self.then(self.rv(e['n'], st, fr), lambda s, n: (s.store.__setitem__(('#len', loc), n), done(s))[1])
        if e.get('init') is None:
            return done(st)
        return self.then(self.init(e['init'], loc, t, st, fr), lambda s, _: done(s))

    def rv_del(self, e, st, fr):
        def go(s, v):
            return [(x, ('void',)) for x in self.destroy_ptr(s, v, e['dt'], fr, e)]
        return self.then(self.rv(e['e'], st, fr), go)

    def rv_throw(self, e, st, fr):
        if e.get('e') is None:
            st.comp = ('thr', st.meta.get('current_exc', ('exc', '?', None)))
            return [(st, None)]
        t = e['e']['t']

        def go(s, l):
            s.comp = ('thr', ('exc', self.p.recname(self.p.rec(t)) if self.p.isrec(t) else t, l))
            self.emit(s, 'throw', e, fr, what=s.comp[1][1])
            return [(s, None)]
        if self.p.isrec(t):
            loc = self.heap(t)
            return self.then(self.init(e['e'], loc, t, st, fr), go)
        return self.then(self.rv(e['e'], st, fr), go)

    def rv_stmtexpr(self, e, st, fr):
        out = []
        for s in self.exec(e['b'], st, fr):
            out.append((s, ('sym', 'stmtexpr', self.fresh())))
        return out

    def rv_init(self, e, st, fr):
        its = e.get('items') or []
        if self.p.isrec(e['t']) or self.tk(e['t']) == 'array':
            return self.init(e, self.tmp(e['t']), e['t'], st, fr)
        if not its:
            return self.rv_zero(e, st, fr)
        return self.rv(its[0], st, fr)

    def rv_opaque(self, e, st, fr):
        self.mark(st, 'unsupported expression ' + str(e.get('kind')), e, fr)
        return [(st, ('sym', 'opaque', self.fresh()))]

    # ----- glvalues
    def var_loc(self, e, st, fr):
        i = e['id']
        if e['vk'] in ('global', 'static'):
            loc = ('G', i)
            self.ltype.setdefault(loc, self.p.globals.get(i, {}).get('t') or e['t'])
            if e.get('ref'):
                v = st.store.get(loc)
                if v is None:
                    self.ensure_global(st, loc)
                    v = st.store.get(loc)
                return v[1] if v and v[0] == 'ref' else ('D', ('ld', loc, 0))
            return loc
        f = fr
        while f is not None:
            if f.caps is not None and i in f.caps:
                cl, byref = f.caps[i]
                if byref:
                    v = st.store.get(cl)
                    return v[1] if v and v[0] == 'ref' else ('D', ('ld', cl, st.gen))
                v = st.store.get(cl)
                if v and v[0] == 'ref':
                    return v[1]
                return cl
            r = st.store.get(('R', f.uid, i))
            if r is not None:
                return r
            break
        loc = ('L', fr.uid, i)
        if loc not in self.ltype:
            self.ltype[loc] = e['t']
        return loc

    def lv(self, e, st, fr):
        k = e['k']
        if k == 'var':
            return [(st, self.var_loc(e, st, fr))]
        if k == 'mem':
            return self.lv_mem(e, st, fr)
        if k == 'un':
            if e['op'] == '*':
                return self.then(self.rv(e['e'], st, fr), lambda s, v: [(s, self.deref(v))])
            if e['op'] in ('++', '--'):
                def inc(s, l):
                    v = self.read(s, l, fr, e)
                    self.write(s, l, self.binop(s, e['op'][0], v, ('i', 1)), fr, e)
                    return [(s, l)]
                return self.then(self.lv(e['e'], st, fr), inc)
        if k == 'idx':
            def go(s, b):
                def g2(s2, i):
                    if b[0] == 'ptr':
                        l = b[1]
                        if l[0] == 'E' and l[2][0] == 'i':
                            return [(s2, ('E', l[1], self.arith('+', l[2], i)))]
                        return [(s2, ('E', l, i))]
                    return [(s2, ('E', ('D', b), i))]
                return self.then(self.rv(e['i'], s, fr), g2)
            return self.then(self.rv(e['b'], st, fr), go)
        if k == 'str':
            return [(st, ('S', e['v']))]
        if k == 'mat':
            return self.lv_mat(e, st, fr)
        if k == 'cast':
            return self.lv(e['e'], st, fr)
        if k == 'asg':
            return self.lv_asg(e, st, fr)
        if k == 'cond':
            return self.branch_on(e['c'], st, fr, lambda s, b: self.lv(e['a'] if b else e['b'], s, fr), e)
        if k == 'bin' and e['op'] == ',':
            return self.then(self.discard(e['a'], st, fr), lambda s, _: self.lv(e['b'], s, fr))
        if k == 'call':
            if self.p.isrec(e['t']) and not e.get('lv'):
                return self.call(e, st, fr, self.tmp(e['t']))
            return self.call(e, st, fr, None)
        if k == 'cleanups':
            return self.full(st, fr, lambda s: self.lv(e['e'], s, fr), e)
        if k == 'bindtmp':
            return self.lv_tmp(e, st, fr)
        if k in ('ctor', 'lambda', 'init'):
            return self.lv_tmp(e, st, fr)
        if k == 'fn':
            return [(st, ('fn', e['id'], e['n'], bool(e.get('virt'))))]
        if k == 'this':
            return [(st, self.this_of(st, fr))]
        if k == 'throw':
            return self.rv(e, st, fr)
        if k == 'load':
            return self.lv(e['e'], st, fr)
        if k == 'rv' or not e.get('lv'):
            loc = self.tmp(e['t'])

            def put(s, v):
                s.store[loc] = v
                return [(s, loc)]
            return self.then(self.rv(e, st, fr), put)
        self.mark(st, 'unsupported lvalue ' + k, e, fr)
        return [(st, ('D', ('sym', 'lv', self.fresh())))]

    def lv_mem(self, e, st, fr):
        def go(s, b):
            loc = F(b, e['f'])
            self.ltype.setdefault(loc, e['t'])
            if e.get('ref'):
                v = self._read(s, loc)
                if self.trace_rw and self.shared_root(root(loc)):
                    self.emit(s, 'rd', e, fr, loc=loc, val=v)
                return [(s, v[1] if v[0] == 'ref' else self.deref(v))]
            return [(s, loc)]
        b = e['b']
        if e.get('arrow'):
            return self.then(self.rv(b, st, fr), lambda s, v: go(s, self.deref(v)))
        if b.get('lv') or b['k'] in ('var', 'mem', 'un', 'this'):
            return self.then(self.lv(b, st, fr), go)
        return self.then(self.lv_tmp(b, st, fr), go)

    def lv_mat(self, e, st, fr):
        return self.lv_tmp(e['e'], st, fr, ext=e.get('ext'))

    def lv_tmp(self, e, st, fr, ext=False):
        """materialize a prvalue"""
        t = e['t']
        if e.get('lv') and e['k'] not in ('bindtmp',):
            return self.lv(e, st, fr)
        loc = self.tmp(t)
        if self.p.isrec(t):
            def reg(s, _):
                self.add_tmp(s, loc, t, ext)
                return [(s, loc)]
            return self.then(self.init(e, loc, t, st, fr), reg)
        if self.tk(t) == 'array':
            return self.init(e, loc, t, st, fr)

        def put(s, v):
            s.store[loc] = v
            return [(s, loc)]
        return self.then(self.rv(e, st, fr), put)

    def add_tmp(self, st, loc, t, ext=False):
        sc = list(st.scopes)
        if not sc:
            return
        if ext:
            for i in range(len(sc) - 1, -1, -1):
                if not (sc[i] and sc[i][0] == ('#full',)):
                    sc[i] = sc[i] + ((loc, t),)
                    break
        else:
            sc[-1] = sc[-1] + ((loc, t),)
        st.scopes = tuple(sc)

    def full(self, st, fr, f, node):
        st.scopes = st.scopes + ((('#full',),),)
        n = len(st.scopes)
        out = []
        for s, v in f(st):
            for s2 in self.leave(s, n, fr, node):
                out.append((s2, v))
        return out

    def leave(self, st, n, fr, node):
        """leave scope number n, destroying what it owns"""
        if st.comp and st.comp[0] == 'noret':
            st.scopes = st.scopes[:n - 1]
            return [st]
        assert len(st.scopes) >= n, (len(st.scopes), n)
        items = [x for x in st.scopes[n - 1] if x != ('#full',)]
        st.scopes = st.scopes[:n - 1]
        comp = st.comp
        st.comp = None
        sts = [st]
        for loc, t in reversed(items):
            nxt = []
            for s in sts:
                if s.comp:
                    nxt.append(s)
                else:
                    nxt.extend(self.destroy(s, loc, t, fr, node))
            sts = nxt
        for s in sts:
            if s.comp is None:
                s.comp = comp
        return sts

    # ----- class prvalues
    def init(self, e, dest, t, st, fr):
        """build a prvalue (any type) at dest"""
        k = e['k']
        self.ltype.setdefault(dest, t)
        if k in ('cleanups',):
            return self.full(st, fr, lambda s: self.init(e['e'], dest, t, s, fr), e)
        if k == 'bindtmp':
            return self.init(e['e'], dest, t, st, fr)
        if k == 'mat' and self.p.isrec(e['t']):
            return self.init(e['e'], dest, t, st, fr)
        if self.tk(t) in ('lref', 'rref'):
            def bindref(s, l):
                s.store[dest] = ('ref', l)
                return [(s, dest)]
            return self.then(self.lv(e, st, fr), bindref)
        if self.tk(t) == 'array':
            if k == 'init':
                return self.init_items(e, dest, t, st, fr)
            if k == 'str':
                st.store[dest] = ('s', e['v'])
                return [(st, dest)]
            if k in ('arraycopy',):
                return self.then(self.lv(e['e'], st, fr), lambda s, l: (self.copy_tree(s, l, dest), [(s, dest)])[1])
            if k == 'zero':
                st.store[dest] = ('zero',)
                return [(st, dest)]
            if k == 'ctor':
                return [(st, dest)]
        if not self.p.isrec(t):
            def put(s, v):
                s.store[dest] = v
                return [(s, dest)]
            return self.then(self.rv(e, st, fr), put)
        if k == 'ctor':
            return self.construct(e, dest, st, fr)
        if k == 'call':
            return self.then(self.call(e, st, fr, dest), lambda s, _: [(s, dest)])
        if k == 'cond':
            return self.branch_on(e['c'], st, fr, lambda s, b: self.init(e['a'] if b else e['b'], dest, t, s, fr), e)
        if k == 'lambda':
            return self.init_lambda(e, dest, st, fr)
        if k == 'init':
            return self.init_items(e, dest, t, st, fr)
        if k == 'sil':
            def sil(s, l):
                s.store[dest] = ('il', l)
                return [(s, dest)]
            return self.then(self.lv_tmp(e['e'], st, fr), sil)
        if k == 'zero':
            st.store[dest] = ('zero',)
            return [(st, dest)]
        if k == 'bin' and e['op'] == ',':
            return self.then(self.discard(e['a'], st, fr), lambda s, _: self.init(e['b'], dest, t, s, fr))
        if k == 'throw':
            return self.rv(e, st, fr)
        if k == 'cast':
            if e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase') or True:
                return self.init(e['e'], dest, t, st, fr)
        if e.get('lv') or k in ('var', 'mem', 'load'):
            return self.then(self.lv(e, st, fr), lambda s, l: [(x, dest) for x in self.copy_obj(s, l, dest, t, fr, e)])
        self.mark(st, 'unsupported initializer ' + k, e, fr)
        st.store[dest] = ('sym', 'init', self.fresh())
        return [(st, dest)]

    def init_items(self, e, dest, t, st, fr):
        rec = self.p.rec(t)
        items = e.get('items') or []
        prs = [(st, dest)]
        if rec and self.p.isrepo(rec):
            r = self.p.records[rec]
            names = [(f['n'], f['t']) for f in r['fields']]
            for it, (n, ft) in zip(items, names):
                prs = self.then(prs, lambda s, _, it=it, n=n, ft=ft: self.init(it, F(dest, n), ft, s, fr) if it else [(s, dest)])
            return self.then(prs, lambda s, _: [(s, dest)])
        if self.tk(t) == 'array':
            el = self.p.ty(t).get('el')
            st.store[('#len', dest)] = ('i', len(items))
            for i, it in enumerate(items):
                prs = self.then(prs, lambda s, _, it=it, i=i: self.init(it, ('E', dest, ('i', i)), el, s, fr))
            return self.then(prs, lambda s, _: [(s, dest)])
        # library aggregate (struct sigaction, struct tm, ...)
        st.store[dest] = ('zero',)
        if not all(zero_init(i) for i in items):
            names = e.get('fns') or []
            if len(names) >= len(items):
                for it, n in zip(items, names):
                    if not zero_init(it):
                        prs = self.then(prs, lambda s, _, it=it, n=n: self.init(it, F(dest, n), it.get('t'), s, fr))
                return self.then(prs, lambda s, _: [(s, dest)])
            self.mark(st, 'library aggregate initializer', e, fr)
        return [(st, dest)]

    def init_lambda(self, e, dest, st, fr):
        prs = [(st, dest)]
        self.ltype[dest] = e['t']
        for c in e['caps']:
            fl = F(dest, c['f'])

            def cap(s, _, c=c, fl=fl):
                if c.get('this'):
                    if c['byref'] or self.tk(c['ft']) == 'ptr':
                        s.store[fl] = ('ptr', self.this_of(s, fr))
                        return [(s, dest)]
                if c['byref']:
                    def br(s2, l):
                        s2.store[fl] = ('ref', l)
                        return [(s2, dest)]
                    return self.then(self.lv(c['init'], s, fr), br)
                return self.init(c['init'], fl, c['ft'], s, fr)
            prs = self.then(prs, cap)

        def done(s, _):
            s.store[dest] = ('closure', e['rec'])
            return [(s, dest)]
        return self.then(prs, done)

    def discard(self, e, st, fr):
        k = e['k']
        if k == 'cleanups':
            return self.full(st, fr, lambda s: self.discard(e['e'], s, fr), e)
        if e.get('lv'):
            return self.lv(e, st, fr)
        if k == 'cast' and e['ck'] == 'ToVoid':
            return self.discard(e['e'], st, fr)
        if self.p.isrec(e['t']):
            return self.lv_tmp(e, st, fr)
        return self.rv(e, st, fr)

    # ------------------------------------------------------------- object life
    def find_ctor(self, rec, kind):
        r = self.p.records.get(rec, {})
        for m in r.get('methods', []):
            if m.get('ctor') == kind and not m.get('deleted'):
                return m
        return None

    def copy_obj(self, st, src, dst, t, fr, node, move=False):
        """copy or move construct dst from src"""
        rec = self.recof(t)
        self.ltype.setdefault(dst, self.p.unref(t))
        if rec is None:
            v = self.read(st, src, fr, node)
            st.store[dst] = v
            return [st]
        if not self.p.isrepo(rec):
            return self.model.copy_std(self, st, src, dst, rec, t, fr, node, move)
        m = (self.find_ctor(rec, 'move') if move else None) or self.find_ctor(rec, 'copy')
        if m and not m.get('implicit'):
            f = self.p.functions.get(m['id'])
            if f and not f.get('defaulted'):
                return [s for s, _ in self.inline(f, dst, [Arg(loc=src, t=t, x=move)], st, fr, node, None)]
        if move and m and m.get('ctor') == 'copy':
            move = False
        return self.memberwise(st, src, dst, rec, fr, node, move)

    def memberwise(self, st, src, dst, rec, fr, node, move):
        r = self.p.records[rec]
        sts = [st]
        for b in r.get('bases', []):
            if self.p.isrepo(b):
                sts = [y for x in sts for y in (self.copy_obj(x, src, dst, b, fr, node, move) if not x.comp else [x])]
        v = st.store.get(src)
        for s in sts:
            if v is not None and v[0] in ('closure', 'zero'):
                s.store[dst] = v
        for f in r['fields']:
            nxt = []
            for s in sts:
                if s.comp:
                    nxt.append(s)
                    continue
                sl, dl = F(src, f['n']), F(dst, f['n'])
                self.ltype.setdefault(sl, f['t'])
                if self.tk(f['t']) in ('lref', 'rref'):
                    v = s.store.get(sl)
                    s.store[dl] = v if v is not None else ('ref', ('D', ('ld', sl, s.gen)))
                    nxt.append(s)
                elif self.p.isrec(f['t']):
                    nxt.extend(self.copy_obj(s, sl, dl, f['t'], fr, node, move))
                elif self.tk(f['t']) == 'array':
                    self.copy_tree(s, sl, dl)
                    nxt.append(s)
                else:
                    s.store[dl] = self.read(s, sl, fr, node)
                    nxt.append(s)
            sts = nxt
        return sts

    def assign_obj(self, st, src, dst, t, fr, node, move=False):
        """implicit assignment"""
        rec = self.recof(t)
        if rec is None or not self.p.isrepo(rec):
            if rec is None:
                self.write(st, dst, self.read(st, src, fr, node), fr, node)
                return [st]
            return self.model.assign_std(self, st, src, dst, rec, t, fr, node, move)
        r = self.p.records[rec]
        m = None
        for x in r.get('methods', []):
            if x.get('asg') == ('move' if move else 'copy'):
                m = x
        if m is None and move:
            m = next((x for x in r.get('methods', []) if x.get('asg') == 'copy'), None)
        if m and not m.get('implicit'):
            f = self.p.functions.get(m['id'])
            if f and not f.get('defaulted'):
                return [s for s, _ in self.inline(f, dst, [Arg(loc=src, t=t, x=move)], st, fr, node, None)]
        sts = [st]
        for b in r.get('bases', []):
            if self.p.isrepo(b):
                sts = [y for x in sts for y in (self.assign_obj(x, src, dst, b, fr, node, move) if not x.comp else [x])]
        for f in r['fields']:
            sts = [y for s in sts for y in ([s] if s.comp else self.assign_obj(s, F(src, f['n']), F(dst, f['n']), f['t'], fr, node, move))]
        return sts

    def construct(self, e, dest, st, fr):
        rec = e['rec']
        ck = e.get('ckind')
        self.ltype[dest] = e['t']
        args = e['args']
        name = strip(e['n'])
        h = self.hooks.get(name)
        if h is not None:
            def hk(s, a):
                r = h(self, s, Ctx(node=e, fr=fr, obj=dest, args=a, dest=dest, name=name, fn=e.get('fn'), t=e['t']))
                if r is NotImplemented:
                    return self.construct2(e, dest, s, fr)
                return r
            if self.opt.get('ctor_hooks_args', True):
                return self.then(self.eval_args(args, st, fr), hk)
        return self.construct2(e, dest, st, fr)

    def construct2(self, e, dest, st, fr):
        rec = e['rec']
        ck = e.get('ckind')
        args = e['args']
        f = self.p.functions.get(e['fn'])
        repo = self.p.isrepo(rec)
        if repo and ck in ('copy', 'move') and (not f or f.get('implicit') or f.get('defaulted')):
            a = args[0]
            mv = ck == 'move'
            src = self.lv(a, st, fr) if (a.get('lv') or a['k'] == 'mat') else self.lv_tmp(a, st, fr)
            return self.then(src, lambda s, l: [(x, dest) for x in self.copy_obj(s, l, dest, e['t'], fr, e, move=mv)])
        if repo:
            if f is not None:
                return self.then(self.inline_ast(f, dest, args, st, fr, e, dest), lambda s, _: [(s, dest)])
            if ck == 'default':
                return [(x, dest) for x in self.default_init(st, dest, rec, fr, e)]
            self.mark(st, 'constructor without body ' + e['n'], e, fr)
            self.emit(st, 'usercall', e, fr, what=e['n'], args=())
            st.store[dest] = ('sym', 'obj', self.fresh())
            return [(st, dest)]
        return self.then(self.eval_args(args, st, fr), lambda s, a: self.model.construct_std(
            self, s, Ctx(node=e, fr=fr, obj=dest, args=a, dest=dest, name=strip(e['n']), fn=e.get('fn'), t=e['t']), rec, ck))

    def default_init(self, st, dest, rec, fr, node):
        r = self.p.records[rec]
        sts = [st]
        m = self.find_ctor(rec, 'default')
        if m:
            f = self.p.functions.get(m['id'])
            if f:
                return [s for s, _ in self.inline(f, dest, [], st, fr, node, dest)]
        for f in r['fields']:
            if self.p.isrec(f['t']):
                fl = F(dest, f['n'])
                self.ltype[fl] = f['t']
                nxt = []
                for s in sts:
                    rr = self.p.rec(f['t'])
                    if self.p.isrepo(rr):
                        nxt.extend(self.default_init(s, fl, rr, fr, node))
                    else:
                        nxt.extend(x for x, _ in self.model.construct_std(self, s, Ctx(node=node, fr=fr, obj=fl, args=[], dest=fl, name='', t=f['t']), rr, 'default'))
                sts = nxt
        return sts

    def destroy(self, st, loc, t, fr, node):
        """run the destructor of the object at loc, then forget it"""
        t = self.p.unref(t) if self.tk(t) in ('lref', 'rref') else t
        rec = self.p.rec(t)
        if self.opt.get('trace_gone'):
            self.emit(st, 'gone', node, fr, loc=loc)
        if rec is None:
            self.purge(st, loc)
            return [st]
        if not self.p.isrepo(rec):
            sts = self.model.destroy_std(self, st, loc, rec, t, fr, node)
            for s in sts:
                self.purge(s, loc)
            return sts
        r = self.p.records[rec]
        h = self.hooks.get('~' + r['sn'])
        if h:
            res = h(self, st, Ctx(node=node, fr=fr, obj=loc, args=[], name='~' + r['sn'], t=t))
            if res is not NotImplemented:
                for s, _ in res:
                    self.purge(s, loc)
                return [s for s, _ in res]
        d = self.p.functions.get(r.get('dtor'))
        if d is not None:
            sts = [s for s, _ in self.inline(d, loc, [], st, fr, node, None)]
        else:
            if r.get('dtor') and not r.get('trivdtor') and not any(m['id'] == r['dtor'] and m.get('implicit') for m in r.get('methods', [])) and not r.get('lambda'):
                self.emit(st, 'usercall', node, fr, what='~' + r['sn'], args=(('ptr', loc),))
            sts = self.destroy_members(st, loc, rec, fr, node)
        for s in sts:
            self.purge(s, loc)
        return sts

    def destroy_members(self, st, loc, rec, fr, node):
        r = self.p.records[rec]
        sts = [st]
        for f in reversed(r.get('fields', [])):
            if self.p.isrec(f['t']):
                fl = F(loc, f['n'])
                self.ltype.setdefault(fl, f['t'])
                sts = [y for s in sts for y in ([s] if s.comp else self.destroy(s, fl, f['t'], fr, node))]
        for b in reversed(r.get('bases', [])):
            if self.p.isrepo(b):
                br = self.p.records[b]
                d = self.p.functions.get(br.get('dtor'))
                nxt = []
                for s in sts:
                    if s.comp:
                        nxt.append(s)
                    elif d is not None:
                        nxt.extend(x for x, _ in self.inline(d, loc, [], s, fr, node, None))
                    else:
                        nxt.extend(self.destroy_members(s, loc, b, fr, node))
                sts = nxt
        return sts

    def destroy_ptr(self, st, v, t, fr, node):
        """delete p"""
        k = self.known(st, v)
        if k is False:
            return [st]
        loc = self.deref(v)
        dt = self.dyn_type(st, loc, t)
        self.emit(st, 'delete', node, fr, val=v, t=dt)
        return self.destroy(st, loc, dt, fr, node)

    def dyn_type(self, st, loc, t):
        """dynamic type of the object at loc, if known to differ from the static type t"""
        lt = self.ltype.get(loc)
        if lt and loc[0] == 'H' and self.p.isrec(self.nocv(lt)):
            return self.nocv(lt)
        return self.nocv(t)

    def nocv(self, t):
        if t and t.startswith('const ') and t[6:] in self.p.types:
            return t[6:]
        return t

    # ------------------------------------------------------------- calls
    def uid(self, fr, key):
        k = (fr.uid if fr else 0, key)
        u = self.uids.get(k)
        if u is None:
            u = len(self.uids) + 1
            self.uids[k] = u
        return u

    def eval_args(self, args, st, fr):
        prs = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in prs:
                if s.comp:
                    nxt.append((s, None))
                    continue
                for s2, v in self.eval_arg(a, s, fr):
                    nxt.append((s2, None) if s2.comp else (s2, acc + [v]))
            prs = nxt
        return prs

    def eval_arg(self, a, st, fr):
        t = a['t']
        if a['k'] == 'fn':
            return [(st, Arg(val=('fn', a['id'], a['n'], bool(a.get('virt'))), t=t))]
        if a.get('lv') or a['k'] in ('var', 'mem') or (a['k'] == 'mat'):
            x = a.get('lv') == 2
            return self.then(self.lv(a, st, fr), lambda s, l: [(s, Arg(val=l, t=t) if l[0] == 'fn' else Arg(loc=l, t=t, x=x or a['k'] == 'mat', tmp=a['k'] == 'mat'))])
        if self.p.isrec(t):
            return self.then(self.lv_tmp(a, st, fr), lambda s, l: [(s, Arg(loc=l, t=t, x=True, tmp=True))])
        return self.then(self.rv(a, st, fr), lambda s, v: [(s, Arg(val=v, t=t))])

    def aval(self, st, a, fr=None, node=None):
        """scalar (or library value) of an argument"""
        if a.loc is not None:
            v = self.read(st, a.loc, fr, node)
            if v[0] == 'ref':
                v = self.read(st, v[1], fr, node)
            return v
        return a.val

    def call(self, e, st, fr, dest):
        self.check_budget()
        if 'fn' not in e:
            return self.call_indirect(e, st, fr, dest)
        name = strip(e['n'])
        f = self.p.functions.get(e['fn'])
        # object argument
        if 'obj' in e and not e.get('sm'):
            o = e['obj']
            if e.get('arrow'):
                base = self.then(self.rv(o, st, fr), lambda s, v: [(s, self.deref(v))])
            elif o.get('lv') or o['k'] in ('var', 'mem', 'un', 'mat'):
                base = self.lv(o, st, fr)
            else:
                base = self.lv_tmp(o, st, fr)
        else:
            base = [(st, None)]

        def go(s, obj):
            ff, nm = f, name
            if e.get('virt') and obj is not None:
                ov = self.dispatch(s, obj, e)
                if ov is not None:
                    ff = ov
                elif ff is not None and self.overriders(e['fn']):
                    ff = None
            h = self.hooks.get(nm) or (self.hooks.get(ff['sn']) if ff is not None else None)
            if h is None and ff is not None:
                h = self.hooks.get('#' + ff['id'])
            if h is not None or ff is None:
                def m(s2, args):
                    c = Ctx(node=e, fr=fr, obj=obj, args=args, dest=dest, name=nm, fn=e['fn'], t=e['t'])
                    if h is not None:
                        r = h(self, s2, c)
                        if r is not NotImplemented:
                            return r
                    if ff is not None:
                        return self.inline(ff, obj, args, s2, fr, e, dest)
                    return self.model.call_std(self, s2, c)
                return self.then(self.eval_args(e['args'], s, fr), m)
            return self.inline_ast(ff, obj, e['args'], s, fr, e, dest)
        return self.then(base, go)

    def overriders(self, fid):
        return [f for f in self.p.functions.values() if fid in f.get('overrides', ())]

    def dispatch(self, st, obj, e):
        """final overrider when the dynamic type is known"""
        lt = self.ltype.get(obj)
        if obj[0] in ('L', 'T', 'H', 'G') or (obj[0] in ('F', 'E') and root(obj)[0] in ('L', 'T', 'H')):
            rec = self.recof(self.nocv(lt)) if lt else None
            while rec and rec in self.p.records:
                for m in self.p.records[rec].get('methods', []):
                    if m['id'] == e['fn'] or self.ov_trans(m, e['fn']):
                        return self.p.functions.get(m['id'])
                bs = self.p.records[rec].get('bases', [])
                rec = bs[0] if bs else None
        return None

    def ov_trans(self, m, fid):
        todo = list(m.get('overrides', []))
        while todo:
            x = todo.pop()
            if x == fid:
                return True
            f = self.p.functions.get(x)
            if f:
                todo.extend(f.get('overrides', []))
        return False

    def call_indirect(self, e, st, fr, dest):
        def go(s, cal):
            return self.then(self.eval_args(e['args'], s, fr), lambda s2, args: self.invoke(s2, cal, args, fr, e, dest))
        ce = e['ce']
        if ce['k'] == 'bin' and ce['op'] in ('->*', '.*'):
            def pm(s, o):
                return self.then(self.rv(ce['b'], s, fr), lambda s2, m: self.then(self.eval_args(e['args'], s2, fr), lambda s3, args: self.invoke(s3, m, [Arg(val=o)] + args, fr, e, dest)))
            if ce['op'] == '->*':
                return self.then(self.rv(ce['a'], st, fr), pm)
            return self.then(self.lv(ce['a'], st, fr), lambda s, l: pm(s, ('ptr', l)))
        return self.then(self.rv(ce, st, fr), go)

    def invoke(self, st, cal, args, fr, node, dest, rt=None):
        """call a callable value with evaluated arguments"""
        self.check_budget()
        k = cal[0]
        if k == 'ptr' and cal[1][0] in ('fn',):
            cal = cal[1]
            k = 'fn'
        if k == 'ref':
            cal = ('ptr', cal[1])
            k = 'ptr'
        if k == 'ptr':
            return self.invoke_loc(st, cal[1], args, fr, node, dest)
        if k == 'func':
            return self.invoke_loc(st, cal[1], args, fr, node, dest)
        if k == 'fn':
            f = self.p.functions.get(cal[1])
            name = strip(cal[2])
            is_method = f.get('rec') and not f.get('sm') if f else self.is_memfn(cal)
            if is_method and args:
                a0 = args[0]
                o = self.obj_of(st, a0)
                rest = args[1:]
                h = self.hooks.get(name) or self.hooks.get('#' + cal[1])
                if cal[3]:
                    ov = self.dispatch(st, o, {'fn': cal[1]})
                    if ov is not None:
                        f = ov
                c = Ctx(node=node, fr=fr, obj=o, args=rest, dest=dest, name=name, fn=cal[1], t=None)
                if h is not None:
                    r = h(self, st, c)
                    if r is not NotImplemented:
                        return r
                if f is not None:
                    return self.inline(f, o, rest, st, fr, node, dest)
                return self.model.call_std(self, st, c)
            c = Ctx(node=node, fr=fr, obj=None, args=args, dest=dest, name=name, fn=cal[1], t=None)
            h = self.hooks.get(name) or self.hooks.get('#' + cal[1])
            if h is not None:
                r = h(self, st, c)
                if r is not NotImplemented:
                    return r
            if f is not None:
                return self.inline(f, None, args, st, fr, node, dest)
            return self.model.call_std(self, st, c)
        if k == 'null':
            self.emit(st, 'null_call', node, fr)
            st.comp = ('thr', ('exc', 'std::bad_function_call', None))
            return [(st, None)]
        # unknown callable
        return self.user_call(st, cal, args, fr, node, dest)

    def invoke_arg(self, st, a, args, fr, node, dest=None):
        """call an evaluated callable argument"""
        if a.loc is not None:
            t = self.p.unref(a.t) if a.t else None
            v = self._read(st, a.loc)
            if v[0] == 'ref':
                return self.invoke_loc(st, v[1], args, fr, node, dest)
            if v[0] in ('closure', 'bind', 'func', 'ptask', 'refw') or (t and self.p.isrec(t)):
                return self.invoke_loc(st, a.loc, args, fr, node, dest)
            return self.invoke(st, v, args, fr, node, dest)
        return self.invoke(st, a.val, args, fr, node, dest)

    def is_memfn(self, cal):
        # external member function pointer (e.g. a client sink's method)
        return len(cal) > 1 and '_ZNK' in cal[1][:4] or '_ZN' in cal[1][:3] and self.memfn_name(cal)

    def memfn_name(self, cal):
        n = strip(cal[2])
        cls = n.rsplit('::', 1)[0] if '::' in n else ''
        return cls in self.p.rec_by_name

    def obj_of(self, st, a0):
        v = self.aval(st, a0) if a0.loc is None or not self.p.isrec(self.p.unref(a0.t or '')) else None
        if v is None:
            rn = self.p.recname(self.recof(a0.t))
            if rn in ('std::unique_ptr', 'std::shared_ptr', 'std::reference_wrapper'):
                v = self.read(st, a0.loc)
                if v[0] == 'ref':
                    return v[1]
                return self.deref(v)
            return a0.loc
        return self.deref(v)

    def pick_callop(self, rec, args):
        """the specialization of a generic lambda's call operator for these arguments"""
        fs = [self.p.functions[k] for k in rec['callops'] if k in self.p.functions]
        if len(fs) <= 1:
            return fs[0] if fs else None
        fs = [f for f in fs if len(f['params']) == len(args)]

        def bare(t):
            return re.sub(r'\bconst\b|[&*\s]', '', t or '')
        m = [f for f in fs if all(bare(q["t"]) == bare(a.t) for q, a in zip(f['params'], args) if a.t)]
        return m[0] if len(m) == 1 else None

    def invoke_loc(self, st, loc, args, fr, node, dest):
        """call the callable object at loc"""
        v = st.store.get(loc)
        if v is None:
            v = self._read(st, loc)
        if v[0] == 'closure':
            rec = self.p.records[v[1]]
            f = self.p.functions.get(rec['callop'])
            if f is None and rec.get('callops'):
                f = self.pick_callop(rec, args)
            if f is None:
                self.mark(st, 'lambda without body', node, fr)
                return self.user_call(st, v, args, fr, node, dest)
            return self.inline(f, loc, args, st, fr, node, dest)
        if v[0] == 'bind':
            return self.invoke_bind(st, loc, v, args, fr, node, dest)
        if v[0] == 'func':
            return self.invoke_loc(st, v[1], args, fr, node, dest)
        if v[0] == 'refw':
            return self.invoke_loc(st, v[1], args, fr, node, dest)
        if v[0] == 'ptask':
            return self.model.run_task(self, st, loc, v, args, fr, node, dest)
        if v[0] == 'fn':
            return self.invoke(st, v, args, fr, node, dest)
        if v[0] in ('null', 'moved'):
            self.emit(st, 'null_call', node, fr, loc=loc)
            st.comp = ('thr', ('exc', 'std::bad_function_call', None))
            return [(st, None)]
        t = self.ltype.get(loc)
        rec = self.recof(t) if t else None
        if rec and self.p.isrepo(rec):
            for m in self.p.records[rec]['methods']:
                if m['n'] == 'operator()':
                    f = self.p.functions.get(m['id'])
                    if f is not None:
                        return self.inline(f, loc, args, st, fr, node, dest)
        return self.user_call(st, v, args, fr, node, dest)

    def invoke_bind(self, st, loc, v, args, fr, node, dest):
        # v = ('bind', n): callable at F(loc,'fn'), arguments at F(loc, i)
        real = []
        for i in range(v[1]):
            b = F(loc, 'a%d' % i)
            bv = st.store.get(b)
            if bv is not None and bv[0] == 'placeholder':
                real.append(args[bv[1] - 1] if bv[1] - 1 < len(args) else Arg(val=('sym', 'missing')))
            else:
                t = self.ltype.get(b)
                if bv is not None and bv[0] == 'refw':
                    real.append(Arg(loc=bv[1], t=self.ltype.get(bv[1])))
                else:
                    real.append(Arg(loc=b, t=t))
        cb = F(loc, 'fn')
        cv = self._read(st, cb)
        if cv[0] in ('closure', 'bind', 'func'):
            return self.invoke_loc(st, cb, real, fr, node, dest)
        t = self.ltype.get(cb)
        if cv[0] not in ('fn', 'null') and t and self.p.isrec(t):
            return self.invoke_loc(st, cb, real, fr, node, dest)
        return self.invoke(st, cv, real, fr, node, dest)

    def user_call(self, st, cal, args, fr, node, dest):
        """call of code we do not know (client callback, hook)"""
        avals = tuple((a.loc if a.loc is not None else a.val) for a in args)
        self.emit(st, 'usercall', node, fr, what=cal, args=avals, snap=bool(self.opt.get('snap_user')))
        out = []
        if self.opt.get('user_throws') and len(st.events('usercall')) <= self.opt.get('user_throws_max', 3):
            s2 = st.fork()
            s2.comp = ('thr', ('exc', '?user', None))
            self.havoc(s2)
            out.append((s2, None))
        self.havoc(st)
        r = ('ucall', cal, self.fresh())
        if dest is not None:
            st.store[dest] = r
            out.append((st, dest))
        else:
            out.append((st, r))
        return out

    # ----- inlining
    def enter(self, f, st, fr, node, this, dest):
        st.depth += 1
        key = ('c', id(node) if node is not None else 0, f['id'], st.depth)
        nf = Frame(f, self.uid(fr, key), this, dest, fr)
        self.inlined.add(f['id'])
        if st.depth > 60 or st.inl.count(f['id']) >= 3:
            return None
        st.inl = st.inl + (f['id'],)
        if f.get('lambda') and this is not None:
            caps = {}
            rec = self.p.records.get(f['rec'], {})
            for c in rec.get('caps', []):
                if c.get('this'):
                    caps['#this'] = F(this, c['f'])
                elif c.get('var'):
                    caps[c['var']] = (F(this, c['f']), c['byref'])
            nf.caps = caps
            nf.this = this
        return nf

    def too_deep(self, f, st, fr, node, dest):
        st.depth -= 1
        self.mark(st, 'recursion limit at ' + f['sn'], node, fr)
        self.havoc(st)
        if dest is not None:
            st.store[dest] = ('sym', 'rec', self.fresh())
            return [(st, dest)]
        return [(st, ('sym', 'rec', self.fresh()))]

    def inline_ast(self, f, this, args, st, fr, node, dest):
        nf = self.enter(f, st, fr, node, this, dest)
        if nf is None:
            return self.too_deep(f, st, fr, node, dest)
        prs = [(st, None)]
        owned = []
        for p, a in zip(f['params'], args):
            k = self.tk(p['t'])
            if k in ('lref', 'rref'):
                def bindref(s, l, p=p):
                    s.store[('R', nf.uid, p['id'])] = l
                    return [(s, None)]
                prs = self.then(prs, lambda s, _, a=a, br=bindref: self.then(self.lv(a, s, fr), br))
            else:
                loc = ('L', nf.uid, p['id'])
                self.ltype[loc] = p['t']
                if k == 'rec':
                    owned.append((loc, p['t']))
                prs = self.then(prs, lambda s, _, a=a, loc=loc, p=p: self.init(a, loc, p['t'], s, fr))
        if len(args) > len(f['params']) and f.get('variadic'):
            for a in args[len(f['params']):]:
                prs = self.then(prs, lambda s, _, a=a: self.discard(a, s, fr))
        return self.run_body(f, nf, prs, owned, node, fr, dest)

    def inline(self, f, this, args, st, fr, node, dest):
        nf = self.enter(f, st, fr, node, this, dest)
        if nf is None:
            return self.too_deep(f, st, fr, node, dest)
        prs = [(st, None)]
        owned = []
        for p, a in zip(f['params'], args):
            k = self.tk(p['t'])
            a = self.unwrap_ref(st, a, p['t'])

            def bindp(s, _, p=p, a=a, k=k):
                if k in ('lref', 'rref'):
                    l = a.loc
                    if l is None:
                        l = self.tmp(self.p.unref(p['t']))
                        s.store[l] = a.val
                    elif self.p.isrec(self.p.unref(p['t'])) and a.t and self.p.isrec(self.p.unref(a.t)) and not self.same_class(a.t, p['t']):
                        return self.convert(s, a, self.p.unref(p['t']), l2 := self.tmp(self.p.unref(p['t'])), fr, node, lambda s2: (s2.store.__setitem__(('R', nf.uid, p['id']), l2), [(s2, None)])[1])
                    s.store[('R', nf.uid, p['id'])] = l
                    return [(s, None)]
                loc = ('L', nf.uid, p['id'])
                self.ltype[loc] = p['t']
                if k == 'rec':
                    if a.loc is not None and (not a.t or self.same_class(a.t, p['t'])):
                        return [(x, None) for x in self.copy_obj(s, a.loc, loc, p['t'], fr, node, move=a.x)]
                    return self.convert(s, a, p['t'], loc, fr, node, lambda s2: [(s2, None)])
                v = self.aval(s, a, fr, node)
                s.store[loc] = v
                return [(s, None)]
            prs = self.then(prs, bindp)
            if k == 'rec':
                owned.append((('L', nf.uid, p['id']), p['t']))
        for p in f['params'][len(args):]:
            if p.get('def') is not None:
                k = self.tk(p['t'])
                loc = ('L', nf.uid, p['id'])
                self.ltype[loc] = self.p.unref(p['t'])
                if k in ('lref', 'rref'):
                    def bd(s, l, p=p):
                        s.store[('R', nf.uid, p['id'])] = l
                        return [(s, None)]
                    prs = self.then(prs, lambda s, _, p=p, bd=bd: self.then(self.lv(p['def'], s, nf), bd))
                else:
                    prs = self.then(prs, lambda s, _, p=p, loc=loc: self.init(p['def'], loc, p['t'], s, nf))
        return self.run_body(f, nf, prs, owned, node, fr, dest)

    def unwrap_ref(self, st, a, t):
        """std::ref(x) passed where something else than a reference wrapper is expected"""
        v = st.store.get(a.loc) if a.loc is not None else a.val
        if v and v[0] == 'refw' and self.p.recname(self.recof(t)) != 'std::reference_wrapper':
            return Arg(loc=v[1], t=self.ltype.get(v[1]))
        return a

    def same_class(self, a, b):
        ra, rb = self.recof(a), self.recof(b)
        return ra == rb or (ra and rb and (self.p.subclass_of(ra, rb) or self.p.recname(ra) == self.p.recname(rb)))

    def convert(self, st, a, t, dest, fr, node, k):
        """implicit conversion of an evaluated argument to a class type"""
        rec = self.p.rec(t)
        if self.p.isrepo(rec):
            out = []
            for m in self.p.records[rec].get('methods', []):
                f = self.p.functions.get(m['id'])
                if m.get('ctor') == 'other' and f and len(f['params']) == 1:
                    for s, _ in self.inline(f, dest, [a], st, fr, node, dest):
                        out.extend(k(s) if not s.comp else [(s, None)])
                    return out
            self.mark(st, 'no conversion to ' + t, node, fr)
            st.store[dest] = ('sym', 'conv', self.fresh())
            return k(st)
        out = []
        c = Ctx(node=node, fr=fr, obj=dest, args=[a], dest=dest, name='', t=t)
        for s, _ in self.model.construct_std(self, st, c, rec, 'other'):
            out.extend(k(s) if not s.comp else [(s, None)])
        return out

    def run_body(self, f, nf, prs, owned, node, fr, dest):
        outs = []
        for st, _ in prs:
            if st.comp:
                outs.append((st, None))
                continue
            if self.opt.get('trace_calls', True):
                self.emit(st, 'enter', node, fr, fn=f['sn'], id=f['id'], this=nf.this)
            st.scopes = st.scopes + ((),)
            n = len(st.scopes)
            for p in owned:
                self.add_tmp(st, p[0], p[1])
            sts = [st]
            if f.get('kind') == 'ctor':
                sts = self.run_inits(f, nf, st)
            res = []
            for s in sts:
                if s.comp:
                    res.append(s)
                    continue
                res.extend(self.exec(f['body'], s, nf))
            fin = []
            for s in res:
                fin.extend(self.leave(s, n, nf, {'l': f.get('endl', 0)}))
            if f.get('kind') == 'dtor' and f.get('rec') in self.p.records:
                nxt = []
                for s in fin:
                    if s.comp and s.comp[0] == 'noret':
                        nxt.append(s)
                        continue
                    comp = s.comp
                    s.comp = None
                    for x in self.destroy_members(s, nf.this, f['rec'], nf, {'l': f.get('endl', 0)}):
                        x.comp = x.comp or comp
                        nxt.append(x)
                fin = nxt
            for s in fin:
                s.depth -= 1
                s.inl = s.inl[:-1]
                val = dest
                if s.comp and s.comp[0] == 'ret':
                    val = s.comp[1]
                    s.comp = None
                elif s.comp and s.comp[0] == 'thr' and (f.get('nothrow')):
                    self.emit(s, 'terminate', node, fr, why='exception leaves noexcept function ' + f['sn'])
                    s.comp = ('noret', 'terminate')
                if f.get('kind') == 'ctor':
                    val = dest
                if val is None:
                    val = ('void',)
                self.drop_frame(s, nf)
                if self.opt.get('trace_calls', True):
                    self.emit(s, 'leave', node, fr, fn=f['sn'], val=val, id=f['id'])
                outs.append((s, val))
        if len(outs) > self.max_paths:
            raise Limit('path limit')
        return outs

    def drop_frame(self, st, nf):
        u = nf.uid
        dead = [k for k in st.store if (k[0] in ('R',) and k[1] == u) or (k[0] in ('L', 'F', 'E') and root(k)[0] == 'L' and root(k)[1] == u)]
        for k in dead:
            del st.store[k]

    def run_inits(self, f, nf, st):
        sts = [st]
        this = nf.this
        for i in f.get('inits', []):
            nxt = []
            for s in sts:
                if s.comp:
                    nxt.append(s)
                    continue
                e = i['e']
                if 'f' in i:
                    loc = F(this, i['f'])
                    self.ltype[loc] = i['t']
                    nxt.extend(x for x, _ in self.init(e, loc, i['t'], s, nf))
                elif i.get('deleg'):
                    nxt.extend(x for x, _ in self.init(e, this, e['t'], s, nf))
                elif 'base' in i:
                    if self.p.isrepo(i['base']):
                        lt = self.ltype.get(this)
                        nxt.extend(x for x, _ in self.init(e, this, e['t'], s, nf))
                        if lt:
                            self.ltype[this] = lt
                    else:
                        nxt.append(s)
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    # ------------------------------------------------------------- statements
    def exec(self, n, st, fr):
        if n is None or st.comp:
            return [st]
        if n['s'] != 'block':
            fr.at = n
        depth = len(st.scopes)
        try:
            return getattr(self, 'ex_' + n['s'])(n, st, fr)
        except (Limit, AnalysisError, RecursionError, KeyboardInterrupt):
            raise
        except Exception as x:
            # a construct the engine does not get right: give up precision on this path, not the analysis
            if os.environ.get('G3_STRICT'):
                raise
            self.mark(st, 'engine: %s %s' % (type(x).__name__, x), n, fr)
            st.scopes = st.scopes[:depth]
            self.havoc(st)
            return [st]

    def ex_null(self, n, st, fr):
        return [st]

    def ex_opaque(self, n, st, fr):
        self.mark(st, 'unsupported statement ' + n['kind'], n, fr)
        return [st]

    def ex_expr(self, n, st, fr):
        return [s for s, _ in self.discard(n['e'], st, fr)]

    def ex_block(self, n, st, fr):
        st.scopes = st.scopes + ((),)
        lvl = len(st.scopes)
        sts = [st]
        for c in n['b']:
            nxt = []
            for s in sts:
                if s.comp:
                    nxt.append(s)
                else:
                    nxt.extend(self.exec(c, s, fr))
            sts = nxt
            if len(sts) > self.max_paths:
                raise Limit('path limit')
        return [y for s in sts for y in self.leave(s, lvl, fr, {'l': n.get('el', n['l'])})]

    def ex_decl(self, n, st, fr):
        sts = [st]
        for v in n['vars']:
            nxt = []
            for s in sts:
                if s.comp:
                    nxt.append(s)
                else:
                    nxt.extend(self.declare(v, s, fr))
            sts = nxt
        return sts

    def refs_local(self, e):
        if isinstance(e, dict):
            if e.get('k') == 'var' and e.get('vk') in ('local', 'param') or e.get('k') == 'this':
                return True
            return any(self.refs_local(v) for v in e.values())
        if isinstance(e, list):
            return any(self.refs_local(v) for v in e)
        return False

    def declare(self, v, st, fr):
        t = v['t']
        if v.get('static'):
            loc = ('G', v['id'])
            self.ltype[loc] = t
            g = self.p.globals.get(v['id'], {})
            if 'init' not in v:
                return [st]
            isconst = g.get('const') or self.tk(t) in ('lref', 'rref')
            if ('#init', loc) in st.store:
                return [st]
            if isconst and not self.refs_local(v['init']):
                st.store[('#init', loc)] = ('i', 1)
                sv = st.ev
                outs = self.init(v['init'], loc, t, st, fr)
                return [s for s, _ in outs]
            if isconst:
                out = []
                for s, b in self.decide(st, ('sinit', loc), v, fr):
                    s.store[('#init', loc)] = ('i', 1)
                    if b:
                        out.extend(x for x, _ in self.init(v['init'], loc, t, s, fr))
                    else:
                        out.append(s)
                return out
            if self.startup:
                st.store[('#init', loc)] = ('i', 1)
                return [s for s, _ in self.init(v['init'], loc, t, st, fr)]
            return [st]
        k = self.tk(t)
        if k in ('lref', 'rref'):
            def br(s, l):
                s.store[('R', fr.uid, v['id'])] = l
                return [(s, None)]
            return [s for s, _ in self.then(self.lv(v['init'], st, fr), br)]
        loc = ('L', fr.uid, v['id'])
        self.ltype[loc] = t
        self.purge(st, loc)
        if 'init' not in v or v['init'] is None:
            st.store[loc] = ('uninit', loc)
            if k == 'rec':
                self.add_tmp_block(st, loc, t)
            return [st]

        def reg(s):
            if k == 'rec':
                self.add_tmp_block(s, loc, t)
            return s
        return [s if s.comp else reg(s) for s, _ in self.init(v['init'], loc, t, st, fr)]

    def add_tmp_block(self, st, loc, t):
        if not self.p.records.get(self.p.rec(t), {}).get('trivdtor') or True:
            self.add_tmp(st, loc, t, ext=True)

    def scoped(self, st, fr, n, f):
        st.scopes = st.scopes + ((),)
        lvl = len(st.scopes)
        return [y for s in f(st) for y in self.leave(s, lvl, fr, n)]

    def ex_if(self, n, st, fr):
        def go(st):
            sts = self.exec(n.get('init'), st, fr) if n.get('init') else [st]
            out = []
            for s in sts:
                if s.comp:
                    out.append(s)
                    continue
                ss = self.declare(n['cv'], s, fr) if n.get('cv') else [s]
                for s1 in ss:
                    if s1.comp:
                        out.append(s1)
                        continue
                    for s2, v in self.rv(n['c'], s1, fr):
                        if s2.comp:
                            out.append(s2)
                            continue
                        for s3, b in self.decide(s2, v, n, fr):
                            br = n['then'] if b else n.get('else')
                            out.extend(self.exec(br, s3, fr))
            return out
        return self.scoped(st, fr, n, go)

    def ex_return(self, n, st, fr):
        e = n.get('e')
        if e is None:
            st.comp = ('ret', ('void',))
            return [st]
        rt = fr.ret
        k = self.tk(rt)
        if k in ('lref', 'rref'):
            prs = self.lv(e, st, fr)
        elif k == 'rec':
            d = fr.dest
            if d is None:
                d = self.tmp(rt)
            prs = self.then(self.init(e, d, rt, st, fr), lambda s, _: [(s, d)])
        elif k == 'void':
            prs = self.then(self.discard(e, st, fr), lambda s, _: [(s, ('void',))])
        else:
            prs = self.rv(e, st, fr)
        out = []
        for s, v in prs:
            if not s.comp:
                s.comp = ('ret', v)
            out.append(s)
        return out

    def ex_break(self, n, st, fr):
        st.comp = ('brk',)
        return [st]

    def ex_continue(self, n, st, fr):
        st.comp = ('cont',)
        return [st]

    def ex_label(self, n, st, fr):
        return self.exec(n['b'], st, fr)

    def ex_goto(self, n, st, fr):
        self.mark(st, 'goto', n, fr)
        return [st]

    def ex_case(self, n, st, fr):
        return self.exec(n['b'], st, fr)

    ex_default = ex_case

    def ex_try(self, n, st, fr):
        lvl = len(st.scopes)
        out = []
        for s in self.exec(n['b'], st, fr):
            if not (s.comp and s.comp[0] == 'thr'):
                out.append(s)
                continue
            exc = s.comp[1]
            out.extend(self.catch(n['h'], exc, s, fr))
        return out

    def exc_matches(self, exc, t):
        """True / False / None (unknown)"""
        if t is None:
            return True
        rn = self.p.recname(self.recof(t)) if self.recof(t) else t
        et = exc[1]
        if et.startswith('?'):
            return None if rn not in ('...',) else True
        if et == rn:
            return True
        hier = {'std::bad_weak_ptr': ('std::exception',), 'std::runtime_error': ('std::exception',), 'std::bad_function_call': ('std::exception',),
                'std::logic_error': ('std::exception',), 'std::out_of_range': ('std::logic_error', 'std::exception'), 'std::bad_alloc': ('std::exception',),
                'std::future_error': ('std::logic_error', 'std::exception'), 'std::invalid_argument': ('std::logic_error', 'std::exception'),
                'std::system_error': ('std::runtime_error', 'std::exception'), 'std::bad_cast': ('std::exception',)}
        return rn in hier.get(et, ())

    def catch(self, hs, exc, st, fr):
        out = []
        cur = st
        for h in hs:
            m = self.exc_matches(exc, h.get('t'))
            if m is False:
                continue
            s = cur
            if m is None:
                cur = s.fork()
            s.comp = None
            old = s.meta.get('current_exc')
            s.meta['current_exc'] = exc
            self.emit(s, 'catch', h, fr, what=exc[1])
            if h.get('var'):
                v = h['var']
                if self.tk(v['t']) in ('lref', 'rref'):
                    s.store[('R', fr.uid, v['id'])] = exc[2] if exc[2] is not None and exc[2][0] in 'LHTGDFE' else ('D', ('excobj', exc[1]))
                else:
                    s.store[('L', fr.uid, v['id'])] = ('excobj', exc[1])
                    self.ltype[('L', fr.uid, v['id'])] = v['t']
            for x in self.exec(h['b'], s, fr):
                x.meta['current_exc'] = old
                out.append(x)
            if m is True:
                return out
        out.append(cur)
        return out

    # ----- switch
    def ex_switch(self, n, st, fr):
        def go(st):
            sts = self.exec(n.get('init'), st, fr) if n.get('init') else [st]
            out = []
            for s in sts:
                if s.comp:
                    out.append(s)
                    continue
                if n.get('cv'):
                    ss = self.declare(n['cv'], s, fr)
                else:
                    ss = [s]
                for s1 in ss:
                    for s2, v in self.rv(n['c'], s1, fr):
                        if s2.comp:
                            out.append(s2)
                        else:
                            out.extend(self.switch_body(n, v, s2, fr))
            for s in out:
                if s.comp == ('brk',):
                    s.comp = None
            return out
        return self.scoped(st, fr, n, go)

    def flatten(self, b):
        items = []

        def add(x):
            if x is None:
                return
            if x['s'] in ('case', 'default'):
                items.append((x['s'], x))
                add(x['b'])
            else:
                items.append(('stmt', x))
        for x in (b['b'] if b['s'] == 'block' else [b]):
            add(x)
        return items

    def switch_body(self, n, v, st, fr):
        items = self.flatten(n['b'])
        out = []
        cur = [st]
        dflt = None
        for i, (k, x) in enumerate(items):
            if k == 'default':
                dflt = i
                continue
            if k != 'case':
                continue
            nxt = []
            for s in cur:
                prs = self.rv(x['v'], s, fr)
                for s2, cv in prs:
                    if x.get('hi'):
                        hv = int(x['hi'].get('v', 0))
                        for s3, b1 in self.decide(s2, ('op', '>=', v, cv), x, fr):
                            if not b1:
                                nxt.append(s3)
                                continue
                            for s4, b2 in self.decide(s3, ('op', '<=', v, ('i', hv)), x, fr):
                                if b2:
                                    out.extend(self.run_from(items, i, s4, fr))
                                else:
                                    nxt.append(s4)
                        continue
                    for s3, b in self.decide(s2, ('op', '==', v, cv), x, fr):
                        if b:
                            out.extend(self.run_from(items, i, s3, fr))
                        else:
                            nxt.append(s3)
            cur = nxt
        for s in cur:
            if dflt is not None:
                out.extend(self.run_from(items, dflt, s, fr))
            else:
                out.append(s)
        return out

    def run_from(self, items, i, st, fr):
        st.scopes = st.scopes + ((),)
        lvl = len(st.scopes)
        sts = [st]
        for k, x in items[i:]:
            if k != 'stmt':
                continue
            sts = [y for s in sts for y in ([s] if s.comp else self.exec(x, s, fr))]
        return [y for s in sts for y in self.leave(s, lvl, fr, items[i][1])]

    # ----- loops
    def ex_for(self, n, st, fr):
        def go(st):
            sts = self.exec(n.get('init'), st, fr) if n.get('init') else [st]
            return [y for s in sts for y in ([s] if s.comp else self.loop(n, s, fr, n.get('c'), n['b'], n.get('inc'), cv=n.get('cv')))]
        return self.scoped(st, fr, n, go)

    def ex_while(self, n, st, fr):
        return self.loop(n, st, fr, n['c'], n['b'], None, cv=n.get('cv'))

    def ex_do(self, n, st, fr):
        return self.loop(n, st, fr, n['c'], n['b'], None, first_free=True)

    def ex_range(self, n, st, fr):
        def go(st):
            sts = [st]
            for d in ('init', 'range', 'begin', 'end'):
                if n.get(d):
                    sts = [y for s in sts for y in ([s] if s.comp else self.exec(n[d], s, fr))]
            return [y for s in sts for y in ([s] if s.comp else self.loop(n, s, fr, n['c'], n['b'], n['inc'], var=n['var']))]
        return self.scoped(st, fr, n, go)

    def sig(self, st, ent=None):
        """signature of a state at a loop head: everything but the trace, with fresh names collapsed"""
        items = []
        for k, v in st.store.items():
            r = root(k)
            if r[0] in ('T', 'H') or k[0] in ('#init', 'R') or (r[0] == 'L' and ent is not None and r not in ent):
                continue
            items.append((k, v))
        txt = repr(sorted((repr(a), repr(b)) for a, b in items))
        fx = repr(sorted((repr(a), v) for a, v in st.facts.items() if not self._stale(a, st)))
        iv = repr(sorted((repr(a), v) for a, v in st.iv.items()))
        s = txt + fx + iv + repr(st.locks) + repr(len(st.scopes))
        s = re.sub(r"\('(H|T)', \d+\)", r"('\1', _)", s)
        s = re.sub(r"('(?:ald|ucall|sym)'.*?), \d+(?=[,)])", r"\1, _", s)
        s = re.sub(r"(\('ld', .*?), \d+\)", r"\1)", s)
        return s

    def loop_diff(self, st, ent, key, mods):
        """locations whose value at this loop head differs from the value on entry; True if the set grew"""
        grew = False
        if st.gen != ent.gen and '#gen' not in mods:
            mods['#gen'] = True
            grew = True
        roots = ent.meta['#roots']
        for k, v in st.store.items():
            if k[0] in ('#init', 'R'):
                continue
            r = root(k)
            if r[0] in ('L', 'T', 'H') and r not in roots:
                continue
            o = ent.store.get(k)
            if o == v:
                continue
            w = ('sym', 'w', key[0], k)
            m = mods.get(k)
            if v == w or (v[0] == 'op' and v[1] == 'loopval') or (v[0] == 'it' and v[2] == w):
                if m is not None:
                    continue
            if o is None and '#gen' in mods and self.shared_root(r):
                continue
            if self.wlike(v):
                lo, hi = self.bounds(st, v)
            elif v[0] == 'it' and isinstance(v[2], tuple) and self.wlike(v[2]):
                lo, hi = self.bounds(st, v[2])
            else:
                lo, hi = -INF, INF
            if m is None:
                if o is not None and v[0] == 'it' and o[0] == 'it' and o[1] == v[1]:
                    kind = ('it', v[1])
                elif self.texty(v) or (o is not None and self.texty(o)):
                    kind = 'text'
                else:
                    kind = 'any'
                ov = o[2] if kind[0] == 'it' else o
                if ov is not None and self.wlike(ov):
                    olo, ohi = self.bounds(ent, ov)
                    if ov[0] != 'i':        # symbolic start: monotone relative to it
                        olo, ohi = self.bounds(ent, ov)
                else:
                    olo, ohi = (-INF, INF) if o is not None else (lo, hi)
                nlo = lo if lo >= olo else -INF         # the first iterations were followed one by one
                nhi = hi if hi <= ohi else INF
                mods[k] = (kind, nlo, nhi)
                grew = True
            else:
                kind, mlo, mhi = m
                nkind = kind
                if kind[0] == 'it' and not (v[0] == 'it' and v[1] == kind[1]):
                    nkind = 'any'
                if kind == 'any' and self.texty(v):
                    nkind = 'text'
                nlo = mlo if lo >= mlo else self.entry_bound(ent, k, lo, 0)
                nhi = mhi if hi <= mhi else self.entry_bound(ent, k, hi, 1)
                if (nkind, nlo, nhi) != m:
                    mods[k] = (nkind, nlo, nhi)
                    grew = True
        for k, o in ent.store.items():
            if k in st.store or k[0] in ('#init', 'R'):
                continue
            if '#gen' in mods and self.shared_root(root(k)):
                continue
            if k not in mods:
                mods[k] = ('any', -INF, INF)
                grew = True
        return grew

    def entry_bound(self, ent, k, x, i):
        """the bound a location had on entry to the loop, if it still is one"""
        o = ent.store.get(k)
        o = o[2] if o is not None and o[0] == 'it' else o
        if o is None or not isinstance(o, tuple) or not self.wlike(o):
            return (-INF, INF)[i]
        b = self.bounds(ent, o)[i]
        return b if (x >= b if i == 0 else x <= b) else (-INF, INF)[i]

    @staticmethod
    def wlike(v):
        return v[0] in ('i', 'ld', 'sym', 'size', 'len') or v[0] == 'op' and v[1] in ('+', '-')

    @staticmethod
    def texty(v):
        return v[0] in ('cat', 's', 'cs', 'fmt') or v[0] == 'op' and v[1] in ('loopval', 'substr', 'filter', 'map', 'erase', 'insert')

    def generic(self, s, ent, key, mods):
        """the loop-head state that stands for every iteration: whatever the loop changes is unknown"""
        if '#gen' in mods:
            self.havoc(s)
        roots = ent.meta['#roots']
        for k in list(s.store):
            if k[0] in ('#init', 'R'):
                continue
            r = root(k)
            if r[0] == 'L' and r not in roots:
                del s.store[k]
        facts = {a: v for a, v in ent.facts.items() if not self._stale(a, s)}
        iv = {a: v for a, v in ent.iv.items() if not self._stale(a, s)}
        s.facts, s.iv = facts, iv
        order = sorted((k for k in mods if k != '#gen'), key=lambda k: len(repr(k)))
        changed = set()
        for k in order:
            kind, lo, hi = mods[k]
            if '#gen' in mods and self.shared_root(root(k)) and k not in ent.meta.get('keep', ()) and not (root(k)[0] == 'A' and root(k) in ent.meta.get('private', ())):
                s.store.pop(k, None)
                continue
            p = k
            inside = False
            while p[0] == 'E':
                p = p[1]
                if p in changed:
                    inside = True
            if inside:
                s.store.pop(k, None)
                continue
            w = ('sym', 'w', key[0], k)
            self.forget(s, w)
            if kind == 'text':
                s.store[k] = ('op', 'loopval', ent.store.get(k, ('s', '')), ('s', str(key[0])), ('s', repr(k)))
            elif kind[0] == 'it':
                s.store[k] = ('it', kind[1], w)
                s.iv[w] = (lo, hi)
            else:
                s.store[k] = w
                if (lo, hi) != (-INF, INF):
                    s.iv[w] = (lo, hi)
                changed.add(k)
        for k in [k for k in s.store if k[0] == 'E' and k not in mods]:
            p = k
            while p[0] == 'E':
                p = p[1]
                if p in changed:
                    del s.store[k]
                    break
        s.gen += 0
        return s

    def forget(self, st, w):
        for a in [a for a in st.facts if mentions(a, w)]:
            del st.facts[a]
        for a in [a for a in st.iv if mentions(a, w)]:
            del st.iv[a]

    def loop(self, n, st, fr, cond, body, inc, var=None, cv=None, first_free=False):
        def chead(s):
            if cond is None:
                return [(s, ('i', 1))]
            if cv:
                prs = []
                for x in self.declare(cv, s, fr):
                    prs.extend(self.rv(cond, x, fr) if not x.comp else [(x, None)])
                return prs
            return self.rv(cond, s, fr)

        def cbody(s):
            bs = self.exec(var, s, fr) if var else [s]
            return [y for x in bs for y in ([x] if x.comp else self.exec(body, x, fr))]

        def cinc(s):
            return [x for x, _ in self.discard(inc, s, fr)] if inc is not None else [s]
        return self.gloop(n, st, fr, ('%s:%s' % (fr.file, n['l']), fr.uid), chead, cbody, cinc, first_free, counted=inc is not None)

    def gloop(self, n, st, fr, key, chead, cbody, cinc, first_free=False, counted=False):
        base = len(st.scopes)
        out0, outv = [], {}
        seen = set()
        unroll = self.opt.get('unroll', 2)
        cap = self.opt.get('head_cap', 6)
        per_visit = {}
        classes = {}                     # locks held -> [version, mods]
        self.emit(st, 'loop', n, fr, loop=key)
        ent = st.fork()
        ent.meta = dict(ent.meta)
        ent.meta['#roots'] = {root(k) for k in ent.store}
        work = [(st, first_free, 0, None)]
        det = counted                    # so far every test of the condition had one known outcome
        iters = 0
        while work:
            s, free, visit, cls = work.pop(0)
            iters += 1
            if iters > self.opt.get('max_iter', 600):
                self.incomplete.append('loop at %s:%s' % (fr.file, n['l']))
                self.mark(s, 'loop limit', n, fr)
                s.comp = ('noret', 'looplimit')
                out0.append(s)
                break
            self.check_budget()
            mode = 'concrete'
            if visit:
                c = (s.locks, len(s.scopes), s.marks)
                if cls is None:
                    sg = self.sig(s, ent.meta['#roots'])
                    if sg in seen:
                        self.emit(s, 'loop_again', n, fr, loop=key)
                        s.comp = ('noret', 'loop')
                        out0.append(s)
                        continue
                    seen.add(sg)
                    per_visit[visit] = per_visit.get(visit, 0) + 1
                if cls is not None or visit > (self.opt.get('unroll_known', 12) if det else unroll) or per_visit[visit] > cap:
                    ver, mods = classes.setdefault(c, [0, {}])
                    grew = self.loop_diff(s, ent, key, mods)
                    if grew or ver == 0:
                        classes[c][0] += 1
                        ver = classes[c][0]
                        if ver > 40:
                            self.incomplete.append('loop at %s:%s does not stabilise' % (fr.file, n['l']))
                            s.comp = ('noret', 'looplimit')
                            out0.append(s)
                            continue
                        s = self.generic(s, ent, key, mods)
                        cls = (c, ver)
                        mode = 'generic'
                    else:
                        self.emit(s, 'loop_again', n, fr, loop=key)
                        s.comp = ('noret', 'loop')
                        (outv.setdefault(cls, []) if cls else out0).append(s)
                        continue
            if cls is not None and classes[cls[0]][0] != cls[1]:
                continue                 # superseded by a wider head state
            dst = out0 if cls is None else outv.setdefault(cls, [])
            self.emit(s, 'iter', n, fr, loop=key, mode=mode, visit=visit)
            s.scopes = s.scopes + ((),)
            prs = [(s, ('i', 1))] if free else chead(s)
            for s1, v in prs:
                if s1.comp:
                    dst.extend(self.leave(s1, base + 1, fr, n))
                    continue
                ds = self.decide(s1, v, n, fr)
                if len(ds) > 1:
                    det = False
                for s2, b in ds:
                    if not b:
                        for s3 in self.leave(s2, base + 1, fr, n):
                            self.emit(s3, 'loop_exit', n, fr, loop=key, how='cond')
                            dst.append(s3)
                        continue
                    for s3 in cbody(s2):
                        for s4 in self.leave(s3, base + 1, fr, n):
                            if s4.comp == ('brk',):
                                s4.comp = None
                                self.emit(s4, 'loop_exit', n, fr, loop=key, how='break')
                                dst.append(s4)
                                continue
                            if s4.comp == ('cont',):
                                s4.comp = None
                            if s4.comp:
                                dst.append(s4)
                                continue
                            for s5 in cinc(s4):
                                if s5.comp:
                                    dst.append(s5)
                                else:
                                    work.append((s5, False, visit + 1, cls))
        out = list(out0)
        for (c, ver), l in outv.items():
            if classes[c][0] == ver:
                out.extend(l)
        return out

    # ------------------------------------------------------------- entry points
    def new_state(self):
        st = St()
        st.scopes = ((),)
        return st

    def entry_frame(self, label='<entry>'):
        fr = Frame(None, self.uid(None, ('e', label)), None, None)
        return fr

    def run_fn(self, f, this='this', st=None, args=None, label=None, fr=None, dest=None):
        """interpret function f on an arbitrary initial environment; returns list of (state, value)"""
        st = st or self.new_state()
        fr = fr or self.entry_frame(label or f['id'])
        loc = None
        if f.get('rec') and not f.get('sm'):
            loc = ('A', this) if isinstance(this, str) else this
            self.ltype.setdefault(loc, f['rec'])
        prs = [(st, None)]
        alist = []
        for i, p in enumerate(f['params']):
            if args is not None and i < len(args) and args[i] is not None:
                alist.append(args[i])
                continue
            alist.append(self.sym_arg(st, p))
        nf_dest = dest
        if nf_dest is None and self.p.isrec(f.get('ret') or '') and f.get('kind') not in ('ctor', 'dtor'):
            nf_dest = ('A', '#ret')
            self.ltype[nf_dest] = f['ret']
            self.mark_private(st, nf_dest)
        try:
            return self.inline(f, loc, alist, st, fr, None, nf_dest if f.get('kind') != 'ctor' else loc)
        except Limit as e:
            self.incomplete.append('%s: %s' % (f['sn'], e))
            return []

    def mark_private(self, st, loc):
        st.meta['private'] = st.meta.get('private', ()) + (loc,)

    def sym_arg(self, st, p):
        n = p['n'] or ('arg%s' % p['id'])
        t = p['t']
        u = self.p.unref(t)
        loc = ('A', n)
        self.ltype[loc] = u
        if self.tk(t) in ('lref', 'rref') or self.p.isrec(t):
            self.mark_private(st, loc)
            return Arg(loc=loc, t=u, x=self.p.isrec(t))
        return Arg(val=('ld', ('A', n), 0), t=t)
