"""Abstract semantics of the library functions the code under analysis uses (standard library, POSIX)."""
import re
from interp import Arg, Ctx, F, cat, parts, root, mentions, show, INF, Limit

NPOS = 18446744073709551615
STR = 'std::basic_string'
SEQ = {'std::vector', 'std::list', 'std::deque', 'std::queue', 'std::forward_list', 'std::stack', 'std::array', 'std::priority_queue'}
MAP = {'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap'}
SSTREAM = {'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_stringbuf'}
PTRS = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::weak_ptr', 'std::__weak_ptr'}
GUARDS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'}
MUTEX = {'std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::shared_timed_mutex', 'std::recursive_timed_mutex'}
ATOM = {'std::atomic', 'std::__atomic_base', 'std::atomic_flag', 'std::__atomic_float'}
STREAMS = {'std::basic_ostream', 'std::basic_ofstream', 'std::basic_ios', 'std::ios_base', 'std::basic_fstream', 'std::basic_istream', 'std::basic_iostream'} | SSTREAM
ITER = re.compile(r'(normal_iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_Deque_iterator|_Node_(const_)?iterator|reverse_iterator|back_insert_iterator|_Fwd_list_(const_)?iterator)$')
FINAL = {'exit': 'exit', '_exit': '_exit', '_Exit': '_exit', 'std::exit': 'exit', 'std::_Exit': '_exit', 'quick_exit': '_exit', 'std::quick_exit': '_exit',
         'abort': 'abort', 'std::abort': 'abort', 'std::terminate': 'terminate', '__assert_fail': 'abort', '__builtin_unreachable': 'unreachable', '__builtin_trap': 'abort'}


def rn(I, t):
    r = I.recof(t) if t else None
    return I.p.recname(r) if r else ''


def targs(I, t):
    r = I.p.records.get(I.recof(t) or '', {})
    return r.get('targs') or []


def elem_t(I, t):
    a = targs(I, t)
    if rn(I, t) in ('std::map', 'std::unordered_map', 'std::multimap'):
        return None
    return a[0] if a else None


def val(I, st, loc):
    v = I._read(st, loc)
    n = 0
    while v[0] == 'ref' and n < 5:
        v = I._read(st, v[1])
        n += 1
    return v


def ret(I, st, c, v):
    if c.dest is not None and (c.t is None or I.p.isrec(I.p.unref(c.t))):
        st.store[c.dest] = v
        return [(st, c.dest)]
    return [(st, v)]


# ------------------------------------------------------------------ strings
def text(I, st, v):
    """content of a C string"""
    if v[0] == 'cstr':
        return upto_nul(v[1])
    if v[0] == 'ptr':
        l = v[1]
        if l[0] == 'S':
            return ('s', l[1])
        if l[0] == 'E' and l[2] == ('i', 0):
            l = l[1]
        x = st.store.get(l)
        if (x is None or x[0] == 'op') and F(l, '#text') in st.store:
            x = st.store[F(l, '#text')]
        if x is None and root(l)[0] == 'G':
            x = I._read(st, l)
            if x[0] == 'ld':
                x = None
        if x is not None:
            if x[0] == 's':
                return x
            if x[0] in ('vsn', 'tmfmt'):
                return ('text', x)
            if x[0] == 'zero':
                return ('s', '')
    return ('cs', v)


def upto_nul(t):
    """what is left of a string that is passed on as a C string"""
    if nul_free(t):
        return t
    return ('op', 'cstr', t)


def nul_free(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 's':
        return isinstance(t[1], str) and '\0' not in t[1]
    if t[0] in ('fmt', 'cs', 'text', 'moved'):
        return True
    if t[0] == 'cat':
        return all(nul_free(x) for x in t[1:])
    return t[0] == 'op' and t[1] == 'cstr'


CHARISH = ('s', 'cat', 'cs', 'fmt', 'text', 'moved')


def chr_term(v):
    if v[0] == 'i':
        return ('s', chr(v[1] % 256))
    return ('chr', v)


def strof(I, st, a):
    """string content of an argument (std::string, string_view, char*, char)"""
    t = I.p.unref(a.t) if a.t else None
    k = I.tk(t) if t else None
    if k == 'rec':
        v = I.aval(st, a)
        if v[0] in ('ptr', 'cstr'):
            return text(I, st, v)
        return v
    if k == 'array':
        return text(I, st, ('ptr', a.loc)) if a.loc is not None else a.val
    v = I.aval(st, a)
    if k == 'int':
        return chr_term(v)
    if v[0] in CHARISH:
        return v
    return text(I, st, v)


def fmt(I, v, t):
    k = I.tk(I.p.unref(t)) if t else None
    if k == 'int' and I.p.ty(I.p.unref(t)).get('bits') == 8:
        return chr_term(v)
    if v[0] == 'i':
        return ('s', str(v[1]))
    return ('fmt', v)


def size_of(v):
    if v[0] == 's':
        return ('i', len(v[1]))
    if v[0] == 'seq':
        return ('i', v[1])
    if v[0] == 'cmap':
        return ('i', len(v[1]))
    if v[0] == 'il':
        return ('size', v)
    if v[0] == 'cpush':
        b = size_of(v[1])
        return ('i', b[1] + 1) if b[0] == 'i' else ('op', '+', b, ('i', 1))
    return ('size', v)


def is_empty(v):
    if v[0] == 's':
        return ('i', int(v[1] == ''))
    if v[0] == 'seq':
        return ('i', int(v[1] == 0))
    if v[0] == 'cmap':
        return ('i', int(not v[1]))
    if v[0] in ('cpush', 'cins'):
        return ('i', 0)
    return ('empty', v)


# ------------------------------------------------------------------ copying library objects
def copy_func(I, st, v, fr, node):
    """deep copy of a std::function target"""
    if v[0] == 'func':
        h = I.heap(I.ltype.get(v[1]))
        t = I.ltype.get(v[1])
        return [(s, ('func', h)) for s in copy_callable(I, st, v[1], h, t, fr, node, False)]
    return [(st, v)]


def copy_callable(I, st, src, dst, t, fr, node, move):
    v = val(I, st, src)
    if v[0] == 'bind':
        return copy_bind(I, st, src, dst, v, fr, node, move)
    if t and I.p.isrec(I.p.unref(t)):
        I.ltype[dst] = I.p.unref(t)
        return I.copy_obj(st, src, dst, t, fr, node, move=move)
    st.store[dst] = v
    return [st]


def copy_bind(I, st, src, dst, v, fr, node, move):
    st.store[dst] = v
    if src in I.ltype:
        I.ltype[dst] = I.ltype[src]
    sts = [st]
    for n in ['fn'] + ['a%d' % i for i in range(v[1])]:
        sl, dl = F(src, n), F(dst, n)
        t = I.ltype.get(sl)
        I.ltype[dl] = t
        nxt = []
        for s in sts:
            x = s.store.get(sl)
            if t and I.p.isrec(I.p.unref(t)) and not (x and x[0] in ('placeholder', 'refw')):
                nxt.extend(I.copy_obj(s, sl, dl, t, fr, node, move=move))
            else:
                s.store[dl] = x if x is not None else I._read(s, sl)
                nxt.append(s)
        sts = nxt
    return sts


def moved_value(name, v):
    if name in PTRS or name in ('std::function', 'std::thread', 'std::jthread', 'std::future', 'std::promise', 'std::packaged_task', 'std::shared_future', 'std::unique_lock'):
        return ('null',)
    if name == STR or name in SEQ or name in MAP:
        return ('moved',)
    return None


def copy_std(I, st, src, dst, rec, t, fr, node, move):
    name = I.p.recname(rec)
    I.ltype[dst] = I.p.unref(t)
    v = I.read(st, src, fr, node)
    while v[0] == 'ref':
        v = I._read(st, v[1])
    if v[0] == 'ald':
        pass
    if name == 'std::function' and v[0] == 'func' and not move:
        out = []
        for s, nv in copy_func(I, st, v, fr, node):
            s.store[dst] = nv
            out.append(s)
        return out
    if v[0] == 'bind':
        return copy_bind(I, st, src, dst, v, fr, node, move)
    if v[0] == 'ptask':
        I.copy_tree(st, src, dst)
        move_types(I, st, src, dst)
        if move:
            st.store[src] = ('null',)
        return [st]
    if name in SEQ or name in MAP or name.startswith('std::pair') or name.startswith('std::tuple') or name == 'std::optional':
        # keep elements reachable
        kids = I.subtree(st, src)
        I.purge(st, dst)
        for k in kids:
            st.store[_rb(k, src, dst)] = st.store[k]
        if name in ('std::pair', 'std::tuple', 'std::optional'):
            st.store[dst] = st.store.get(src) or ('struct', src)
        else:
            st.store[dst] = v
            if v[0] not in ('seq', 'cmap') and ('F', src, '#src') not in st.store:
                st.store[('F', dst, '#src')] = src
        for k in list(I.ltype):
            pass
        if move and name in SEQ | MAP:
            I.purge(st, src)
            I.write(st, src, ('moved',), fr, node)
        return [st]
    if name in ('tm', 'sigaction', 'timespec', 'timeval') or not name.startswith('std::'):
        I.copy_tree(st, src, dst)
        return [st]
    st.store[dst] = v
    if move:
        m = moved_value(name, v)
        if m is not None and v[0] != 'zero':
            I.write(st, src, m, fr, node)
    return [st]


def _rb(k, a, b):
    from interp import rebase
    return rebase(k, a, b)


def move_types(I, st, src, dst):
    for k in I.subtree(st, dst):
        s = _rb(k, dst, src)
        if s in I.ltype:
            I.ltype[k] = I.ltype[s]


def assign_std(I, st, src, dst, rec, t, fr, node, move):
    if src == dst:
        return [st]
    name = I.p.recname(rec)
    old = st.store.get(dst)
    sts = [st]
    if name == 'std::unique_ptr':
        ov = I.read(st, dst, fr, node)
        v = I.read(st, src, fr, node)
        I.write(st, src, ('null',), fr, node)
        I.write(st, dst, v, fr, node)
        return drop_unique(I, st, ov, t, fr, node)
    out = []
    pre = {}
    tmp = I.tmp(I.p.unref(t))
    for s in copy_std(I, st, src, tmp, rec, t, fr, node, move):
        if s.comp:
            out.append(s)
            continue
        if name in ('std::thread', 'std::jthread') and val(I, s, dst)[0] not in ('null', 'uninit'):
            I.emit(s, 'thread_overwrite', node, fr, thread=dst)
        nv = s.store.get(tmp)
        if nv is None or nv[0] in ('struct',):
            I.copy_tree(s, tmp, dst)
        else:
            kids = I.subtree(s, tmp)
            for k in I.subtree(s, dst):
                del s.store[k]
            for k in kids:
                s.store[_rb(k, tmp, dst)] = s.store[k]
                if k in I.ltype:
                    I.ltype[_rb(k, tmp, dst)] = I.ltype[k]
        I.purge(s, tmp)
        I.write(s, dst, nv if nv is not None else ('struct', src), fr, node)
        if nv is not None and nv[0] == 'struct':
            s.store[dst] = nv
        out.append(s)
    return out


def drop_unique(I, st, v, t, fr, node):
    """destroy what a unique_ptr owned"""
    a = targs(I, t)
    et = a[0] if a else None
    if et is None or not I.p.isrec(et):
        if v[0] != 'null':
            I.emit(st, 'delete', node, fr, val=v, t=et)
        return [st]
    out = []
    for s, b in I.decide(st, v, node, fr):
        if b:
            out.extend(I.destroy_ptr(s, v, et, fr, node))
        else:
            out.append(s)
    return out


# ------------------------------------------------------------------ destruction
def destroy_std(I, st, loc, rec, t, fr, node):
    name = I.p.recname(rec)
    if name == 'std::unique_ptr':
        return drop_unique(I, st, val(I, st, loc), t, fr, node)
    if name in ('std::shared_ptr',):
        v = val(I, st, loc)
        if v[0] != 'null':
            I.emit(st, 'release', node, fr, val=v, loc=loc)
        return [st]
    if name in GUARDS:
        v = st.store.get(loc)
        if v and v[0] in ('guard', 'ulock') and v[2]:
            for m in v[1]:
                unlock(I, st, m, node, fr)
        return [st]
    if name in ('std::thread',):
        v = val(I, st, loc)
        if v[0] not in ('null', 'uninit', 'joined'):
            I.emit(st, 'thread_dtor', node, fr, thread=loc, val=v)
        return [st]
    if name == 'std::jthread':
        v = val(I, st, loc)
        if v[0] not in ('null', 'uninit', 'joined'):
            I.emit(st, 'join', node, fr, thread=loc, val=v, auto=True)
            I.havoc(st)
        return [st]
    if name == 'std::function':
        v = st.store.get(loc)
        if v and v[0] == 'func':
            ht = I.ltype.get(v[1])
            if ht and I.p.isrec(I.p.unref(ht)) and I.p.isrepo(I.p.rec(I.p.unref(ht))):
                return I.destroy(st, v[1], I.p.unref(ht), fr, node)
        return [st]
    if name in ('std::vector', 'std::list', 'std::deque'):
        et = elem_t(I, t)
        v = val(I, st, loc)
        if et and rn(I, et) in ('std::shared_ptr', 'std::unique_ptr') and v != ('seq', 0):
            I.emit(st, 'clear', node, fr, cont=loc, val=v, dtor=True)
        return [st]
    if name == 'std::basic_ofstream':
        I.emit(st, 'close', node, fr, stream=loc, dtor=True)
        return [st]
    if name == 'std::future':
        return [st]
    if name == 'std::packaged_task':
        v = st.store.get(loc)
        return [st]
    return [st]


# ------------------------------------------------------------------ locks
def lock(I, st, m, node, fr, try_=False):
    I.emit(st, 'lock', node, fr, m=m, again=m in st.locks, kind=rn(I, I.ltype.get(m)) if I.ltype.get(m) else '')
    st.locks = st.locks + (m,)


def unlock(I, st, m, node, fr):
    l = list(st.locks)
    if m in l:
        l.reverse()
        l.remove(m)
        l.reverse()
        st.locks = tuple(l)
    I.emit(st, 'unlock', node, fr, m=m)


# ------------------------------------------------------------------ construction
def store_callable(I, st, a, loc, fr, node):
    """decay-copy a callable (or any) argument to loc"""
    t = I.p.unref(a.t) if a.t else None
    if t:
        I.ltype[loc] = I.nocv(t)
    if a.loc is not None:
        v = st.store.get(a.loc)
        if v is None:
            v = I._read(st, a.loc)
        if v[0] == 'ref':
            st.store[loc] = v
            return [st]
        if t and I.p.isrec(t):
            return copy_callable(I, st, a.loc, loc, t, fr, node, a.x)
        st.store[loc] = v
        return [st]
    st.store[loc] = a.val
    return [st]


def make_func(I, st, a, dest, fr, node):
    t = I.p.unref(a.t) if a.t else None
    name = rn(I, t) if t else ''
    v = I.aval(st, a)
    if name == 'std::function':
        if v[0] == 'func' and not a.x:
            out = []
            for s, nv in copy_func(I, st, v, fr, node):
                s.store[dest] = nv
                out.append((s, dest))
            return out
        st.store[dest] = v
        if a.x and a.loc is not None and not a.tmp:
            st.store[a.loc] = ('null',)
        return [(st, dest)]
    if t and I.p.isrec(t):
        h = I.heap(t)
        out = []
        for s in store_callable(I, st, a, h, fr, node):
            s.store[dest] = ('func', h)
            out.append((s, dest))
        return out
    st.store[dest] = v
    return [(st, dest)]


def construct_object(I, st, t, loc, args, fr, node):
    """construct an object of type t from evaluated arguments (make_unique, emplace...)"""
    I.ltype[loc] = t
    rec = I.p.rec(t)
    if rec is None:
        st.store[loc] = I.aval(st, args[0]) if args else ('i', 0)
        return [(st, loc)]
    if I.p.isrepo(rec):
        r = I.p.records[rec]
        if len(args) == 1 and args[0].t and I.same_class(args[0].t, t):
            return [(s, loc) for s in I.copy_obj(st, args[0].loc, loc, t, fr, node, move=args[0].x)]
        best = None
        ids = [m['id'] for m in r.get('methods', []) if m.get('ctor') and not m.get('deleted')]
        ids += [f['id'] for f in I.p.functions.values() if f.get('rec') == rec and f.get('kind') == 'ctor' and f['id'] not in ids]
        for mid in ids:
            f = I.p.functions.get(mid)
            if not f:
                continue
            ps = f['params']
            if len(ps) < len(args) or any('def' not in p for p in ps[len(args):]):
                continue
            sc = 0
            for p, a in zip(ps, args):
                pt, at = I.nocv(I.p.unref(p['t'])), I.nocv(I.p.unref(a.t or ''))
                if pt == at:
                    sc += 3
                elif I.p.isrec(pt) and I.p.isrec(at) and I.same_class(pt, at):
                    sc += 2
                elif I.tk(pt) == I.tk(at):
                    sc += 1 if I.tk(pt) not in ('memptr', 'ptr') else -1
                elif I.tk(at) == 'array' and I.tk(pt) == 'ptr':
                    sc += 1
                elif rn(I, pt) in (STR, 'std::function', 'std::shared_ptr', 'std::unique_ptr'):
                    sc += 0
                else:
                    sc -= 5
            if best is None or sc > best[0]:
                best = (sc, f)
        if best:
            return [(s, loc) for s, _ in I.inline(best[1], loc, args, st, fr, node, loc)]
        if not args:
            return [(s, loc) for s in I.default_init(st, loc, rec, fr, node)]
        if r.get('agg'):
            sts = [st]
            for f, a in zip(r['fields'], args):
                sts = [y for s in sts for y in store_callable(I, s, a, F(loc, f['n']), fr, node)]
            return [(s, loc) for s in sts]
        I.mark(st, 'no constructor of %s for make_*' % I.p.recname(rec), node, fr)
        st.store[loc] = ('sym', 'obj', I.fresh())
        return [(st, loc)]
    ck = 'default' if not args else ('move' if len(args) == 1 and args[0].x and args[0].t and I.same_class(args[0].t, t) else 'copy' if len(args) == 1 and args[0].t and I.same_class(args[0].t, t) else 'other')
    return construct_std(I, st, Ctx(node=node, fr=fr, obj=loc, args=args, dest=loc, name='', t=t), rec, ck)


def bool_t(I, t):
    return I.tk(I.p.unref(t or '')) == 'bool'


def construct_std(I, st, c, rec, ckind):
    name = I.p.recname(rec)
    args = [a for a in c.args if rn(I, a.t) not in ('std::allocator',)]
    dest, fr, node = c.dest, c.fr, c.node
    t = c.t
    if t:
        I.ltype[dest] = I.nocv(I.p.unref(t))

    def put(v):
        st.store[dest] = v
        return [(st, dest)]
    if name.endswith('::_Sentry') or name == 'std::allocator':
        return put(('sym', 'o'))
    if ckind in ('copy', 'move') and args and args[0].loc is not None and args[0].loc != dest:
        return [(s, dest) for s in copy_std(I, st, args[0].loc, dest, rec, I.p.unref(t or args[0].t), fr, node, ckind == 'move')]
    if name == STR or name == 'std::basic_string_view':
        if not args:
            return put(('s', ''))
        a0 = args[0]
        k0 = I.tk(I.p.unref(a0.t or ''))
        if rn(I, a0.t) == 'std::initializer_list':
            v = I.aval(st, a0)
            if v[0] == 'il':
                n = st.store.get(('#len', v[1]), ('i', 0))[1]
                return put(cat(*[chr_term(I._read(st, ('E', v[1], ('i', i)))) for i in range(n)]))
        if k0 == 'int' and len(args) == 2:
            n, ch = I.aval(st, a0), I.aval(st, args[1])
            if n[0] == 'i' and ch[0] == 'i' and n[1] < 10000:
                return put(('s', chr(ch[1] % 256) * max(0, n[1])))
            return put(('op', 'repeat', n, ch))
        s0 = strof(I, st, a0)
        if len(args) == 1:
            if a0.x and a0.loc is not None and rn(I, a0.t) == STR and not a0.tmp:
                st.store[a0.loc] = ('moved',)
            return put(s0)
        if rn(I, a0.t) in (STR, 'std::basic_string_view') or k0 in ('ptr', 'array'):
            if ITER.search(rn(I, a0.t)):
                pass
            n = [I.aval(st, x) for x in args[1:]]
            if s0[0] == 's' and n[0][0] == 'i' and len(n) == 1 and k0 in ('ptr', 'array'):
                return put(('s', s0[1][:n[0][1]]))
            if k0 in ('ptr', 'array'):
                return put(('op', 'prefix', s0) + tuple(n))
            return put(substr(s0, n[0], n[1] if len(n) > 1 else ('i', NPOS)))
        v0 = I.aval(st, a0)
        if v0[0] == 'it':
            v1 = I.aval(st, args[1])
            src = val(I, st, v0[1])
            if v1[0] == 'it' and v0[2] == ('i', 0) and v1[2] == size_of(src):
                return put(src)
            if v1[0] == 'it':
                return put(('op', 'range', src, v0[2] if isinstance(v0[2], tuple) else ('s', str(v0[2])), v1[2]))
        return put(('op', 'str') + tuple(I.aval(st, a) for a in args))
    if name in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr'):
        if not args:
            return put(('null',))
        a0 = args[0]
        n0 = rn(I, a0.t)
        v = I.aval(st, a0, fr, node)
        if n0 == 'std::weak_ptr':
            out = []
            for s, b in I.decide(st, ('alive', weakval(v), I.fresh()), node, fr):
                if b:
                    s.store[dest] = weakval(v)
                    I.assume(s, weakval(v), True)
                    I.emit(s, 'acquire', node, fr, val=weakval(v))
                    out.append((s, dest))
                else:
                    s.comp = ('thr', ('exc', 'std::bad_weak_ptr', None))
                    I.emit(s, 'throw', node, fr, what='std::bad_weak_ptr')
                    out.append((s, None))
            return out
        if n0 in PTRS and a0.x and a0.loc is not None and not a0.tmp:
            I.write(st, a0.loc, ('null',), fr, node)
        elif n0 == 'std::unique_ptr' and a0.loc is not None:
            st.store[a0.loc] = ('null',)
        return put(v)
    if name == 'std::weak_ptr':
        if not args:
            return put(('null',))
        v = I.aval(st, args[0], fr, node)
        return put(v if v[0] in ('weak', 'null') else ('weak', v))
    if name == 'std::function':
        if not args or I.tk(I.p.unref(args[0].t or '')) == 'nullptr':
            return put(('null',))
        return make_func(I, st, args[0], dest, fr, node)
    if name in ('std::_Bind', 'std::_Bind_result', 'std::reference_wrapper'):
        if name == 'std::reference_wrapper':
            return put(('refw', args[0].loc))
    if name in ('std::thread', 'std::jthread'):
        if not args:
            return put(('null',))
        return start_thread(I, st, args, dest, fr, node)
    if name in ('std::packaged_task',):
        if not args:
            return put(('null',))
        n = I.fresh()
        h = F(dest, 'fn')
        out = []
        for s in store_callable(I, st, args[0], h, fr, node):
            s.store[dest] = ('ptask', n)
            out.append((s, dest))
        return out
    if name == 'std::promise':
        return put(('prom', I.fresh()))
    if name in ('std::future', 'std::shared_future'):
        if not args:
            return put(('null',))
        v = I.aval(st, args[0])
        if args[0].x and args[0].loc is not None and not args[0].tmp:
            st.store[args[0].loc] = ('null',)
        return put(v)
    if name in GUARDS:
        ms = []
        mode = 'lock'
        for a in args:
            an = rn(I, a.t)
            if an.startswith('std::defer_lock') or an == 'std::defer_lock_t':
                mode = 'defer'
            elif an == 'std::adopt_lock_t':
                mode = 'adopt'
            elif an == 'std::try_to_lock_t':
                mode = 'try'
            elif a.loc is not None:
                ms.append(a.loc)
        if mode == 'try':
            s2 = st.fork()
            s2.store[dest] = ('ulock', tuple(ms), False)
            for m in ms:
                lock(I, st, m, node, fr, True)
            st.store[dest] = ('ulock', tuple(ms), True)
            return [(st, dest), (s2, dest)]
        if mode == 'lock':
            for m in ms:
                lock(I, st, m, node, fr)
        kind = 'ulock' if name in ('std::unique_lock', 'std::shared_lock') else 'guard'
        if not ms:
            return put((kind, (), False))
        return put((kind, tuple(ms), mode != 'defer'))
    if name in MUTEX or name in ('std::condition_variable', 'std::condition_variable_any', 'std::once_flag'):
        return put(('sync',))
    if name in ATOM:
        if not args:
            return put(('i', 0))
        v = I.aval(st, args[0], fr, node)
        return put(v)
    if name in SEQ or name in MAP or name in ('std::pair', 'std::tuple', 'std::initializer_list'):
        return construct_container(I, st, c, rec, name, args)
    if name in STREAMS:
        if name in SSTREAM:
            st.store[dest] = ('s', '')
            sa = [a for a in args if rn(I, a.t) == STR]
            if sa:
                st.store[dest] = strof(I, st, sa[0])
            return [(st, dest)]
        if args and name in ('std::basic_ofstream', 'std::basic_fstream'):
            st.store[dest] = ('stream', I.fresh())
            return open_stream(I, st, dest, args, node, fr, dest)
        return put(('stream', I.fresh()))
    if ITER.search(name) or name.startswith('__gnu_cxx::'):
        if args:
            return put(I.aval(st, args[0]))
        return put(('it', None, None))
    if name in ('std::runtime_error', 'std::logic_error', 'std::exception', 'std::bad_weak_ptr', 'std::out_of_range', 'std::invalid_argument'):
        st.store[dest] = ('excobj', name) + tuple(strof(I, st, a) for a in args)
        return [(st, dest)]
    if name.startswith('std::chrono::') or name.startswith('std::thread::id') or name in ('std::less', 'std::hash', 'std::greater'):
        if not args:
            return put(('i', 0))
        v = I.aval(st, args[0])
        at = args[0].t
        if name == 'std::chrono::duration':
            v = conv_dur(I, v, at, t)       # unit conversion between durations
        return put(v)
    if name in ('tm', 'sigaction', 'timespec', '__va_list_tag', 'timeval'):
        if not args:
            vi = node.get('zeroing') or (node.get('list')) if isinstance(node, dict) else None
            if vi:
                st.store[dest] = ('zero',)
            else:
                I.purge(st, dest)
            return [(st, dest)]
        return put(I.aval(st, args[0]))
    if name == 'std::optional':
        if not args or rn(I, args[0].t) == 'std::nullopt_t':
            return put(('null',))
        out = []
        for s in store_callable(I, st, args[0], F(dest, 'value'), fr, node):
            s.store[dest] = ('some',)
            out.append((s, dest))
        return out
    if name in ('std::error_code', 'std::locale', 'std::random_device') or name.endswith('_t'):
        return put(('sym', name, I.fresh()))
    if name.startswith('std::integral_constant') or name.startswith('std::_Placeholder'):
        return put(('i', 0))
    I.unknown.add('ctor ' + name)
    I.mark(st, 'unmodelled constructor ' + name, node, fr)
    return put(('sym', name, I.fresh()))


def weakval(v):
    return v[1] if v[0] == 'weak' else v


def splice(v, p, n, s):
    if v[0] == 's' and s[0] == 's' and p[0] == 'i' and n[0] == 'i' and 0 <= p[1] <= len(v[1]):
        return ('s', v[1][:p[1]] + s[1] + v[1][p[1] + n[1]:])
    return ('op', 'splice', v, p, n, s)


def substr(s, pos, n):
    if s[0] == 's' and pos[0] == 'i' and n[0] == 'i':
        return ('s', s[1][pos[1]:] if n[1] >= NPOS // 2 else s[1][pos[1]:pos[1] + n[1]])
    if pos == ('i', 0) and n == ('i', NPOS):
        return s
    return ('op', 'substr', s, pos, n)


def make_tuple(I, st, dest, ta, args, fr, node):
    st.store[dest] = ('pair',)
    I.ltype[dest] = I.ltype.get(dest) or 'std::tuple'
    sts = [st]
    for i, a in enumerate(args):
        if i < len(ta) and I.tk(ta[i]) in ('lref', 'rref') and a.loc is not None:
            for s in sts:
                v = s.store.get(a.loc)
                s.store[F(dest, i)] = v if v is not None and v[0] == 'ref' else ('ref', a.loc)
        else:
            sts = [y for s in sts for y in store_callable(I, s, a, F(dest, i), fr, node)]
    return sts


def construct_container(I, st, c, rec, name, args):
    dest, fr, node, t = c.dest, c.fr, c.node, c.t
    if name == 'std::pair':
        ta = targs(I, t)
        sts = [st]
        st.store[dest] = ('pair',)
        if not args:
            for n, tt in zip(('first', 'second'), ta):
                sts = [x for s in sts for x, _ in construct_object(I, s, I.nocv(tt), F(dest, n), [], fr, node)]
            return [(s, dest) for s in sts]
        if len(args) == 2:
            for n, a, tt in zip(('first', 'second'), args, ta):
                nxt = []
                for s in sts:
                    nxt.extend(x for x, _ in construct_object(I, s, I.nocv(tt), F(dest, n), [a], fr, node))
                sts = nxt
            return [(s, dest) for s in sts]
        a = args[0]
        if a.loc is not None:
            for n, tt in zip(('first', 'second'), ta):
                fl = F(a.loc, n)
                nxt = []
                for s in sts:
                    at = I.ltype.get(fl, I.nocv(tt))
                    nxt.extend(x for x, _ in construct_object(I, s, I.nocv(tt), F(dest, n), [Arg(loc=fl, t=at, x=a.x)], fr, node))
                sts = nxt
            return [(s, dest) for s in sts]
    if name == 'std::tuple':
        return [(s, dest) for s in make_tuple(I, st, dest, targs(I, t), args, fr, node)]
    if name == 'std::initializer_list':
        st.store[dest] = I.aval(st, args[0]) if args else ('seq', 0)
        return [(st, dest)]
    args = [a for a in args if not rn(I, a.t).startswith(('std::less', 'std::hash', 'std::equal_to', 'std::allocator', 'std::greater'))]
    if not args:
        st.store[dest] = ('cmap', ()) if name in MAP else ('seq', 0)
        return [(st, dest)]
    v = I.aval(st, args[0])
    if v[0] == 'il':
        arr = v[1]
        n = st.store.get(('#len', arr), ('i', 0))[1]
        if name in MAP:
            keys = []
            for i in range(n):
                e = ('E', arr, ('i', i))
                k = I._read(st, F(e, 'first')) if name not in ('std::set', 'std::unordered_set') else I._read(st, e)
                if k in keys:
                    continue
                keys.append(k)
                d = ('E', dest, ('key', k))
                for kk in I.subtree(st, e):
                    st.store[_rb(kk, e, d)] = st.store[kk]
                    if kk in I.ltype:
                        I.ltype[_rb(kk, e, d)] = I.ltype[kk]
                if st.store.get(e) is not None:
                    st.store[d] = st.store[e]
            if all(k[0] == 'i' for k in keys):
                keys.sort(key=lambda k: k[1])
            st.store[dest] = ('cmap', tuple(keys))
        else:
            for i in range(n):
                e, d = ('E', arr, ('i', i)), ('E', dest, ('i', i))
                for kk in I.subtree(st, e):
                    st.store[_rb(kk, e, d)] = st.store[kk]
                if e in st.store:
                    st.store[d] = st.store[e]
            st.store[dest] = ('seq', n)
        return [(st, dest)]
    if v[0] == 'it' and len(args) >= 2:
        w = I.aval(st, args[1])
        src = val(I, st, v[1])
        if w[0] == 'it' and v[2] == ('i', 0) and w[2] == size_of(src):
            return [(s, dest) for s in copy_std(I, st, v[1], dest, rec, t, fr, node, False)]
        st.store[dest] = ('sym', 'range', I.fresh())
        return [(st, dest)]
    # vector(n) / vector(n, v)
    if I.tk(I.p.unref(args[0].t or '')) == 'int':
        st.store[dest] = ('op', 'filled', v, I.aval(st, args[1]) if len(args) > 1 else ('i', 0))
        I.emit(st, 'alloc', node, fr, loc=dest, size=v)
        return [(st, dest)]
    st.store[dest] = v
    return [(st, dest)]


def start_thread(I, st, args, dest, fr, node):
    n = I.fresh()
    h = ('H', I.fresh())
    sts = [st]
    for i, a in enumerate(args):
        l = F(h, 'fn' if i == 0 else 'a%d' % (i - 1))
        sts = [y for s in sts for y in store_callable(I, s, a, l, fr, node)]
    out = []
    for s in sts:
        s.store[h] = ('bind', len(args) - 1)
        s.store[dest] = ('thread', h)
        I.emit(s, 'thread_start', node, fr, snap=True, thread=dest, fn=h)
        out.append((s, dest))
    return out


def open_stream(I, st, loc, args, node, fr, res):
    name = strof(I, st, args[0])
    mode = I.aval(st, args[1]) if len(args) > 1 else ('s', 'default')
    I.emit(st, 'open', node, fr, stream=loc, name=name, mode=mode)
    st.store[F(loc, '#open')] = ('op', 'opened', name, ('i', I.fresh()))
    return [(st, res)]


# ------------------------------------------------------------------ calls
def run_task(I, st, loc, v, args, fr, node, dest):
    out = []
    for s, r in I.invoke_loc(st, F(loc, 'fn'), args, fr, node, I.heap(None)):
        if s.comp and s.comp[0] == 'thr':
            s.store[('#fut', v[1])] = s.comp[1]
            I.emit(s, 'task_exc', node, fr, n=v[1], exc=s.comp[1][1])
            s.comp = None
        elif not s.comp:
            s.store[('#fut', v[1])] = r if isinstance(r, tuple) else ('void',)
            I.emit(s, 'task_done', node, fr, n=v[1])
        out.append((s, ('void',)))
    return out


def is_const_param(pt):
    return pt.startswith('const ') and (pt.endswith('&') or pt.endswith('*')) or not (pt.endswith('&') or pt.endswith('*'))


def unknown(I, st, c):
    """a function we have no model for"""
    I.unknown.add(c.name)
    I.mark(st, 'unmodelled call ' + c.name, c.node, c.fr)
    I.emit(st, 'unknown', c.node, c.fr, name=c.name, args=tuple(a.loc if a.loc is not None else a.val for a in c.args))
    pts = (c.node or {}).get('pt') or []
    for i, a in enumerate(c.args):
        pt = pts[i] if i < len(pts) else ''
        if is_const_param(pt):
            continue
        l = a.loc if a.loc is not None else (a.val[1] if a.val and a.val[0] == 'ptr' else None)
        if l is not None:
            I.purge(st, l)
            st.store[l] = ('sym', 'out', c.name, I.fresh())
    r = ('sym', 'r', c.name, I.fresh())
    if c.dest is not None:
        st.store[c.dest] = r
        return [(st, c.dest)]
    if c.node and c.node.get('lv'):
        return [(st, ('D', r))]
    return [(st, r)]


VALUES = {'std::thread::id', 'std::error_code', 'std::type_index', 'std::exception_ptr', 'std::source_location'}


def call_std(I, st, c):
    name = c.name
    i = name.find('::operator ')
    cls, m = (name[:i], name[i + 2:]) if i > 0 else name.rpartition('::')[::2]
    args = c.args
    fr, node = c.fr, c.node
    if name in FINAL:
        I.emit(st, 'end', node, fr, how=FINAL[name], code=I.aval(st, args[0]) if args and FINAL[name] in ('exit', '_exit') else None)
        st.comp = ('noret', FINAL[name])
        return [(st, None)]
    f = FUNCS.get(name)
    if f is not None:
        r = f(I, st, c)
        if r is not NotImplemented:
            return r
    if cls:
        k = None
        if cls in (STR, 'std::basic_string_view'): k = m_string
        elif cls in PTRS or cls in ('std::__shared_ptr_access', 'std::__uniq_ptr_impl'): k = m_ptr
        elif cls in STREAMS: k = m_stream
        elif cls == 'std::function' or cls == 'std::_Function_base': k = m_function
        elif cls in ATOM: k = m_atomic
        elif cls in MUTEX or cls in GUARDS: k = m_lock
        elif cls in ('std::condition_variable', 'std::condition_variable_any'): k = m_cv
        elif cls in SEQ or cls in MAP: k = m_cont
        elif ITER.search(cls): k = m_iter
        elif cls in ('std::future', 'std::__basic_future', 'std::shared_future', 'std::promise', 'std::packaged_task'): k = m_future
        elif cls in ('std::thread', 'std::jthread', 'std::this_thread'): k = m_thread
        elif cls.startswith('std::chrono'): k = m_chrono
        elif cls == 'std::initializer_list': k = m_cont
        elif cls in ('std::reference_wrapper',): k = m_refw
        elif cls in ('std::_Bind', 'std::_Bind_result'): k = m_bind
        elif cls in ('std::pair', 'std::tuple', 'sigaction', 'tm'): k = m_pair
        elif cls == 'std::optional': k = m_optional
        elif cls in ('std::exception', 'std::runtime_error', 'std::logic_error', 'std::bad_weak_ptr'):
            if m == 'what':
                return [(st, ('op', 'what', ('ptr', c.obj)))]
        if k is not None:
            r = k(I, st, c, m)
            if r is not NotImplemented:
                return r
    if m == 'operator=' and cls in VALUES and c.obj is not None and len(args) == 1:
        I.write(st, c.obj, I.aval(st, args[0]), fr, node)
        return [(st, c.obj)]
    if m.startswith('operator""'):
        r = literal(I, st, c, m[10:].strip())
        if r is not NotImplemented:
            return r
    if m.startswith('operator') and args:
        r = free_op(I, st, c, m[8:])
        if r is not NotImplemented:
            return r
    return unknown(I, st, c)


def literal(I, st, c, suffix):
    """1s, 10ms, "text"s: the characters of a number are in the mangled name"""
    if 'chrono_literals' in c.name and not c.args:
        d = ''.join(chr(int(x)) for x in re.findall(r'Lc(\d+)E', str((c.node or {}).get('fn') or ''))).replace("'", '')
        try:
            return ret(I, st, c, ('i', int(d, 0)))
        except ValueError:
            return NotImplemented
    if 'string_literals' in c.name or 'string_view_literals' in c.name:
        if c.args:
            return ret(I, st, c, strof(I, st, c.args[0]))
    return NotImplemented


# ---------------------------------------------------------------- strings
def m_string(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    v = I.read(st, loc, fr, node)
    if v[0] == 'ref':
        loc = v[1]
        v = I.read(st, loc, fr, node)

    def setv(nv):
        for k in I.subtree(st, loc):
            del st.store[k]
        I.write(st, loc, nv, fr, node)
        return [(st, loc)]
    if m in ('append', 'operator+=', 'push_back'):
        if len(args) == 1:
            if rn(I, args[0].t) == 'std::initializer_list':
                return NotImplemented
            return setv(cat(v, strof(I, st, args[0])))
        k0 = I.tk(I.p.unref(args[0].t or ''))
        if len(args) == 2 and k0 == 'int':
            n, ch = I.aval(st, args[0]), I.aval(st, args[1])
            if n[0] == 'i' and ch[0] == 'i':
                return setv(cat(v, ('s', chr(ch[1]) * n[1])))
            return setv(cat(v, ('op', 'repeat', n, ch)))
        if len(args) == 2 and k0 in ('ptr', 'array'):
            return setv(cat(v, ('op', 'prefix', strof(I, st, args[0]), I.aval(st, args[1]))))
        if len(args) == 2:
            v0, v1 = I.aval(st, args[0]), I.aval(st, args[1])
            if v0[0] == 'it' and v1[0] == 'it':
                s = val(I, st, v0[1])
                if v0[2] == ('i', 0) and v1[2] == size_of(s):
                    return setv(cat(v, s))
                return setv(cat(v, ('op', 'range', s, v0[2], v1[2])))
            return setv(cat(v, substr(strof(I, st, args[0]), v1, ('i', NPOS))))
        if len(args) == 3:
            return setv(cat(v, substr(strof(I, st, args[0]), I.aval(st, args[1]), I.aval(st, args[2]))))
    if m in ('operator=', 'assign'):
        if len(args) == 1:
            a = args[0]
            nv = strof(I, st, a)
            if a.x and a.loc is not None and rn(I, a.t) == STR and not a.tmp and a.loc != loc:
                I.write(st, a.loc, ('moved',), fr, node)
            return setv(nv)
        if len(args) == 2 and I.tk(I.p.unref(args[0].t or '')) in ('ptr', 'array'):
            return setv(('op', 'prefix', strof(I, st, args[0]), I.aval(st, args[1])))
        if len(args) == 3:
            return setv(substr(strof(I, st, args[0]), I.aval(st, args[1]), I.aval(st, args[2])))
    if m in ('c_str', 'data'):
        return [(st, ('cstr', v, loc))]
    if m == 'empty':
        return [(st, is_empty(v))]
    if m in ('size', 'length'):
        return [(st, size_of(v))]
    if m in ('capacity', 'max_size'):
        return [(st, ('sym', m, I.fresh()))]
    if m in ('clear',):
        return setv(('s', '')) and [(st, ('void',))]
    if m in ('reserve', 'shrink_to_fit'):
        I.emit(st, 'reserve', node, fr, loc=loc)
        return [(st, ('void',))]
    if m in ('begin', 'cbegin'):
        return ret(I, st, c, ('it', loc, ('i', 0)))
    if m in ('end', 'cend'):
        return ret(I, st, c, ('it', loc, size_of(v)))
    if m == 'substr':
        a = [I.aval(st, x) for x in args]
        return ret(I, st, c, substr(v, a[0] if a else ('i', 0), a[1] if len(a) > 1 else ('i', NPOS)))
    if m in ('operator[]', 'at', 'front', 'back'):
        if m == 'front': i = ('i', 0)
        elif m == 'back': i = I.arith('-', size_of(v), ('i', 1))
        else: i = I.aval(st, args[0])
        l = ('E', loc, i)
        if I.opt.get('access'):
            I.emit(st, 'access', c.node, c.fr, val=v, idx=i, how=m)
        I.ltype[l] = 'char'
        if v[0] == 's' and i[0] == 'i' and 0 <= i[1] < len(v[1]):
            st.store[l] = ('i', ord(v[1][i[1]]))
        elif v[0] != 'ld' or True:
            st.store[l] = ('op', 'at', v, i)
        return [(st, l)]
    if m in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        s = strof(I, st, args[0])
        p = tuple(I.aval(st, a) for a in args[1:])
        d = ('i', NPOS) if m in ('rfind', 'find_last_of', 'find_last_not_of') else ('i', 0)
        if p == (d,):
            p = ()
        if m == 'find' and v[0] == 's' and s[0] == 's' and len(p) == 1 and p[0][0] == 'i':
            r = v[1].find(s[1], p[0][1]) if p[0][1] >= 0 else -1
            return [(st, ('i', r if r >= 0 else NPOS))]
        if v[0] == 's' and s[0] == 's' and not p:
            x, y = v[1], s[1]
            if m == 'find': r = x.find(y)
            elif m == 'rfind': r = x.rfind(y)
            else:
                idx = [i for i, ch in enumerate(x) if (ch in y) == ('not' not in m)]
                r = (idx[0] if 'first' in m else idx[-1]) if idx else -1
            return [(st, ('i', r if r >= 0 else NPOS))]
        return [(st, ('op', m, v, s) + p)]
    if m == 'compare' and len(args) == 3 and v[0] == 's':
        a, b, x = I.aval(st, args[0]), I.aval(st, args[1]), strof(I, st, args[2])
        if a[0] == b[0] == 'i' and x[0] == 's' and a[1] <= len(v[1]):
            y = v[1][a[1]:a[1] + b[1]]
            return [(st, ('i', (y > x[1]) - (y < x[1])))]
    if m == 'compare' and len(args) == 1:
        return [(st, ('op', 'compare', v, strof(I, st, args[0])))]
    if m == 'erase':
        a = [I.aval(st, x) for x in args]
        if a and a[0][0] == 'it':
            p = a[0][2]
            if isinstance(p, tuple) and p and p[0] == 'rm':
                nv = p[1]
            elif len(a) == 2 and a[1][0] == 'it':
                if p == ('i', 0) and a[1][2] == size_of(v):
                    nv = ('s', '')
                else:
                    nv = ('op', 'erase', v, p, I.arith('-', a[1][2], p))
            else:
                nv = ('op', 'erase', v, p, ('i', 1))
            setv(nv)
            return ret(I, st, c, ('it', loc, p))
        if not a:
            return setv(('s', ''))
        if a[0] == ('i', 0) and (len(a) == 1 or a[1] == ('i', NPOS)):
            return setv(('s', ''))
        return setv(substr(v, ('i', 0), a[0]) if len(a) == 1 or a[1] == ('i', NPOS) else
                    splice(v, a[0], a[1], ('s', '')) if v[0] == 's' and a[0][0] == a[1][0] == 'i' else ('op', 'erase', v, a[0], a[1]))
    if m in ('pop_back',):
        if I.opt.get('access'):
            I.emit(st, 'access', c.node, c.fr, val=v, idx=I.arith('-', size_of(v), ('i', 1)), how=m)
        return setv(substr(v, ('i', 0), I.arith('-', size_of(v), ('i', 1)))) and [(st, ('void',))]
    if m == 'resize':
        n = I.aval(st, args[0])
        return setv(('op', 'resize', v, n)) and [(st, ('void',))]
    if m == 'insert':
        a0 = I.aval(st, args[0])
        if len(args) == 2 or len(args) == 3 and I.tk(I.p.unref(args[2].t or '')) == 'int' and I.tk(I.p.unref(args[1].t or '')) == 'int':
            s = strof(I, st, args[1]) if len(args) == 2 else ('op', 'repeat', I.aval(st, args[1]), I.aval(st, args[2]))
            pos = a0[2] if a0[0] == 'it' else a0
            if pos == ('i', 0):
                nv = cat(s, v)
            elif pos == size_of(v):
                nv = cat(v, s)
            else:
                nv = splice(v, pos, ('i', 0), s) if v[0] == s[0] == 's' and pos[0] == 'i' else ('op', 'insert', v, pos, s)
            setv(nv)
            if a0[0] == 'it':
                return ret(I, st, c, a0)
            return [(st, loc)]
    if m == 'replace':
        a = [I.aval(st, x) for x in args]
        if len(args) == 3:
            s = strof(I, st, args[2])
            p = a[0][2] if a[0][0] == 'it' else a[0]
            n = I.arith('-', a[1][2], a[0][2]) if a[0][0] == 'it' else a[1]
            return setv(splice(v, p, n, s))
    if m == 'swap':
        return do_swap(I, st, loc, args[0].loc, I.ltype.get(loc), fr, node)
    if m == 'operator basic_string_view' or m.startswith('operator std::'):
        return ret(I, st, c, v)
    if m == 'starts_with' or m == 'ends_with':
        x = strof(I, st, args[0])
        if v[0] == x[0] == 's':
            return [(st, ('i', int(v[1].startswith(x[1]) if m == 'starts_with' else v[1].endswith(x[1]))))]
        return [(st, ('op', m, v, strof(I, st, args[0])))]
    return NotImplemented


def do_swap(I, st, a, b, t, fr, node):
    """exchange the contents of two objects of one type"""
    tmp = I.tmp(I.p.unref(t)) if t else I.tmp(None)
    rec = I.recof(t) if t else None
    if rec and I.p.isrepo(rec):
        sts = I.copy_obj(st, a, tmp, t, fr, node, move=True)
        sts = [y for s in sts for y in ([s] if s.comp else I.assign_obj(s, b, a, t, fr, node, move=True))]
        sts = [y for s in sts for y in ([s] if s.comp else I.assign_obj(s, tmp, b, t, fr, node, move=True))]
        return [(s, ('void',)) for s in sts]
    va, vb = I.read(st, a, fr, node), I.read(st, b, fr, node)
    ka, kb = {k: st.store[k] for k in I.subtree(st, a)}, {k: st.store[k] for k in I.subtree(st, b)}
    for k in list(ka) + list(kb):
        del st.store[k]
    for k, v in ka.items():
        st.store[_rb(k, a, b)] = v
    for k, v in kb.items():
        st.store[_rb(k, b, a)] = v
    if va[0] == 'uninit' and I.recof(t or ''):
        va = ('struct', a)
    I.write(st, a, vb, fr, node)
    I.write(st, b, va, fr, node)
    return [(st, ('void',))]


# ---------------------------------------------------------------- smart pointers
def m_ptr(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    v = I.read(st, loc, fr, node)
    if v[0] == 'ref':
        loc = v[1]
        v = I.read(st, loc, fr, node)
    if m in ('get', 'operator->', '_M_get'):
        if v[0] == 'uninit':
            pass
        return [(st, v)]
    if m == 'operator*':
        return [(st, I.deref(v))]
    if m == 'operator[]':
        i = I.aval(st, args[0])
        return [(st, ('E', I.deref(v), i))]
    if m in ('operator bool', '_M_empty'):
        return [(st, I.boolval(st, v))]
    t = I.ltype.get(loc)
    cls = rn(I, t) if t else c.name.rpartition('::')[0]
    if m == 'release':
        I.write(st, loc, ('null',), fr, node)
        return [(st, v)]
    if m == 'reset':
        nv = I.aval(st, args[0]) if args else ('null',)
        I.write(st, loc, nv, fr, node)
        if cls == 'std::unique_ptr':
            return [(s, ('void',)) for s in drop_unique(I, st, v, t, fr, node)]
        I.emit(st, 'release', node, fr, val=v, loc=loc)
        return [(st, ('void',))]
    if m == 'operator=':
        a = args[0]
        nv = I.aval(st, a, fr, node)
        if I.tk(I.p.unref(a.t or '')) == 'nullptr':
            nv = ('null',)
        an = rn(I, a.t)
        if a.loc == loc:
            return [(st, loc)]
        if an == 'std::unique_ptr' or (an == 'std::shared_ptr' and a.x and cls != 'std::weak_ptr'):
            if a.loc is not None:
                I.write(st, a.loc, ('null',), fr, node)
        if cls == 'std::weak_ptr' and an != 'std::weak_ptr':
            nv = ('weak', nv) if nv[0] != 'null' else nv
        I.write(st, loc, nv, fr, node)
        if cls == 'std::unique_ptr':
            return [(s, loc) for s in drop_unique(I, st, v, t, fr, node)]
        if cls == 'std::shared_ptr' and v[0] != 'null':
            I.emit(st, 'release', node, fr, val=v, loc=loc)
        return [(st, loc)]
    if m == 'lock':
        out = []
        w = weakval(v)
        if w[0] == 'null':
            return ret(I, st, c, w)
        for s, b in I.decide(st, ('alive', w, I.fresh()), node, fr):
            if b:
                I.assume(s, w, True)
                I.emit(s, 'acquire', node, fr, val=w)
            out.extend(ret(I, s, c, w if b else ('null',)))
        return out
    if m == 'expired':
        return [(s, ('i', int(not b))) for s, b in I.decide(st, ('alive', weakval(v), I.fresh()), node, fr)]
    if m == 'use_count':
        return [(st, ('sym', 'use_count', I.fresh()))]
    if m == 'unique':
        return [(st, ('sym', 'unique', I.fresh()))]
    if m == 'swap':
        return do_swap(I, st, loc, args[0].loc, t, fr, node)
    if m == 'get_deleter':
        return [(st, ('D', ('sym', 'deleter')))]
    return NotImplemented


# ---------------------------------------------------------------- streams
def kind_stream(I, loc):
    t = I.ltype.get(loc)
    n = rn(I, t) if t else ''
    return n


def put_stream(I, st, sloc, piece, fr, node, flush=False, nl=False):
    if kind_stream(I, sloc) in SSTREAM:
        v = val(I, st, sloc)
        if piece is not None:
            I.write(st, sloc, cat(v, piece), fr, node)
        return
    if piece is not None and piece != ('s', ''):
        I.emit(st, 'out', node, fr, stream=sloc, val=piece)
    if flush:
        I.emit(st, 'flush', node, fr, stream=sloc)


def insert(I, st, sloc, a, fr, node):
    """stream << a"""
    t = I.p.unref(a.t) if a.t else ''
    k = I.tk(t)
    if a.val is not None and a.val[0] == 'fn':
        n = a.val[2]
        if 'endl' in n:
            put_stream(I, st, sloc, ('s', '\n'), fr, node, flush=True)
        elif 'flush' in n:
            put_stream(I, st, sloc, None, fr, node, flush=True)
        elif 'ends' in n.rsplit('::', 1)[-1]:
            put_stream(I, st, sloc, ('s', '\0'), fr, node)
        elif 'hex' in n or 'oct' in n or 'fixed' in n:
            I.mark(st, 'stream manipulator ' + n, node, fr)
        return [(st, sloc)]
    if k == 'rec':
        n = rn(I, t)
        if n in (STR, 'std::basic_string_view'):
            p = I.aval(st, a, fr, node)
        elif n == 'std::thread::id':
            p = ('fmt', I.aval(st, a))
        elif n in ('std::_Setw', 'std::_Setfill'):
            st.store[F(sloc, '#width' if n == 'std::_Setw' else '#fill')] = I.aval(st, a)
            return [(st, sloc)]
        elif n.startswith('std::_Set') or n.startswith('std::_Put_time') or n.startswith('std::_Quoted') :
            v = I.aval(st, a)
            if n.startswith('std::_Put_time'):
                p = ('text', v)
            else:
                I.mark(st, 'stream manipulator ' + n, node, fr)
                return [(st, sloc)]
        else:
            p = ('fmt', I.aval(st, a))
    elif k == 'array':
        p = text(I, st, ('ptr', a.loc))
    else:
        v = I.aval(st, a, fr, node)
        if k == 'ptr' and I.tk(I.p.ty(t).get('el')) == 'int' and I.p.ty(I.p.ty(t).get('el')).get('bits') == 8:
            p = text(I, st, v)
        elif k == 'ptr' and v[0] in ('cstr',):
            p = upto_nul(v[1])
        elif k == 'ptr' and 'basic_streambuf' in t:
            p = ('streambuf', v)
        else:
            p = fmt(I, v, t)
    put_stream(I, st, sloc, padded(st, sloc, p), fr, node)
    return [(st, sloc)]


def padded(st, sloc, p):
    """what std::setw does to the next output"""
    w = st.store.get(F(sloc, '#width'))
    if w is None or w == ('i', 0):
        return p
    st.store[F(sloc, '#width')] = ('i', 0)
    return ('op', 'pad', p, w, st.store.get(F(sloc, '#fill'), ('i', 32)))


def m_stream(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    sv = st.store.get(loc)
    if sv is not None and sv[0] == 'ref':
        loc = sv[1]
    if m == 'operator<<':
        return insert(I, st, loc, args[0], fr, node)
    if m in ('width', 'fill') and args:
        l = F(loc, '#' + m)
        old = st.store.get(l, ('i', 0 if m == 'width' else 32))
        st.store[l] = I.aval(st, args[0])
        return [(st, old)]
    if m in ('write',):
        p = I.aval(st, args[0])
        n = I.aval(st, args[1])
        tx = text(I, st, p)
        if n != size_of(tx):
            tx = ('op', 'prefix', tx, n)
        put_stream(I, st, loc, tx, fr, node)
        return [(st, loc)]
    if m == 'put':
        put_stream(I, st, loc, chr_term(I.aval(st, args[0])), fr, node)
        return [(st, loc)]
    if m == 'flush':
        put_stream(I, st, loc, None, fr, node, flush=True)
        return [(st, loc)]
    if m == 'str':
        if args:
            nv = strof(I, st, args[0])
            I.write(st, loc, nv, fr, node)
            return [(st, ('void',))]
        return ret(I, st, c, I.read(st, loc, fr, node))
    if m == 'open':
        return open_stream(I, st, loc, args, node, fr, ('void',))
    if m == 'is_open':
        return [(st, ('op', 'is_open', st.store.get(F(loc, '#open'), ('ld', loc, 0))))]
    if m in ('good', 'operator bool'):
        return [(st, ('op', 'is_open', st.store.get(F(loc, '#open'), ('ld', loc, 0))) if m == 'operator bool' and F(loc, '#open') in st.store else ('sym', 'good', I.fresh()))]
    if m in ('fail', 'bad', 'eof', 'operator!'):
        if F(loc, '#open') in st.store and m in ('fail', 'operator!'):
            return [(st, ('op', '!', ('op', 'is_open', st.store[F(loc, '#open')])))]
        return [(st, ('sym', m, I.fresh()))]
    if m == 'close':
        I.emit(st, 'close', node, fr, stream=loc, dtor=False)
        return [(st, ('void',))]
    if m in ('rdstate', 'tellp', 'precision', 'width', 'flags', 'rdbuf'):
        return [(st, ('sym', m, I.fresh()))]
    if m in ('setf', 'unsetf', 'fill', 'clear', 'setstate', 'exceptions', 'imbue', 'seekp'):
        if m == 'seekp':
            I.emit(st, 'seek', node, fr, stream=loc)
            return [(st, loc)]
        return [(st, ('sym', m, I.fresh()))]
    if m == 'swap' or m == 'operator=':
        I.emit(st, 'stream_' + m, node, fr, stream=loc)
        I.copy_tree(st, args[0].loc, loc)
        return [(st, loc)]
    return NotImplemented


# ---------------------------------------------------------------- function objects
def m_function(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    v = I.read(st, loc, fr, node)
    if v[0] == 'ref':
        loc = v[1]
        v = I.read(st, loc, fr, node)
    if m == 'operator()':
        if v[0] == 'func':
            return I.invoke_loc(st, v[1], args, fr, node, c.dest)
        if v[0] in ('fn', 'null', 'moved'):
            return I.invoke(st, v if v[0] != 'moved' else ('null',), args, fr, node, c.dest)
        return I.user_call(st, v, args, fr, node, c.dest)
    if m == 'operator bool':
        return [(st, I.boolval(st, v))]
    if m == 'operator=':
        a = args[0]
        if a.loc == loc:
            return [(st, loc)]
        if I.tk(I.p.unref(a.t or '')) == 'nullptr':
            I.write(st, loc, ('null',), fr, node)
            return [(st, loc)]
        tmp = I.tmp(I.ltype.get(loc))
        out = []
        for s, _ in make_func(I, st, a, tmp, fr, node):
            if s.comp:
                out.append((s, None))
                continue
            nv = s.store.pop(tmp)
            I.write(s, loc, nv, fr, node)
            out.append((s, loc))
        return out
    if m == 'swap':
        return do_swap(I, st, loc, args[0].loc, I.ltype.get(loc), fr, node)
    if m in ('target', 'target_type'):
        return [(st, ('sym', m, I.fresh()))]
    return NotImplemented


def m_refw(I, st, c, m):
    v = val(I, st, c.obj)
    if v[0] == 'refw':
        if m == 'operator()':
            return I.invoke_loc(st, v[1], c.args, c.fr, c.node, c.dest)
        return [(st, v[1])]
    return NotImplemented


def m_bind(I, st, c, m):
    if m == 'operator()':
        return I.invoke_loc(st, c.obj, c.args, c.fr, c.node, c.dest)
    return NotImplemented


def m_pair(I, st, c, m):
    if m == 'operator=':
        a = c.args[0]
        I.copy_tree(st, a.loc, c.obj)
        move_types(I, st, a.loc, c.obj)
        I.write(st, c.obj, st.store.get(c.obj, ('pair',)), c.fr, c.node)
        return [(st, c.obj)]
    return NotImplemented


def m_optional(I, st, c, m):
    loc = c.obj
    v = val(I, st, loc)
    if m in ('has_value', 'operator bool'):
        return [(st, I.boolval(st, v) if v[0] != 'some' else ('i', 1))]
    if m in ('value', 'operator*'):
        return [(st, F(loc, 'value'))]
    if m == 'operator->':
        return [(st, ('ptr', F(loc, 'value')))]
    if m == 'reset':
        I.purge(st, loc)
        I.write(st, loc, ('null',), c.fr, c.node)
        return [(st, ('void',))]
    if m == 'operator=':
        a = c.args[0]
        if rn(I, a.t) == 'std::nullopt_t':
            I.write(st, loc, ('null',), c.fr, c.node)
            return [(st, loc)]
        if rn(I, a.t) == 'std::optional':
            I.copy_tree(st, a.loc, loc)
            return [(st, loc)]
        out = []
        for s in store_callable(I, st, a, F(loc, 'value'), c.fr, c.node):
            I.write(s, loc, ('some',), c.fr, c.node)
            out.append((s, loc))
        return out
    return NotImplemented


# ---------------------------------------------------------------- atomics
def m_atomic(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    # std::__atomic_base lives inside std::atomic at the same location
    shared = I.shared_root(root(loc))
    order = None
    kind = 'b' if (I.ltype.get(loc) and targs(I, I.ltype[loc])[:1] == ['bool']) or c.name.startswith('std::atomic_flag') else 'i'

    def load():
        if I.atomics == 'fresh' and shared and not (loc in st.meta.get('keep', ()) and loc in st.store):
            v = ('ald', loc, I.fresh(), kind)
        else:
            v = I._read(st, loc)
        I.emit(st, 'aload', node, fr, loc=loc, val=v)
        return v

    def store(v, op='store', old=None):
        I.emit(st, 'awr', node, fr, loc=loc, val=v, op=op, old=old)
        st.store[loc] = v
    if m in ('load', 'operator bool', 'test') or m.startswith('operator ') and len(m) > 9:
        return [(st, load())]
    if m in ('store', 'operator='):
        if args and rn(I, args[0].t) in ATOM:
            return NotImplemented
        v = I.aval(st, args[0])
        store(v)
        return [(st, v)]
    if m == 'clear':
        store(('i', 0))
        return [(st, ('void',))]
    if m in ('exchange', 'test_and_set'):
        v = I.aval(st, args[0]) if m == 'exchange' else ('i', 1)
        old = load()
        store(v, 'rmw', old)
        return [(st, old)]
    rmw = {'fetch_add': '+', 'fetch_sub': '-', 'fetch_and': '&', 'fetch_or': '|', 'fetch_xor': '^', 'operator++': '+', 'operator--': '-',
           'operator+=': '+', 'operator-=': '-', 'operator|=': '|', 'operator&=': '&'}
    if m in rmw:
        post = m.startswith('fetch')
        d = ('i', 1)
        if m.startswith('operator') and m[-2:] in ('++', '--'):
            post = bool(args)
        elif args:
            d = I.aval(st, args[0])
        old = load()
        nv = I.arith(rmw[m], old, d)
        store(nv, 'rmw', old)
        return [(st, old if post else nv)]
    if m.startswith('compare_exchange'):
        exp = args[0].loc
        ev = I._read(st, exp)
        new = I.aval(st, args[1])
        old = load()
        out = []
        for s, b in I.decide(st, ('op', '==', old, ev), node, fr):
            if b:
                I.emit(s, 'awr', node, fr, loc=loc, val=new, op='rmw', old=old)
                s.store[loc] = new
                out.append((s, ('i', 1)))
            else:
                s.store[exp] = old
                out.append((s, ('i', 0)))
        return out
    if m == 'is_lock_free':
        return [(st, ('i', 1))]
    return NotImplemented


# ---------------------------------------------------------------- locks, condition variables
def m_lock(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    v = st.store.get(loc)
    if v and v[0] in ('guard', 'ulock'):
        if m == 'lock':
            for x in v[1]:
                lock(I, st, x, node, fr)
            st.store[loc] = (v[0], v[1], True)
            return [(st, ('void',))]
        if m == 'unlock':
            for x in v[1]:
                unlock(I, st, x, node, fr)
            st.store[loc] = (v[0], v[1], False)
            return [(st, ('void',))]
        if m in ('owns_lock', 'operator bool'):
            return [(st, ('i', int(v[2])))]
        if m == 'release':
            st.store[loc] = (v[0], (), False)
            return [(st, ('ptr', v[1][0]) if v[1] else ('null',))]
        if m == 'mutex':
            return [(st, ('ptr', v[1][0]) if v[1] else ('null',))]
        if m.startswith('try_lock'):
            s2 = st.fork()
            for x in v[1]:
                lock(I, st, x, node, fr, True)
            st.store[loc] = (v[0], v[1], True)
            return [(st, ('i', 1)), (s2, ('i', 0))]
        if m == 'operator=':
            out = []
            for s in destroy_std(I, st, loc, I.recof(I.ltype[loc]), I.ltype[loc], fr, node):
                s.store[loc] = s.store.get(args[0].loc, ('ulock', (), False))
                s.store[args[0].loc] = ('ulock', (), False)
                out.append((s, loc))
            return out
    if m in ('lock', 'lock_shared'):
        lock(I, st, loc, node, fr)
        return [(st, ('void',))]
    if m in ('unlock', 'unlock_shared'):
        unlock(I, st, loc, node, fr)
        return [(st, ('void',))]
    if m.startswith('try_lock'):
        s2 = st.fork()
        lock(I, st, loc, node, fr, True)
        return [(st, ('i', 1)), (s2, ('i', 0))]
    return NotImplemented


def m_cv(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    if m in ('notify_one', 'notify_all'):
        I.emit(st, 'notify', node, fr, cv=loc, all=m == 'notify_all')
        return [(st, ('void',))]
    if m in ('wait', 'wait_for', 'wait_until'):
        lk = st.store.get(args[0].loc)
        ms = lk[1] if lk and lk[0] in ('ulock', 'guard') else ()

        def block(s):
            if lk and lk[0] in ('ulock', 'guard') and lk[2]:
                I.emit(s, 'cv_wait', node, fr, cv=loc, m=ms[0] if ms else None, held=ms[0] in s.locks if ms else False)
            else:
                I.emit(s, 'cv_wait', node, fr, cv=loc, m=None, held=False)
            I.havoc(s)
        pred = None
        timed = m != 'wait'
        pi = 1 if not timed else 2
        if len(args) > pi:
            pred = args[pi]
        if pred is None:
            block(st)
            if timed:
                return [(st, ('sym', 'cv_status', I.fresh()))]
            return [(st, ('void',))]

        def test(s):
            out = []
            for s1, v in I.invoke_arg(s, pred, [], fr, node):
                if s1.comp:
                    out.append((s1, None))
                else:
                    out.extend(I.decide(s1, v, node, fr))
            return out
        out = []
        for s, b in test(st):
            if b is None or b:
                out.append((s, ('i', 1)))
                continue
            block(s)
            for s2, b2 in test(s):
                if b2 is None or b2:
                    out.append((s2, ('i', 1)))
                elif timed:
                    out.append((s2, ('i', 0)))
                else:
                    s2.comp = ('noret', 'loop')
                    out.append((s2, None))
        return out
    return NotImplemented


# ---------------------------------------------------------------- futures and threads
def m_future(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    v = val(I, st, loc)
    if m == 'get_future':
        return ret(I, st, c, ('fut', v[1]) if v[0] in ('ptask', 'prom') else ('sym', 'fut', I.fresh()))
    if m == 'operator()':
        if v[0] == 'ptask':
            return run_task(I, st, loc, v, args, fr, node, None)
        return I.user_call(st, v, args, fr, node, c.dest)
    if m in ('wait', 'get', 'wait_for', 'wait_until'):
        I.emit(st, 'wait', node, fr, fut=v, loc=loc, how=m)
        I.havoc(st)
        if m == 'wait':
            return [(st, ('void',))]
        if m == 'get':
            r = ('op', 'futval', v)
            s2 = None
            x = st.store.get(('#fut', v[1])) if v[0] == 'fut' else None
            if x is not None and x[0] == 'exc':
                st.comp = ('thr', x)
                return [(st, None)]
            if c.node is not None and c.node.get('lv'):
                return [(st, ('D', r))]
            return ret(I, st, c, r) if c.dest is not None else [(st, r)]
        return [(st, ('sym', 'future_status', I.fresh()))]
    if m == 'valid':
        return [(st, ('i', int(v[0] == 'fut')) if v[0] in ('fut', 'null') else ('sym', 'valid', I.fresh()))]
    if m == 'set_exception':
        x = I.aval(st, args[0])
        if v[0] == 'prom':
            st.store[('#fut', v[1])] = x if x[0] == 'exc' else ('exc', '?', None)
            I.emit(st, 'promise_set', node, fr, n=v[1], exc=x)
        return [(st, ('void',))]
    if m == 'set_value':
        if v[0] == 'prom':
            st.store[('#fut', v[1])] = I.aval(st, args[0]) if args else ('void',)
            I.emit(st, 'promise_set', node, fr, n=v[1], exc=None)
        return [(st, ('void',))]
    if m == 'operator=':
        st.store[loc] = I.aval(st, args[0])
        if args[0].loc is not None:
            if args[0].loc != loc:
                I.copy_tree(st, args[0].loc, loc)
                st.store[args[0].loc] = ('null',)
        return [(st, loc)]
    if m == 'share':
        return ret(I, st, c, v)
    return NotImplemented


def m_thread(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    if m == 'get_id':
        return ret(I, st, c, ('sym', 'thread_id', ('i', st.meta.get('thread', 0))) if loc is None else ('op', 'id', val(I, st, loc)))
    if c.name.startswith('std::this_thread'):
        if m in ('sleep_for', 'sleep_until', 'yield'):
            I.emit(st, 'sleep', node, fr)
            I.havoc(st)
            return [(st, ('void',))]
        return NotImplemented
    v = val(I, st, loc)
    if m == 'join':
        I.emit(st, 'join', node, fr, thread=loc, val=v, auto=False)
        I.havoc(st)
        st.store[loc] = ('joined',)
        return [(st, ('void',))]
    if m == 'detach':
        I.emit(st, 'detach', node, fr, thread=loc, val=v)
        st.store[loc] = ('joined',)
        return [(st, ('void',))]
    if m == 'joinable':
        if v[0] == 'thread': return [(st, ('i', 1))]
        if v[0] in ('null', 'joined'): return [(st, ('i', 0))]
        if v[0] == 'ld' and loc[0] == 'F': return [(st, ('i', 1))]      # a member that was set before: see the rule for what starts threads
        return [(st, ('op', 'joinable', v))]
    if m == 'operator=':
        a = args[0]
        nv = I.aval(st, a)
        if v[0] not in ('null', 'joined', 'uninit') and v[0] != 'ld':
            I.emit(st, 'thread_overwrite', node, fr, thread=loc)
        I.write(st, loc, nv, fr, node)
        I.emit(st, 'thread_assign', node, fr, thread=loc, val=nv)
        if a.loc is not None:
            st.store[a.loc] = ('null',)
        return [(st, loc)]
    if m == 'swap':
        return do_swap(I, st, loc, args[0].loc, I.ltype.get(loc), fr, node)
    if m in ('hardware_concurrency',):
        return [(st, ('sym', m))]
    if m in ('native_handle',):
        return [(st, ('op', m, v))]
    return NotImplemented


# ---------------------------------------------------------------- chrono
def m_chrono(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    if m == 'now':
        v = ('now', I.fresh(), c.name.split('::')[2])
        I.emit(st, 'now', node, fr, val=v, clock=c.name.split('::')[2])
        return ret(I, st, c, v)
    if m in ('to_time_t', 'from_time_t'):
        return ret(I, st, c, ('op', m, I.aval(st, args[0])))
    if m in ('time_since_epoch', 'count'):
        return ret(I, st, c, val(I, st, loc))
    if m in ('duration_cast', 'time_point_cast', 'floor', 'ceil', 'round', 'abs'):
        ta = (node or {}).get('ta') or ['']
        per = ta[0]
        r = targs(I, per)
        to = period(I, per)
        per = ratio_name(to) if to else ('s', r[1] if len(r) > 1 else per)
        v, src = I.aval(st, args[0]), period(I, args[0].t)
        if to and src == to:
            return ret(I, st, c, v)
        return ret(I, st, c, ('op', m, v, per) + ((ratio_name(src),) if src else ()))
    if m.startswith('operator'):
        op = m[8:]
        if loc is not None and op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = val(I, st, loc)
            b = I.aval(st, args[0])
            I.write(st, loc, b if op == '=' else ('op', op[:-1], v, conv_dur(I, b, args[0].t, I.ltype.get(loc))), fr, node)
            return [(st, loc)]
        xs = ([val(I, st, loc)] if loc is not None else []) + [I.aval(st, a) for a in args]
        xs = common_units(I, xs, ([I.ltype.get(loc)] if loc is not None else []) + [a.t for a in args])
        if len(xs) == 2:
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return [(st, I.binop(st, op, xs[0], xs[1]))]
            return ret(I, st, c, ('op', op, xs[0], xs[1]))
        if len(xs) == 1:
            return ret(I, st, c, ('op', 'neg' if op == '-' else op, xs[0]))
    if m in ('zero', 'min', 'max'):
        return ret(I, st, c, ('i', 0) if m == 'zero' else ('sym', m))
    return NotImplemented


def period(I, t):
    """the period of a duration or time point type, as (numerator, denominator)"""
    t = I.nocv(I.p.unref(t)) if t else None
    n = rn(I, t) if t else None
    a = targs(I, t) if t else []
    if n == 'std::chrono::time_point':
        return period(I, a[1]) if len(a) > 1 else None
    if n != 'std::chrono::duration':
        return None
    return ratio_of(I, a[1] if len(a) > 1 else 'std::ratio<1, 1>')


def ratio_of(I, r):
    m = re.match(r'std::ratio<(\d+)(?:, *(\d+))?>', str(r or ''))
    return (int(m.group(1)), int(m.group(2) or 1)) if m else None


def ratio_name(r):
    return ('s', 'std::ratio<%d, %d>' % r)


def conv_dur(I, v, at, t):
    """a duration converted to the unit of another"""
    a, b = period(I, at), period(I, t)
    if a is None or b is None or a == b:
        return v
    return ('op', 'cast', v, ratio_name(b), ratio_name(a))


def common_units(I, xs, ts):
    """durations of different units in one operation are converted to the finer unit"""
    ps = [period(I, t) for t in ts]
    if len(xs) == 2 and all(ps) and ps[0] != ps[1]:
        fine = min(ps, key=lambda q: q[0] / q[1])
        return [x if q == fine else ('op', 'cast', x, ratio_name(fine), ratio_name(q)) for x, q in zip(xs, ps)]
    return xs


# ---------------------------------------------------------------- containers
def it_of(I, st, loc, pos):
    return ('it', loc, pos)


def pair_elem(I, st, loc, key, i=None):
    """location of a map element; its key is readable as .first"""
    e = ('E', loc, ('key', key))
    st.store.setdefault(F(e, 'first'), key)
    t = I.ltype.get(loc)
    if t:
        ta = targs(I, t)
        if len(ta) > 1:
            I.ltype.setdefault(F(e, 'second'), ta[1])
            I.ltype.setdefault(F(e, 'first'), I.nocv(ta[0]))
    return e


def elem(I, st, loc, pos):
    """location of the element an iterator position denotes"""
    t = I.ltype.get(loc)
    if isinstance(pos, tuple) and pos[0] == 'key':
        return pair_elem(I, st, loc, pos[1])
    if isinstance(pos, tuple) and pos[0] == 'rm':
        pos = ('sym', 'rm')
    v = val(I, st, loc)
    if v[0] == 'cmap' and pos[0] == 'i' and 0 <= pos[1] < len(v[1]):
        return pair_elem(I, st, loc, v[1][pos[1]])
    e = ('E', loc, pos)
    if t:
        ta = targs(I, t)
        n = rn(I, t)
        if n in ('std::map', 'std::unordered_map') and len(ta) > 1:
            I.ltype.setdefault(F(e, 'first'), I.nocv(ta[0]))
            I.ltype.setdefault(F(e, 'second'), ta[1])
        elif n == STR:
            I.ltype[e] = 'char'
            if e not in st.store:
                st.store[e] = ('op', 'at', v, pos) if not (v[0] == 's' and pos[0] == 'i' and 0 <= pos[1] < len(v[1])) else ('i', ord(v[1][pos[1]]))
        elif ta:
            I.ltype.setdefault(e, ta[0])
    return e


def map_find(I, st, loc, v, key, node, fr):
    """[(state, found?, pos)]"""
    if v[0] == 'cmap':
        out = []
        cur = st
        for k in v[1]:
            res = I.decide(cur, ('op', '==', key, k), node, fr)
            nxt = None
            for s, b in res:
                if b:
                    out.append((s, True, ('key', k)))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append((cur, False, None))
        return out
    return [(s, b, ('key', key)) for s, b in I.decide(st, ('has', v, key), node, fr)]


def m_cont(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    t = I.ltype.get(loc)
    cls = c.name.rpartition('::')[0]
    v = I.read(st, loc, fr, node)
    if v[0] == 'ref':
        loc = v[1]
        v = I.read(st, loc, fr, node)
    if v[0] == 'il':
        arr = v[1]
        n = st.store.get(('#len', arr), ('i', 0))
        if m == 'begin':
            return [(st, ('ptr', ('E', arr, ('i', 0))))]
        if m == 'end':
            return [(st, ('ptr', ('E', arr, n)))]
        if m == 'size':
            return [(st, n)]
    if v[0] == 'uninit':
        v = ('sym', 'container', I.fresh())
        st.store[loc] = v
    et = elem_t(I, t) if t else None

    def setv(nv):
        I.write(st, loc, nv, fr, node)
    if m == 'empty':
        I.emit(st, 'cread', node, fr, cont=loc, op=m)
        return [(st, is_empty(v))]
    if m == 'size':
        I.emit(st, 'cread', node, fr, cont=loc, op=m)
        return [(st, size_of(v))]
    if m in ('begin', 'cbegin'):
        return ret(I, st, c, ('it', loc, ('i', 0)))
    if m in ('end', 'cend'):
        return ret(I, st, c, ('it', loc, size_of(v)))
    if m in ('rbegin', 'crbegin'):
        return ret(I, st, c, ('rit', loc, I.arith('-', size_of(v), ('i', 1))))
    if m in ('rend', 'crend'):
        return ret(I, st, c, ('rit', loc, ('i', -1)))
    if m == 'clear':
        for k in I.subtree(st, loc):
            del st.store[k]
        I.emit(st, 'clear', node, fr, cont=loc, val=v, dtor=False)
        setv(('cmap', ()) if cls in MAP else ('seq', 0))
        return [(st, ('void',))]
    if m in ('reserve', 'shrink_to_fit', 'capacity'):
        return [(st, ('void',) if m != 'capacity' else ('sym', m, I.fresh()))]
    if m == 'data':
        return [(st, ('ptr', ('E', loc, ('i', 0))))]
    if m == 'operator=':
        a = args[0]
        if a.loc == loc:
            return [(st, loc)]
        av = I.aval(st, a)
        if av[0] == 'il':
            return [(s, loc) for s, _ in construct_container(I, st, Ctx(node=node, fr=fr, dest=loc, t=t, args=args), I.recof(t), cls, args)]
        rec = I.recof(t or a.t)
        I.emit(st, 'cassign', node, fr, cont=loc, src=a.loc, val=av, old=v)
        return [(s, loc) for s in assign_std(I, st, a.loc, loc, rec, t or a.t, fr, node, a.x)]
    if m == 'swap':
        I.emit(st, 'cswap', node, fr, cont=loc, other=args[0].loc, old=v, oldother=I._read(st, args[0].loc) if args[0].loc is not None else None)
        return do_swap(I, st, loc, args[0].loc, t, fr, node)
    if m == 'emplace' and cls in ('std::queue', 'std::stack'):
        m = 'emplace_back'
    if cls not in MAP:
        if m in ('push_back', 'push', 'emplace_back', 'push_front', 'emplace_front'):
            front = m.endswith('front')
            n = I.fresh()
            pos = size_of(v)
            e = ('E', loc, pos) if cls in ('std::vector', 'std::list') and not front else ('E', loc, ('new', n))
            I.ltype[e] = et
            if m.startswith('emplace'):
                prs = construct_object(I, st, et, e, args, fr, node)
            else:
                prs = construct_object(I, st, et, e, [args[0]], fr, node)
            out = []
            for s, _ in prs:
                if s.comp:
                    out.append((s, None))
                    continue
                I.emit(s, 'push', node, fr, cont=loc, elem=e, val=s.store.get(e), front=front)
                I.write(s, loc, ('cpush', v, ('i', n)) if not front else ('cpushf', v, ('i', n)), fr, node)
                out.append((s, e if m.startswith('emplace') else ('void',)))
            return out
        if m in ('front', 'back', 'top'):
            I.emit(st, 'cread', node, fr, cont=loc, op=m, empty=I.known(st, is_empty(v)))
            if cls == 'std::vector':
                e = ('E', loc, ('i', 0) if m == 'front' else I.arith('-', size_of(v), ('i', 1)))
            else:
                e = ('E', loc, ('front' if m == 'front' else 'back', v))
            I.ltype.setdefault(e, et)
            return [(st, e)]
        if m in ('pop', 'pop_front', 'pop_back'):
            back = m == 'pop_back' or cls == 'std::stack'
            I.emit(st, 'pop', node, fr, cont=loc, empty=I.known(st, is_empty(v)), val=v, back=back, ver=('E', loc, ('front', v)))
            setv(('cpop', v))
            return [(st, ('void',))]
        if m in ('operator[]', 'at'):
            i = I.aval(st, args[0])
            e = elem(I, st, loc, i)
            return [(st, e)]
        if m == 'erase':
            a = [I.aval(st, x) for x in args]
            p = a[0][2] if a[0][0] == 'it' else None
            if isinstance(p, tuple) and p[0] == 'rm':
                nv = p[1]
            elif len(a) == 2 and p == ('i', 0) and a[1][2] == size_of(v):
                nv = ('seq', 0)
            else:
                nv = ('cdelpos', v, p if p else ('sym', '?')) + ((a[1][2],) if len(a) > 1 else ())
            I.emit(st, 'erase', node, fr, cont=loc, val=v, new=nv, at=elem(I, st, loc, p) if len(a) == 1 and p else None)
            for k in I.subtree(st, loc):
                del st.store[k]
            setv(nv)
            return ret(I, st, c, ('it', loc, p))
        if m in ('remove', 'remove_if') and cls in ('std::list', 'std::forward_list'):
            nv = ('cfilter', v, ('eq', I.aval(st, args[0]))) if m == 'remove' else filter_term(I, st, loc, v, args[0], fr, node)
            I.emit(st, 'erase', node, fr, cont=loc, val=v, new=nv, at=None)
            setv(nv)
            return [(st, ('void',))]
        if m == 'insert':
            a0 = I.aval(st, args[0])
            if a0[0] == 'it' and len(args) == 2:
                n = I.fresh()
                e = ('E', loc, ('new', n))
                I.ltype[e] = et
                out = []
                for s, _ in construct_object(I, st, et, e, [args[1]], fr, node):
                    atend = a0[2] == size_of(v)
                    I.emit(s, 'push', node, fr, cont=loc, elem=e, val=s.store.get(e), front=not atend)
                    I.write(s, loc, ('cpush' if atend else 'cpushf', v, ('i', n)), fr, node)
                    out.extend(ret(I, s, c, ('it', loc, a0[2])))
                return out
        if m == 'resize':
            n = I.aval(st, args[0])
            setv(('op', 'resize', v, n))
            return [(st, ('void',))]
        return NotImplemented
    # maps and sets
    isset = 'set' in cls
    if m in ('find', 'count', 'contains', 'lower_bound', 'upper_bound', 'at', 'operator[]') and args:
        key = I.aval(st, args[0], fr, node)
        I.emit(st, 'cread', node, fr, cont=loc, op=m, key=key)
        if m in ('lower_bound', 'upper_bound'):
            return ret(I, st, c, ('it', loc, bound_pos(I, st, v, key, m)))
        out = []
        for s, found, pos in map_find(I, st, loc, v, key, node, fr):
            if m == 'find':
                out.extend(ret(I, s, c, ('it', loc, pos if found else size_of(v))))
            elif m in ('count', 'contains'):
                out.append((s, ('i', int(found))))
            elif m == 'at':
                if found:
                    out.append((s, F(elem(I, s, loc, pos), 'second')))
                else:
                    s.comp = ('thr', ('exc', 'std::out_of_range', None))
                    I.emit(s, 'throw', node, fr, what='std::out_of_range')
                    out.append((s, None))
            else:
                if found:
                    out.append((s, F(elem(I, s, loc, pos), 'second')))
                else:
                    e = map_insert(I, s, loc, v, key, node, fr, implicit=True)
                    vt = targs(I, t)[1] if t else None
                    if vt:
                        for s2, _ in construct_object(I, s, I.nocv(vt), F(e, 'second'), [], fr, node):
                            out.append((s2, F(e, 'second')))
                    else:
                        out.append((s, F(e, 'second')))
        return out
    if m == 'insert' and len(args) == 2 and v == ('cmap', ()):
        a0, a1 = I.aval(st, args[0]), I.aval(st, args[1])
        if a0[0] == 'it' and a1[0] == 'it' and a0[1] == a1[1] and a0[2] == ('i', 0) and \
                I.p.recname(I.recof(I.ltype.get(a0[1]) or '')) == cls:
            av = I._read(st, a0[1])
            if a1[2] == size_of(av):
                # all elements of another map go into an empty one: an assignment
                I.emit(st, 'cassign', node, fr, cont=loc, src=a0[1], val=av, old=v)
                return [(s, ('void',)) for s in assign_std(I, st, a0[1], loc, I.recof(t or I.ltype.get(a0[1])), t, fr, node, False)]
    if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        if isset:
            key = I.aval(st, args[0])
            out = []
            for s, found, pos in map_find(I, st, loc, v, key, node, fr):
                if not found:
                    map_insert(I, s, loc, v, key, node, fr, implicit=False)
                out.extend(pair_ret(I, s, c, loc, key, not found))
            return out
        if m == 'emplace_hint':
            args = args[1:]
        if len(args) == 1:
            pl = args[0].loc
            if pl is None:
                return NotImplemented
            key = I._read(st, F(pl, 'first'))
            src = Arg(loc=F(pl, 'second'), t=I.ltype.get(F(pl, 'second')) or (targs(I, args[0].t) or [None, None])[1], x=args[0].x)
        else:
            key = I.aval(st, args[0])
            src = args[1]
        if I.aval(st, args[0])[0] == 'it' and len(args) == 1:
            return NotImplemented
        vt = I.nocv(targs(I, t)[1]) if t else None
        out = []
        for s, found, pos in map_find(I, st, loc, v, key, node, fr):
            if found and m != 'insert_or_assign':
                out.extend(pair_ret(I, s, c, loc, pos[1], False))
                continue
            if found:
                e = elem(I, s, loc, pos)
            else:
                e = map_insert(I, s, loc, v, key, node, fr, implicit=False)
            for s2, _ in construct_object(I, s, vt, F(e, 'second'), [src], fr, node):
                I.emit(s2, 'map_set', node, fr, cont=loc, key=key, val=s2.store.get(F(e, 'second')))
                out.extend(pair_ret(I, s2, c, loc, key, not found))
        return out
    if m == 'erase':
        a0 = I.aval(st, args[0])
        if a0[0] == 'it':
            if len(args) == 2:
                a1 = I.aval(st, args[1])
                if a0[2] == ('i', 0) and a1[2] == size_of(v):
                    I.emit(st, 'clear', node, fr, cont=loc, val=v, dtor=False)
                    setv(('cmap', ()))
                    return ret(I, st, c, ('it', loc, ('i', 0)))
                return NotImplemented
            e = elem(I, st, loc, a0[2])
            key = I._read(st, F(e, 'first')) if not isset else I._read(st, e)
        else:
            key = a0
        out = []
        fs = map_find(I, st, loc, v, key, node, fr) if a0[0] != 'it' else [(st, True, ('key', key))]
        for s, found, pos in fs:
            if found:
                I.emit(s, 'map_erase', node, fr, cont=loc, key=key)
                nv = ('cmap', tuple(k for k in v[1] if k != pos[1])) if v[0] == 'cmap' else ('cdel', v, key)
                e = ('E', loc, ('key', key))
                I.purge(s, e)
                I.write(s, loc, nv, fr, node)
            if a0[0] == 'it':
                nxt = a0[2]
                if nxt[0] == 'key' and v[0] == 'cmap' and nxt[1] in v[1]:
                    j = v[1].index(nxt[1])
                    rest = [k for k in v[1] if k != nxt[1]]
                    nxt = ('key', rest[j]) if j < len(rest) else ('i', len(rest))
                elif nxt[0] == 'key':
                    nxt = ('op', 'after', key)
                out.extend(ret(I, s, c, ('it', loc, nxt)))
            else:
                out.append((s, ('i', int(found))))
        return out
    return NotImplemented


def bound_pos(I, st, v, key, m):
    if v[0] == 'cmap':
        for k in v[1]:
            stop = I.known(st, ('op', '<', key, k))
            if not stop and m == 'lower_bound' and (key == k or I.known(st, ('op', '==', key, k))):
                stop = True
            if stop is None:
                return ('op', m, v, key)
            if stop:
                return ('key', k)
        return ('i', len(v[1]))
    return ('op', m, v, key)


def map_insert(I, s, loc, v, key, node, fr, implicit):
    I.emit(s, 'map_insert', node, fr, cont=loc, key=key, implicit=implicit)
    if v[0] == 'cmap':
        ks = list(v[1])
        i = len(ks)
        for j, k in enumerate(ks):
            if I.known(s, ('op', '<', key, k)):
                i = j
                break
        ks.insert(i, key)
        nv = ('cmap', tuple(ks))
    else:
        nv = ('cins', v, key)
    I.write(s, loc, nv, fr, node)
    return pair_elem(I, s, loc, key)


def pair_ret(I, s, c, loc, key, inserted):
    if c.dest is None or not I.p.isrec(I.p.unref(c.t or '')):
        return [(s, ('void',))]
    if rn(I, c.t) == 'std::pair':
        s.store[c.dest] = ('pair',)
        s.store[F(c.dest, 'first')] = ('it', loc, ('key', key))
        s.store[F(c.dest, 'second')] = ('i', int(inserted))
    else:
        s.store[c.dest] = ('it', loc, ('key', key))
    return [(s, c.dest)]


def filter_term(I, st, loc, v, pred, fr, node):
    """what a remove_if predicate removes; for strings the exact set of characters"""
    t = I.ltype.get(loc)
    if t and rn(I, t) == STR:
        chars = []
        for ch in range(256):
            r = decide_char(I, st, pred, ch, fr, node)
            if r is None:
                return ('op', 'filter', v, ('sym', 'pred', I.fresh()))
            if r:
                chars.append(chr(ch))
        return add_filter(v, ''.join(chars))
    # containers of handles: apply the predicate to a symbolic element
    e = ('E', loc, ('sym', 'elem'))
    I.ltype[e] = elem_t(I, t) if t else None
    s = st.fork()
    sv = s.store.get(e)
    hits = set()
    for s2, r in I.invoke_arg(s, pred, [Arg(loc=e, t=I.ltype[e])], fr, node):
        if s2.comp or s2.marks - st.marks:
            return ('cfilter', v, ('sym', 'pred', I.fresh()))
        hits.add(r)
    if len(hits) == 1:
        r = hits.pop()
        a, pos = I.norm_cond(r)
        ev = ('ld', e, st.gen)
        if a[0] == '==' and ev in a[1:] and pos:
            return ('cfilter', v, ('eq', a[2] if a[1] == ev else a[1]))
    return ('cfilter', v, ('sym', 'pred', I.fresh()))


def add_filter(v, chars):
    if v[0] == 's':
        return ('s', ''.join(ch for ch in v[1] if ch not in chars))
    if v[0] == 'op' and v[1] == 'filter' and v[3][0] == 's':
        return ('op', 'filter', v[2], ('s', ''.join(sorted(set(v[3][1]) | set(chars)))))
    return ('op', 'filter', v, ('s', ''.join(sorted(set(chars)))))


def decide_char(I, st, pred, ch, fr, node):
    v = I.aval(st, pred) if pred.loc is None or not I.p.isrec(I.p.unref(pred.t or '')) else None
    c = ch if ch < 128 else ch - 256
    if v is not None and v[0] == 'fn' and v[2].split('::')[-1] in CTYPE:
        return CTYPE[v[2].split('::')[-1]](ch)
    s = st.fork()
    s.ev = None
    rs = set()
    for s2, r in I.invoke_arg(s, pred, [Arg(val=('i', c), t='char')], fr, node):
        if s2.comp:
            return None
        k = I.known(s2, r)
        if k is None:
            return None
        rs.add(k)
    return rs.pop() if len(rs) == 1 else None


CTYPE = {
    'isspace': lambda c: chr(c) in ' \t\n\v\f\r' and c < 128,
    'isdigit': lambda c: 48 <= c <= 57,
    'isalpha': lambda c: c < 128 and chr(c).isalpha(),
    'isalnum': lambda c: c < 128 and chr(c).isalnum(),
    'isupper': lambda c: 65 <= c <= 90,
    'islower': lambda c: 97 <= c <= 122,
    'ispunct': lambda c: 32 < c < 127 and not chr(c).isalnum(),
    'isblank': lambda c: chr(c) in ' \t',
    'iscntrl': lambda c: c < 32 or c == 127,
    'isprint': lambda c: 32 <= c < 127,
    'isxdigit': lambda c: c < 128 and chr(c) in '0123456789abcdefABCDEF',
}


# ---------------------------------------------------------------- iterators
def it_cmp(I, st, a, b):
    """condition 'iterators equal'"""
    if a[0] not in ('it', 'rit') or b[0] not in ('it', 'rit'):
        return ('op', '==', a, b)
    p, q = a[2], b[2]
    if p == q:
        return ('i', 1)
    if p is None or q is None:
        return ('sym', 'itcmp', I.fresh())
    kp, kq = p[0] == 'key', q[0] == 'key'
    if kp and kq:
        return ('op', '==', p[1], q[1])
    if kp or kq:
        return ('i', 0) if (q if kp else p)[0] in ('size', 'i') or True else None
    return ('op', '==', p, q)


def key_pos(I, st, v):
    """positional form of a keyed iterator in a known map"""
    if v[0] == 'it' and isinstance(v[2], tuple) and v[2][0] == 'key':
        cv = val(I, st, v[1])
        if cv[0] == 'cmap' and v[2][1] in cv[1]:
            return ('it', v[1], ('i', cv[1].index(v[2][1])))
    return v


def m_iter(I, st, c, m):
    loc, args, fr, node = c.obj, c.args, c.fr, c.node
    v = val(I, st, loc)
    if v[0] == 'rit':
        d = -1
    else:
        d = 1
    if m in ('operator*', 'operator->', 'base'):
        if v[0] not in ('it', 'rit'):
            l = ('D', v)
            return [(st, l if m == 'operator*' else ('ptr', l))]
        if v[0] == 'it':
            I.emit(st, 'it_deref', node, fr, cont=v[1], pos=v[2])
        e = elem(I, st, v[1], v[2])
        if m == 'operator->':
            return [(st, ('ptr', e))]
        if m == 'base':
            return [(st, ('ptr', e))]
        return [(st, e)]
    if m in ('operator++', 'operator--', 'operator+=', 'operator-='):
        n = ('i', 1)
        if m.endswith('='):
            n = I.aval(st, args[0])
        v = key_pos(I, st, v)
        op = '+' if (m[8] == '+') == (d == 1) else '-'
        if v[2][0] == 'key' or v[2][0] == 'op' and v[2][1] in ('after', 'lower_bound', 'upper_bound'):
            nv = (v[0], v[1], ('op', 'after', v[2][1] if v[2][0] == 'key' else v[2]))
        else:
            nv = (v[0], v[1], I.arith(op, v[2], n))
        st.store[loc] = nv
        if args and not m.endswith('='):
            return ret(I, st, c, v)
        return [(st, loc)]
    if m in ('operator+', 'operator-'):
        if rn(I, args[0].t) and ITER.search(rn(I, args[0].t)):
            w = I.aval(st, args[0])
            return [(st, I.arith('-', v[2], w[2]))]
        n = I.aval(st, args[0])
        return ret(I, st, c, (v[0], v[1], I.arith(m[-1] if d == 1 else ('-' if m[-1] == '+' else '+'), v[2], n)))
    if m == 'operator[]':
        return [(st, elem(I, st, v[1], I.arith('+', v[2], I.aval(st, args[0]))))]
    if m in ('operator==', 'operator!='):
        e = it_cmp(I, st, key_pos(I, st, v), key_pos(I, st, I.aval(st, args[0])))
        return [(st, e if m == 'operator==' else I.binop(st, '==', e, ('i', 0)) if e[0] == 'i' else ('op', '!', e))]
    if m == 'operator=':
        st.store[loc] = I.aval(st, args[0])
        return [(st, loc)]
    return NotImplemented


# ---------------------------------------------------------------- free operators
def free_op(I, st, c, op):
    args, fr, node = c.args, c.fr, c.node
    if op == '<<' and len(args) == 2:
        l = args[0].loc
        if l is not None and (kind_stream(I, l) in STREAMS or rn(I, args[0].t) in STREAMS):
            return insert(I, st, l, args[1], fr, node)
    n0 = rn(I, args[0].t)
    n1 = rn(I, args[1].t) if len(args) > 1 else ''
    if op == '+' and (n0 == STR or n1 == STR):
        return ret(I, st, c, cat(strof(I, st, args[0]), strof(I, st, args[1])))
    if op in ('==', '!=', '<', '>', '<=', '>=') and len(args) == 2:
        a, b = I.aval(st, args[0], fr, node), I.aval(st, args[1], fr, node)
        for x, (p, q) in enumerate(((args[0], n0), (args[1], n1))):
            if I.tk(I.p.unref(p.t or '')) == 'nullptr':
                if x: b = ('null',)
                else: a = ('null',)
        if a[0] in ('it', 'rit') and b[0] in ('it', 'rit'):
            a, b = key_pos(I, st, a), key_pos(I, st, b)
            if op in ('==', '!='):
                e = it_cmp(I, st, a, b)
                k = I.known(st, e)
                if k is not None:
                    return [(st, ('i', int(k == (op == '=='))))]
                return [(st, e if op == '==' else ('op', '!', e))]
            return [(st, I.binop(st, op, a[2], b[2]))]
        if STR in (n0, n1) or 'std::basic_string_view' in (n0, n1):
            a, b = strof(I, st, args[0]), strof(I, st, args[1])
            if op in ('==', '!=') and ('s', '') in (a, b):
                e = is_empty(b if a == ('s', '') else a)
                k = I.known(st, e)
                if k is not None:
                    return [(st, ('i', int(k == (op == '=='))))]
                return [(st, e if op == '==' else ('op', '!', e))]
        return [(st, I.binop(st, op, a, b))]
    if op in ('|', '&', '^', '|=', '&=', '^=') and len(args) == 2:
        b = I.aval(st, args[1])
        if op.endswith('='):
            l = args[0].loc
            nv = I.arith(op[0], I.read(st, l, fr, node), b)
            I.write(st, l, nv, fr, node)
            return [(st, l)]
        return [(st, I.arith(op, I.aval(st, args[0]), b))]
    if op == '~' and len(args) == 1:
        return [(st, ('op', '~', I.aval(st, args[0])))]
    if op in ('+', '-') and len(args) == 2 and (n0.startswith('std::chrono') or n1.startswith('std::chrono')):
        return m_chrono(I, st, c, 'operator' + op)
    if op == '-' and len(args) == 2:
        a, b = I.aval(st, args[0]), I.aval(st, args[1])
        if a[0] == 'it' and b[0] == 'it':
            return [(st, I.arith('-', a[2], b[2]))]
    if op == '!' and len(args) == 1:
        return [(st, ('op', '!', I.aval(st, args[0])))]
    return NotImplemented


# ---------------------------------------------------------------- free functions
def f_ident(I, st, c):
    a = c.args[0]
    if a.loc is not None:
        return [(st, a.loc)]
    l = I.tmp(I.p.unref(a.t) if a.t else None)
    st.store[l] = a.val
    return [(st, l)]


def f_addressof(I, st, c):
    return [(st, ('ptr', c.args[0].loc))]


def f_swap(I, st, c):
    a, b = c.args
    return do_swap(I, st, a.loc, b.loc, I.nocv(I.p.unref(a.t)), c.fr, c.node)


def f_exchange(I, st, c):
    a, b = c.args
    t = I.nocv(I.p.unref(a.t))
    if I.p.isrec(t):
        dest = c.dest or I.tmp(t)
        sts = I.copy_obj(st, a.loc, dest, t, c.fr, c.node, move=True)
        out = []
        for s in sts:
            if b.t and I.p.isrec(I.p.unref(b.t)) and I.same_class(b.t, t):
                out.extend((x, dest) for x in I.assign_obj(s, b.loc, a.loc, t, c.fr, c.node, move=b.x))
            elif rn(I, t) == 'std::function':
                tmp = I.tmp(t)
                if I.tk(I.p.unref(b.t or '')) == 'nullptr':
                    I.write(s, a.loc, ('null',), c.fr, c.node)
                    out.append((s, dest))
                else:
                    for s2, _ in make_func(I, s, b, tmp, c.fr, c.node):
                        I.write(s2, a.loc, s2.store.pop(tmp), c.fr, c.node)
                        out.append((s2, dest))
            else:
                v = I.aval(s, b)
                if rn(I, t) == STR:
                    v = strof(I, s, b)
                elif I.tk(I.p.unref(b.t or '')) == 'nullptr':
                    v = ('null',)
                I.write(s, a.loc, v, c.fr, c.node)
                out.append((s, dest))
        return out
    old = I.read(st, a.loc, c.fr, c.node)
    I.write(st, a.loc, I.aval(st, b), c.fr, c.node)
    return [(st, old)]


def f_make(I, st, c):
    ta = (c.node or {}).get('ta') or []
    if not ta:
        return NotImplemented
    t = ta[0]
    h = I.heap(t)
    out = []
    if t.endswith('[]') and len(c.args) == 1:
        st.store[('#len', h)] = I.aval(st, c.args[0])
        I.emit(st, 'new', c.node, c.fr, loc=h, t=t, shared='shared' in c.name)
        return ret(I, st, c, ('ptr', h))
    for s, _ in construct_object(I, st, t, h, c.args, c.fr, c.node):
        if s.comp:
            out.append((s, None))
            continue
        I.emit(s, 'new', c.node, c.fr, loc=h, t=t, shared='shared' in c.name)
        out.extend(ret(I, s, c, ('ptr', h)))
    return out


def f_bind(I, st, c):
    d = c.dest or I.tmp(c.t)
    if c.t:
        I.ltype[d] = c.t
    sts = [st]
    for i, a in enumerate(c.args):
        l = F(d, 'fn' if i == 0 else 'a%d' % (i - 1))
        n = rn(I, a.t)
        nxt = []
        for s in sts:
            if n == 'std::_Placeholder':
                ta = targs(I, a.t)
                m = re.search(r'\d+', str(ta[0])) if ta else re.search(r'_(\d+)', show(a.loc) if a.loc else '')
                k = int(m.group(0).strip('_')) if m else 1
                s.store[l] = ('placeholder', k)
                nxt.append(s)
            elif n == 'std::reference_wrapper':
                s.store[l] = val(I, s, a.loc)
                nxt.append(s)
            else:
                nxt.extend(store_callable(I, s, a, l, c.fr, c.node))
        sts = nxt
    out = []
    for s in sts:
        s.store[d] = ('bind', len(c.args) - 1)
        out.append((s, d))
    return out


def f_ref(I, st, c):
    return ret(I, st, c, ('refw', c.args[0].loc))


def f_call_once(I, st, c):
    flag = c.args[0].loc
    key = ('once', flag)
    out = []
    I.emit(st, 'once', c.node, c.fr, flag=flag, nested=key in st.locks)
    for s, b in I.decide(st, ('once', flag), c.node, c.fr):
        if b:
            out.append((s, ('void',)))
            continue
        s.facts[('nz', key)] = True
        s.locks = s.locks + (key,)
        for s2, _ in I.invoke_arg(s, c.args[1], c.args[2:], c.fr, c.node):
            l = list(s2.locks)
            if key in l:
                l.remove(key)
            s2.locks = tuple(l)
            if s2.comp and s2.comp[0] == 'thr':
                s2.facts.pop(('nz', key), None)
            else:
                s2.facts[('nz', key)] = True
            out.append((s2, ('void',) if not s2.comp else None))
    return out


def f_invoke(I, st, c):
    return I.invoke_arg(st, c.args[0], c.args[1:], c.fr, c.node, c.dest)


def f_to_string(I, st, c):
    v = I.aval(st, c.args[0])
    return ret(I, st, c, ('s', str(v[1])) if v[0] == 'i' else ('fmt', v))


def f_exc_ptr(I, st, c):
    a = c.args[0]
    n = rn(I, a.t) or (a.t or '?')
    return ret(I, st, c, ('exc', n, a.loc))


def f_cur_exc(I, st, c):
    e = st.meta.get('current_exc')
    return ret(I, st, c, e if e else ('exc', '?', None))


def f_rethrow(I, st, c):
    e = I.aval(st, c.args[0])
    st.comp = ('thr', e if e[0] == 'exc' else ('exc', '?', None))
    return [(st, None)]


def f_lockall(I, st, c):
    for a in c.args:
        if a.loc is not None:
            v = st.store.get(a.loc)
            if v and v[0] == 'ulock':
                for m in v[1]:
                    lock(I, st, m, c.node, c.fr)
                st.store[a.loc] = ('ulock', v[1], True)
            else:
                lock(I, st, a.loc, c.node, c.fr)
    return [(st, ('void',))]


# algorithms
def rng(I, st, c):
    a, b = I.aval(st, c.args[0]), I.aval(st, c.args[1])
    if a[0] == 'it' and b[0] == 'it' and a[1] is not None:
        return a, b
    return None


def whole(I, st, a, b):
    return a[2] == ('i', 0) and b[2] == size_of(val(I, st, a[1]))


def f_remove(I, st, c):
    r = rng(I, st, c)
    if not r or not whole(I, st, *r):
        return NotImplemented
    loc = r[0][1]
    v = val(I, st, loc)
    t = I.ltype.get(loc)
    if c.name.endswith('remove_if'):
        nv = filter_term(I, st, loc, v, c.args[2], c.fr, c.node)
    else:
        x = I.aval(st, c.args[2])
        if t and rn(I, t) == STR:
            nv = add_filter(v, chr(x[1] % 256)) if x[0] == 'i' else ('op', 'filter', v, x)
        else:
            nv = ('cfilter', v, ('eq', x))
    return ret(I, st, c, ('it', loc, ('rm', nv)))


def f_replace(I, st, c):
    r = rng(I, st, c)
    if not r or not whole(I, st, *r):
        return NotImplemented
    loc = r[0][1]
    v = val(I, st, loc)
    if c.name.endswith('replace_if'):
        f = filter_term(I, st, loc, v, c.args[2], c.fr, c.node)
        y = I.aval(st, c.args[3])
        if f[0] == 'op' and f[1] == 'filter' and f[2] == v:
            nv = ('op', 'map', v, f[3], chr_term(y))
        else:
            nv = ('op', 'map', v, ('sym', 'pred', I.fresh()), chr_term(y))
    else:
        x, y = I.aval(st, c.args[2]), I.aval(st, c.args[3])
        nv = ('op', 'map', v, chr_term(x), chr_term(y))
    for k in I.subtree(st, loc):
        del st.store[k]
    I.write(st, loc, nv, c.fr, c.node)
    return [(st, ('void',))]


def iterate(I, st, loc, a, b, c, body):
    """run body(state, element location) for every position in [a, b): (state, position, finished?)"""
    node = c.node or {'l': 0}
    fr = c.fr
    pl = ('L', fr.uid, 'position@%s' % node.get('l'))
    st.store[pl] = ('it', loc, a)
    out = []

    def chead(s):
        return [(s, ('op', '!', it_cmp(I, s, s.store[pl], ('it', loc, b))))]

    def cbody(s):
        q = s.store[pl][2]
        res = []
        for s2, stop in body(s, elem(I, s, loc, q), q):
            if not s2.comp and stop:
                s2.comp = ('brk',)
            res.append(s2)
        return res

    def cinc(s):
        s.store[pl] = ('it', loc, I.arith('+', s.store[pl][2], ('i', 1)))
        return [s]
    for s in I.gloop(node, st, fr, ('%s:%s' % (fr.file, node.get('l')), fr.uid, 'alg'), chead, cbody, cinc, counted=True):
        last = s.events('loop_exit')[-1:] if not s.comp else []
        p = s.store[pl][2]
        out.append((s, p, None if s.comp else (last[0].how == 'cond')))
    return out


def f_for_each(I, st, c):
    r = rng(I, st, c)
    if not r:
        return NotImplemented
    a, b = key_pos(I, st, r[0]), r[1]

    def body(s, e, q):
        return [(s2, False) for s2, _ in I.invoke_arg(s, c.args[2], [Arg(loc=e, t=I.ltype.get(e))], c.fr, c.node)]
    out = []
    for s, p, fin in iterate(I, st, a[1], a[2], b[2], c, body):
        out.extend(ret(I, s, c, ('sym', 'fn')) if not s.comp else [(s, None)])
    return out


def f_find_if(I, st, c):
    r = rng(I, st, c)
    if not r:
        return NotImplemented
    a, b = key_pos(I, st, r[0]), r[1]
    name = c.name.split('::')[-1]
    v = val(I, st, a[1])
    t = I.ltype.get(a[1])
    if t and rn(I, t) == STR and whole(I, st, a, b) and name in ('any_of', 'none_of', 'all_of', 'find_if'):
        f = filter_term(I, st, a[1], v, c.args[2], c.fr, c.node)
        if f[0] == 'op' and f[1] == 'filter' and f[3][0] == 's':
            pos = ('op', 'find_first_of' if name != 'all_of' else 'find_first_not_of', v, f[3])
            hit = ('op', '!=', pos, ('i', NPOS))
            if name == 'any_of': return [(st, hit)]
            if name in ('none_of', 'all_of'): return [(st, ('op', '!', hit))]

    def body(s, e, q):
        out = []
        if name == 'find':
            x = I.aval(s, c.args[2])
            prs = [(s, ('op', '==', I._read(s, e), x))]
        else:
            prs = I.invoke_arg(s, c.args[2], [Arg(loc=e, t=I.ltype.get(e))], c.fr, c.node)
        for s1, rr in prs:
            if s1.comp:
                out.append((s1, True))
                continue
            for s2, b in I.decide(s1, rr, c.node, c.fr):
                stop = b if name not in ('all_of',) else not b
                if name == 'find_if_not': stop = not b
                out.append((s2, stop))
        return out
    out = []
    for s, p, fin in iterate(I, st, a[1], a[2], b[2], c, body):
        if s.comp:
            out.append((s, None))
        elif name in ('any_of', 'none_of', 'all_of'):
            out.append((s, ('i', int((not fin) == (name == 'any_of')))))
        else:
            out.extend(ret(I, s, c, ('it', a[1], p if not fin else b[2])))
    return out


def f_minmax(I, st, c):
    a, b = c.args[0], c.args[1]
    va, vb = I.aval(st, a), I.aval(st, b)
    out = []
    mx = c.name.endswith('max')
    for s, lt in I.decide(st, ('op', '<', va, vb), c.node, c.fr):
        pick = b if (lt == mx) else a
        if c.node and c.node.get('lv') and pick.loc is not None:
            out.append((s, pick.loc))
        else:
            l = I.tmp(I.p.unref(pick.t or ''))
            s.store[l] = I.aval(s, pick)
            out.append((s, l) if c.node and c.node.get('lv') else (s, s.store[l]))
    return out


def f_next(I, st, c):
    v = I.aval(st, c.args[0])
    n = I.aval(st, c.args[1]) if len(c.args) > 1 else ('i', 1)
    v = key_pos(I, st, v)
    if v[0] != 'it':
        return NotImplemented
    op = '+' if c.name.endswith(('next', 'advance')) else '-'
    nv = ('it', v[1], I.arith(op, v[2], n) if v[2][0] != 'key' else ('op', 'after', v[2][1]))
    if c.name.endswith('advance'):
        st.store[c.args[0].loc] = nv
        return [(st, ('void',))]
    return ret(I, st, c, nv)


def f_distance(I, st, c):
    r = rng(I, st, c)
    if not r:
        return NotImplemented
    return [(st, I.arith('-', r[1][2], r[0][2]))]


def f_begin(I, st, c):
    a = c.args[0]
    n = c.name.split('::')[-1]
    t = I.p.unref(a.t or '')
    if I.tk(t) == 'array':
        ln = st.store.get(('#len', a.loc)) or ('i', I.p.ty(t).get('n', 0))
        return [(st, ('ptr', ('E', a.loc, ('i', 0) if n in ('begin', 'cbegin') else ln)))]
    cls = rn(I, t)
    if cls:
        c2 = Ctx(node=c.node, fr=c.fr, obj=a.loc, args=[], dest=c.dest, name=cls + '::' + n, fn=c.fn, t=c.t)
        return call_std(I, st, c2)
    return NotImplemented


def f_get(I, st, c):
    """std::get<N>(pair or tuple)"""
    a = c.args[0]
    ta = (c.node or {}).get('ta') or ['0']
    i = str(ta[0]).lstrip('#')
    n = rn(I, a.t)
    if n == 'std::pair':
        return [(st, F(a.loc, 'first' if i in ('0', '0UL') else 'second'))]
    m = re.match(r'\d+', i)
    l = F(a.loc, int(m.group(0)) if m else 0)
    v = st.store.get(l)
    return [(st, v[1] if v is not None and v[0] == 'ref' else l)]


def f_make_tuple(I, st, c):
    d = c.dest or I.tmp(c.t)
    if c.t:
        I.ltype[d] = c.t
    return [(s, d) for s in make_tuple(I, st, d, targs(I, c.t), c.args, c.fr, c.node)]


def f_apply(I, st, c):
    """std::apply(callable, tuple)"""
    f, tup = c.args
    if tup.loc is None:
        return NotImplemented
    l = tup.loc
    v = st.store.get(l)
    if v is not None and v[0] == 'ref':
        l = v[1]
    ta = targs(I, tup.t)
    if rn(I, tup.t) not in ('std::tuple', 'std::pair') or st.store.get(l) != ('pair',) and any(F(l, i) not in st.store for i in range(len(ta))):
        return NotImplemented
    names = ('first', 'second') if rn(I, tup.t) == 'std::pair' else range(len(ta))
    args = []
    for n, t in zip(names, ta):
        e = F(l, n)
        ev = st.store.get(e)
        if ev is not None and ev[0] == 'ref':
            args.append(Arg(loc=ev[1], t=I.p.unref(t), x=False))
        else:
            args.append(Arg(loc=e, t=I.p.unref(t), x=tup.x))
    return I.invoke_arg(st, f, args, c.fr, c.node, c.dest)


def f_make_pair(I, st, c):
    d = c.dest or I.tmp(c.t)
    st.store[d] = ('pair',)
    sts = [st]
    for n, a in zip(('first', 'second'), c.args):
        sts = [y for s in sts for y in store_callable(I, s, a, F(d, n), c.fr, c.node)]
    return [(s, d) for s in sts]


# libc
def f_event(kind, ret_sym=True, **names):
    def go(I, st, c):
        vals = {}
        for n, i in names.items():
            if i < len(c.args):
                vals[n] = I.aval(st, c.args[i])
        r = ('sym', kind, I.fresh())
        I.emit(st, kind, c.node, c.fr, res=r, **vals)
        return [(st, r)]
    return go


def f_pure(op):
    def go(I, st, c):
        return [(st, ('op', op) + tuple(I.aval(st, a) for a in c.args))]
    return go


def ptr_loc(v):
    if v[0] == 'ptr':
        l = v[1]
        if l[0] == 'E' and l[2] == ('i', 0):
            return l[1]
        return l
    return ('D', v)


def f_sigaction(I, st, c):
    sig, act, old = [I.aval(st, a) for a in c.args]
    r = ('sym', 'sigaction', I.fresh())
    al = ptr_loc(act) if act[0] != 'null' else None
    h = None
    src = None
    if al is not None:
        h = I._read(st, F(F(al, '__sigaction_handler'), 'sa_sigaction'))
        h2 = st.store.get(F(F(al, '__sigaction_handler'), 'sa_handler'))
        if h2 is not None and h[0] in ('uninit', 'i', 'ld'):
            h = h2
        src = st.store.get(al)
    I.emit(st, 'sigaction', c.node, c.fr, sig=sig, act=act, old=old, handler=h, res=r, actval=src,
           flags=I._read(st, F(al, 'sa_flags')) if al is not None else None, mask=(st.store.get(F(al, 'sa_mask')) or I._read(st, F(al, 'sa_mask'))) if al is not None else None)
    if old[0] != 'null':
        ol = ptr_loc(old)
        I.purge(st, ol)
        st.store[ol] = ('op', 'oldaction', sig, ('i', r[2]))
    return [(st, r)]


def f_signal(I, st, c):
    sig, h = [I.aval(st, a) for a in c.args]
    r = ('sym', 'signal', I.fresh())
    I.emit(st, 'sigaction', c.node, c.fr, sig=sig, act=h, old=('null',), handler=h, res=r, actval=None, flags=None, mask=None)
    return [(st, r)]


def f_sigset(I, st, c):
    p = I.aval(st, c.args[0])
    n = c.name.split('::')[-1]
    if p[0] != 'null':
        l = ptr_loc(p)
        old = st.store.get(l)
        if n == 'sigemptyset': nv = ('sigset',)
        elif n == 'sigfillset': nv = ('sigset', ('s', 'all'))
        elif n == 'sigaddset': nv = (old if old and old[0] == 'sigset' else ('sigset', ('sym', '?'))) + (I.aval(st, c.args[1]),)
        elif n == 'sigdelset' and old and old[0] == 'sigset' and ('s', 'all') not in old: nv = tuple(x for x in old if x != I.aval(st, c.args[1]))
        else: nv = ('sigset', ('sym', '?'))
        I.purge(st, l)
        st.store[l] = nv
    return [(st, ('i', 0))]


def f_sigmask(I, st, c):
    s = I.aval(st, c.args[1])
    I.emit(st, 'sigmask', c.node, c.fr, how=I.aval(st, c.args[0]), set=s, setval=st.store.get(ptr_loc(s)) if s[0] == 'ptr' else None)
    return [(st, ('i', 0))]


def f_memset(I, st, c):
    p, x, n = [I.aval(st, a) for a in c.args]
    l = ptr_loc(p)
    I.purge(st, l)
    st.store[l] = ('zero',) if x == ('i', 0) else ('sym', 'memset', I.fresh())
    return [(st, p)]


def f_memcpy(I, st, c):
    d, s, n = [I.aval(st, a) for a in c.args]
    I.copy_tree(st, ptr_loc(s), ptr_loc(d))
    return [(st, d)]


def room(I, st, buf):
    """number of characters a buffer has room for, as (term, offset)"""
    if buf[0] != 'ptr':
        return None
    l, off = buf[1], ('i', 0)
    if l[0] == 'E':
        l, off = l[1], l[2]
    ty = I.p.ty(I.ltype.get(l) or '')
    if ty.get('k') == 'array' and ty.get('n'):
        return (('i', ty['n']), off)
    m = re.match(r'(?:const )?std::array<.*, (\d+)(?:UL)?>$', I.ltype.get(l) or '')
    if m:
        return (('i', int(m.group(1))), off)
    ln = st.store.get(('#len', l))
    if ln:
        return (ln, off)
    v = st.store.get(l)
    if v is not None and v[0] not in ('ld', 'sym', 'havoc', 'zero'):
        n = size_of(v)
        if v[0] == 'op' and v[1] in ('repeat', 'filled'):
            n = v[2]
        return (n, off)
    return None


def va_loc(I, st, a):
    """where a va_list is, an array of one element or a plain object"""
    v = I.aval(st, a)
    l = ptr_loc(v) if v and v[0] == 'ptr' else a.loc if getattr(a, 'loc', None) else None
    while l is not None and l[0] == 'E':
        l = l[1]
    return l


def f_va(I, st, c):
    l = va_loc(I, st, c.args[0])
    n = c.name.split('::')[-1].replace('__builtin_', '')
    if l is not None:
        new = ('va', 'ready')
        if n == 'va_end':
            new = ('va', 'ended')
        elif n == 'va_copy':
            src = va_loc(I, st, c.args[1])
            new = st.store.get(F(src, '#va')) if src is not None else None
        st.store.pop(F(l, '#va'), None)
        if new is not None:
            st.store[F(l, '#va')] = new
    return [(st, ('void',))]


def f_vsnprintf(I, st, c):
    a = [I.aval(st, x) for x in c.args]
    n = c.name.split('::')[-1]
    if n == 'vsprintf':
        a.insert(1, None)
    buf, size, f = a[0], a[1], a[2]
    if n in ('vsnprintf', 'vsprintf'):
        l = va_loc(I, st, c.args[-1])
        if l is not None:
            state = st.store.get(F(l, '#va'))
            if state is None and root(l)[0] in ('L', 'T') and I._read(st, l)[0] in ('uninit', 'arr', 'sym'):
                state = ('va', 'never set up')
            st.store[F(l, '#va')] = ('va', 'used')
        else:
            state = None
        I.emit(st, 'va_use', c.node, c.fr, state=state)
    n = I.fresh()
    I.emit(st, 'vsnprintf', c.node, c.fr, buf=buf, size=size, fmt=text(I, st, f), n_=n, room=room(I, st, buf), va=a[3] if len(a) > 3 else None, name=c.name)
    r = ('sym', 'printed', n)
    # the arguments, where they are given one by one
    given = tuple(a[3:]) if c.name.split('::')[-1] == 'snprintf' else ()
    if buf[0] != 'null':
        l = ptr_loc(buf)
        l = l[1] if l[0] == 'E' else l
        I.purge(st, l) if not (st.store.get(l) or ('x',))[0] == 'op' else None
        if (st.store.get(l) or ('x',))[0] == 'op':
            st.store[('E', l, ('i', 0))] = ('vsn', text(I, st, f), size, ('i', n)) + given
            st.store[F(l, '#text')] = ('vsn', text(I, st, f), size, ('i', n)) + given
        else:
            st.store[l] = ('vsn', text(I, st, f), size, ('i', n)) + given
    return [(st, r)]


def f_strftime(I, st, c):
    buf, size, f, tm = [I.aval(st, x) for x in c.args]
    r = ('sym', 'strftime', I.fresh())
    tl = ptr_loc(tm) if tm[0] != 'null' else None
    tv = val(I, st, tl) if tl else tm
    if tv[0] == 'struct':
        tv = val(I, st, tv[1]) if isinstance(tv[1], tuple) else tv
    l = ptr_loc(buf)
    have = room(I, st, buf)
    I.purge(st, l)
    st.store[l] = ('tmfmt', text(I, st, f), tv)
    I.emit(st, 'strftime', c.node, c.fr, buf=l, size=size, fmt=text(I, st, f), tm=tv, res=r, room=have)
    return [(st, r)]


def f_localtime(I, st, c):
    a = [I.aval(st, x) for x in c.args]
    src = ptr_loc(a[0])
    tv = ('op', c.name.split('::')[-1], val(I, st, src))
    if len(a) > 1:
        l = ptr_loc(a[1])
        I.purge(st, l)
        st.store[l] = tv
        return [(st, a[1])]
    I.emit(st, 'nonreentrant', c.node, c.fr, name=c.name)
    h = I.heap(None)
    st.store[h] = tv
    return [(st, ('ptr', h))]


def f_put_time(I, st, c):
    tm, f = I.aval(st, c.args[0]), I.aval(st, c.args[1])
    return ret(I, st, c, ('tmfmt', text(I, st, f), val(I, st, ptr_loc(tm))))


def f_write(I, st, c):
    fd, p, n = [I.aval(st, a) for a in c.args]
    r = ('sym', 'write', I.fresh())
    I.emit(st, 'write', c.node, c.fr, fd=fd, val=text(I, st, p), n=n, res=r)
    return [(st, r)]


def f_perror(I, st, c):
    I.emit(st, 'perror', c.node, c.fr, val=text(I, st, I.aval(st, c.args[0])))
    return [(st, ('void',))]


def f_stdio(I, st, c):
    """printing through a C stream"""
    n = c.name.split('::')[-1]
    vs = []
    for a in c.args:
        v = I.aval(st, a)
        vs.append(text(I, st, v) if v[0] in ('cstr', 'ptr') else v)
    I.emit(st, 'stdio', c.node, c.fr, fn=n, val=('cat',) + tuple(vs), args=tuple(vs))
    return [(st, ('sym', n, I.fresh()))]


def f_noop(I, st, c):
    return [(st, ('sym', c.name, I.fresh()))]


def f_strlen(I, st, c):
    return [(st, size_of(text(I, st, I.aval(st, c.args[0]))))]


def f_ctype(I, st, c):
    n = c.name.split('::')[-1]
    v = I.aval(st, c.args[0])
    if v[0] == 'i' and n in CTYPE:
        return [(st, ('i', int(CTYPE[n](v[1] % 256))))]
    return [(st, ('op', n, v))]


def f_demangle(I, st, c):
    if len(c.args) > 3:
        p = I.aval(st, c.args[3])
        if p[0] == 'ptr':
            st.store[p[1]] = ('sym', 'demangle_status', I.fresh())
    return [(st, ('sym', 'demangled', I.fresh()))]


def f_backtrace(I, st, c):
    return [(st, ('sym', 'backtrace', I.fresh()))]


def f_sleep(I, st, c):
    I.emit(st, 'sleep', c.node, c.fr)
    I.havoc(st)
    return [(st, ('i', 0))]


def f_raise(I, st, c):
    I.emit(st, 'raise', c.node, c.fr, sig=I.aval(st, c.args[-1]) if c.name.endswith(('raise', 'pthread_kill')) else I.aval(st, c.args[1]), name=c.name)
    return [(st, ('sym', 'raise', I.fresh()))]


def f_uncaught(I, st, c):
    return [(st, ('sym', 'uncaught', I.fresh()))]


def f_atexit(I, st, c):
    I.emit(st, 'atexit', c.node, c.fr, fn=I.aval(st, c.args[0]))
    return [(st, ('i', 0))]


def f_str2num(I, st, c):
    return [(st, ('op', c.name.split('::')[-1], strof(I, st, c.args[0])))]


def f_expect(I, st, c):
    return [(st, I.aval(st, c.args[0]))]


def f_fence(I, st, c):
    return [(st, ('void',))]


def f_abs(I, st, c):
    v = I.aval(st, c.args[0])
    return [(st, ('i', abs(v[1])) if v[0] == 'i' else ('op', 'abs', v))]


def f_pow(I, st, c):
    a = [I.aval(st, x) for x in c.args]
    try:
        x = [float(y[1]) for y in a]
        return [(st, ('f', x[0] ** x[1]))]
    except Exception:
        return [(st, ('op', 'pow') + tuple(a))]


FUNCS = {}
for n in ('lround', 'llround', 'rint', 'nearbyint', 'lrint', 'llrint', 'trunc', 'std::floor', 'std::ceil', 'std::round'):
    for m in {n, n if n.startswith('std::') else 'std::' + n}: FUNCS[m] = f_pure(m)
for n in ('std::move', 'std::forward', 'std::as_const', 'std::move_if_noexcept', 'std::launder', 'std::__addressof_lv'): FUNCS[n] = f_ident
for n in ('std::addressof', 'std::__addressof'): FUNCS[n] = f_addressof
FUNCS['std::swap'] = FUNCS['std::iter_swap'] = f_swap
FUNCS['std::exchange'] = f_exchange
for n in ('std::make_unique', 'std::make_shared'): FUNCS[n] = f_make
FUNCS['std::bind'] = f_bind
for n in ('std::ref', 'std::cref'): FUNCS[n] = f_ref
FUNCS['std::call_once'] = f_call_once
FUNCS['std::invoke'] = FUNCS['std::__invoke'] = f_invoke
FUNCS['std::setw'] = FUNCS['std::setfill'] = lambda I, st, c: ret(I, st, c, I.aval(st, c.args[0]))
FUNCS['std::to_string'] = f_to_string
FUNCS['std::make_exception_ptr'] = f_exc_ptr
FUNCS['std::current_exception'] = f_cur_exc
FUNCS['std::rethrow_exception'] = f_rethrow
FUNCS['std::lock'] = f_lockall
for n in ('std::remove', 'std::remove_if'): FUNCS[n] = f_remove
for n in ('std::replace', 'std::replace_if'): FUNCS[n] = f_replace
FUNCS['std::for_each'] = f_for_each
for n in ('std::find', 'std::find_if', 'std::find_if_not', 'std::any_of', 'std::none_of', 'std::all_of'): FUNCS[n] = f_find_if
for n in ('std::min', 'std::max'): FUNCS[n] = f_minmax
for n in ('std::next', 'std::prev', 'std::advance'): FUNCS[n] = f_next
FUNCS['std::distance'] = f_distance
for n in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::empty', 'std::data'): FUNCS[n] = f_begin
FUNCS['std::get'] = f_get
FUNCS['std::make_pair'] = f_make_pair
for n in ('std::make_tuple', 'std::tie', 'std::forward_as_tuple'): FUNCS[n] = f_make_tuple
FUNCS['std::apply'] = f_apply
for p in ('', 'std::'):
    for n in ('raise', 'kill', 'pthread_kill', 'tgkill'): FUNCS[p + n] = f_raise
    FUNCS[p + 'sigaction'] = f_sigaction
    FUNCS[p + 'signal'] = f_signal
    for n in ('sigemptyset', 'sigfillset', 'sigaddset', 'sigdelset'): FUNCS[p + n] = f_sigset
    for n in ('sigprocmask', 'pthread_sigmask'): FUNCS[p + n] = f_sigmask
    for n in ('va_start', 'va_end', 'va_copy', '__builtin_va_start', '__builtin_va_end', '__builtin_va_copy'): FUNCS[p + n] = f_va
    FUNCS[p + 'memset'] = FUNCS[p + 'bzero'] = f_memset
    FUNCS[p + 'memcpy'] = FUNCS[p + 'memmove'] = f_memcpy
    for n in ('vsnprintf', 'snprintf', 'vsprintf', 'sprintf'): FUNCS[p + n] = f_vsnprintf
    FUNCS[p + 'strftime'] = f_strftime
    for n in ('localtime_r', 'gmtime_r', 'localtime', 'gmtime'): FUNCS[p + n] = f_localtime
    FUNCS[p + 'put_time'] = f_put_time
    FUNCS[p + 'write'] = f_write
    FUNCS[p + 'perror'] = f_perror
    for n in ('printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fputc', 'putc', 'fwrite', 'vprintf', 'vfprintf', 'dprintf'): FUNCS[p + n] = f_stdio
    for n in ('free', 'backtrace_symbols', 'time', 'fflush', 'setlocale', 'tzset'): FUNCS[p + n] = f_noop
    for n in ('getpid', 'getppid', 'gettid', 'pthread_self', 'getuid', 'rand', '__errno_location', 'errno'): FUNCS[p + n] = (lambda n: lambda I, st, c: [(st, ('sym', n))])(n)
    for n in ('strsignal', 'strerror', 'getenv', 'strrchr', 'strchr', 'strstr', 'strcmp', 'strncmp', 'memcmp', 'basename'): FUNCS[p + n] = f_pure(n)
    FUNCS[p + 'strlen'] = f_strlen
    for n in CTYPE: FUNCS[p + n] = f_ctype
    for n in ('toupper', 'tolower'): FUNCS[p + n] = f_pure(n)
    FUNCS[p + 'backtrace'] = f_backtrace
    for n in ('sleep', 'usleep', 'nanosleep', 'pause', 'sched_yield'): FUNCS[p + n] = f_sleep
    FUNCS[p + 'uncaught_exception'] = FUNCS[p + 'uncaught_exceptions'] = f_uncaught
    FUNCS[p + 'atexit'] = FUNCS[p + 'at_quick_exit'] = f_atexit
    for n in ('stoi', 'stol', 'stoul', 'atoi', 'strtol', 'stoll', 'stoull'): FUNCS[p + n] = f_str2num
    FUNCS[p + 'abs'] = FUNCS[p + 'labs'] = f_abs
    FUNCS[p + 'pow'] = f_pow
FUNCS['__builtin_expect'] = f_expect
FUNCS['__cxxabiv1::__cxa_demangle'] = f_demangle
FUNCS['abi::__cxa_demangle'] = f_demangle
for n in ('std::atomic_thread_fence', 'std::atomic_signal_fence'): FUNCS[n] = f_fence


def f_atomic_free(I, st, c):
    m = c.name.split('::')[-1].replace('atomic_', '').replace('_explicit', '')
    p = I.aval(st, c.args[0])
    if p[0] != 'ptr':
        return NotImplemented
    c2 = Ctx(node=c.node, fr=c.fr, obj=p[1], args=c.args[1:], dest=c.dest, name='std::atomic::' + m, fn=c.fn, t=c.t)
    return m_atomic(I, st, c2, m)


for n in ('load', 'store', 'exchange', 'fetch_add', 'fetch_sub', 'compare_exchange_strong', 'compare_exchange_weak'):
    FUNCS['std::atomic_' + n] = FUNCS['std::atomic_' + n + '_explicit'] = f_atomic_free
