"""C18: printf style logging."""
import re
from rules.common import *
from rules import pipeline as pl, macros as mc

FORMAT = 'printf_format'
INT_MAX = 2 ** 31 - 1


def strip_casts(t):
    while isinstance(t, tuple) and t and t[0] == 'op' and (t[1] == 'tou' or t[1].startswith('trunc')) and len(t) == 3:
        t = t[2]
    return t


def linear(t):
    """(rest, constant) of a sum"""
    t = strip_casts(t)
    if t[0] == 'i':
        return (None, t[1])
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
        a, b = linear(t[2]), linear(t[3])
        if t[1] == '+' and a[0] is None:
            a, b = b, a
        if b[0] is None:
            return (a[0], a[1] + (b[1] if t[1] == '+' else -b[1]))
    return (t, 0)


def fits(size, room):
    """True / False / None: a size is at most the room"""
    size = strip_casts(size)
    if size[0] == 'op' and size[1] in ('min', 'std::min'):
        rs = [fits(x, room) for x in size[2:]]
        return True if True in rs else (None if None in rs else False)
    n, off = room
    a, b, c = linear(size), linear(n), linear(off)
    if c[0] is not None:
        return None
    have = (b[0], b[1] - c[1])
    if a[0] == have[0]:
        return a[1] <= have[1]
    if any(x[0] is not None and mentions(x[0], lambda y: y and y[0] in ('sym', 'havoc')) for x in (a, have)):
        return None
    return False


def arith(o, x, y):
    f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '<': lambda x, y: int(x < y), '<=': lambda x, y: int(x <= y),
         '>': lambda x, y: int(x > y), '>=': lambda x, y: int(x >= y), '==': lambda x, y: int(x == y), '!=': lambda x, y: int(x != y)}.get(o)
    return f(x, y) if f else None


def ev(t, env):
    """value of a term for given values of its unknowns, None if it depends on something else"""
    if t in env:
        return env[t]
    if t[0] == 'i':
        return t[1]
    if t[0] in ('nz',):
        x = ev(t[1], env)
        return None if x is None else int(x != 0)
    if t[0] in ('<', '=='):
        t = ('op',) + t
    if t[0] == 'op':
        a = [ev(x, env) for x in t[2:]]
        if any(x is None for x in a):
            return None
        o = t[1]
        if len(a) == 1:
            if o == 'tou':
                return a[0] % (1 << 64)
            if o.startswith('trunc'):
                b = int(o[5:-1])
                x = a[0] % (1 << b)
                return x - (1 << b) if o.endswith('s') and x >= 1 << (b - 1) else x
            return {'!': int(not a[0]), '-': -a[0], 'b': int(a[0] != 0)}.get(o)
        if len(a) == 2:
            if o in ('min', 'std::min'): return min(a)
            if o in ('max', 'std::max'): return max(a)
            if o in ('/', '%'):
                return None if a[1] == 0 else (a[0] // a[1] if o == '/' else a[0] % a[1])
            return arith(o, *a)
    return None


def format_function(ck):
    p = ck.prog()
    f = p.fn('LogCapture::capturef')
    return f


def stream_path(p):
    s = [path for path, t in all_fields(p, 'LogCapture') if 'ostringstream' in t or 'basic_stringstream' in t]
    if len(s) != 1:
        raise AnalysisError('anchor vanished: the stream of LogCapture')
    return s[0]


def parts_of(v, first):
    """pieces appended to the stream"""
    if v == first:
        return []
    out = list(v[1:]) if v[0] == 'cat' else [v]
    if out and out[0] == first:
        out = out[1:]
    return out


def is_vsn(t):
    return bool(t) and t[0] == 'vsn'


def shape(part):
    """('all', None) for the whole C string, ('prefix', n) for n characters, 'const', 'format', 'other'"""
    if part[0] == 's':
        return ('const', part[1])
    if mentions(part, is_vsn):
        if part[0] == 'op' and part[1] == 'prefix' and len(part) == 4:
            return ('prefix', part[3])
        if part[0] == 'op' and part[1] == 'substr' and part[3] == ('i', 0):
            return ('prefix', part[4])
        if part[0] in ('text', 'vsn'):
            return ('all', None)
        return ('other', part)
    if mentions(part, lambda y: y == A(FORMAT)):
        return ('format', part)
    return ('other', part)


def check_printf(ck):
    p = ck.prog()
    f = format_function(ck)
    inst = 'formatting of a message [%s]' % ck.cfg
    for r in ('bounded', 'complete', 'truncation', 'failure', 'limit'):
        ck.ob(r, inst, where_fn(f))
    I = interp(p, None, ignore_sign=False)
    st = I.new_state()
    I.mark_private(st, THIS)
    I.ltype[THIS] = p.rec_by_name['LogCapture'][0]
    args = [Arg(val=A(FORMAT), t=q['t']) for q in f['params']]
    sl = at(THIS, stream_path(p))
    first = TEXT
    st.store[sl] = TEXT
    n_fmt = 0
    setters = size_setters(p)
    for st, _ in live(ck.clean(I, I.run_fn(f, this=THIS, st=st, args=args), 'complete', inst)):
        es = st.events('vsnprintf')
        if st.comp is not None:
            ck.bad('complete', inst, endsite(st, f), 'a printf style message is not logged (%s)' % (st.comp,), st)
            continue
        if not es:
            fin = parts_of(st.store.get(sl) or first, first)
            ck.bad('complete', inst, endsite(st, f), 'a path logs nothing that was formatted', st)
            continue
        n_fmt += 1
        for e in es:
            if not (e.fmt == ('cs', A(FORMAT)) or mentions(e.fmt, lambda y: y == A(FORMAT))):
                ck.bad('complete', inst, e, 'the text is not formatted by the format of the statement', st)
            if e.name.split('::')[-1] in ('vsprintf', 'sprintf'):
                ck.bad('bounded', inst, e, 'the formatted text is written without a limit', st)
                continue
            if e.buf[0] == 'null':
                if e.size is not None and I.known(st, e.size) is not False:
                    ck.bad('bounded', inst, e, 'the formatted text is written to a null pointer', st)
                continue
            if e.room is None:
                ck.undecided('bounded', inst, 'room of %s' % show(e.buf))
                continue
            ok = fits(e.size, e.room)
            if ok is None:
                ck.undecided('bounded', inst, 'size %s, room %s' % (show(e.size), show(e.room[0])))
            elif not ok:
                ck.bad('bounded', inst, e, 'up to %s characters are written into a buffer of %s' % (show(strip_casts(e.size)), show(strip_casts(e.room[0]))), st)
        for u in st.events('va_use'):
            if u.state is not None and u.state[1] in ('ended', 'used', 'never set up'):
                ck.bad('complete', inst, u, 'the arguments of the statement are %s' % {'ended': 'used after va_end', 'used': 'used a second time without a copy', 'never set up': 'used without va_start'}[u.state[1]], st)
        e = es[-1]
        P = ('sym', 'printed', e.n_)
        size = strip_casts(e.size)
        if setters:
            if not mentions(size, lambda y: y and y[0] == 'ld' and y[1] in setters):
                ck.bad('limit', inst, e, 'the maximum size in force is %s, not the one configured' % show(size), st)
        base, const = linear(size)
        if base is None:
            sizes = [const]
        elif base[0] == 'ld':
            sizes = [0, 1, 2, 17, 2048, 100000]
        else:
            ck.undecided('truncation', inst, 'size %s' % show(size))
            continue
        facts = [(t, b) for t, b in path_facts(I, st).items() if mentions(t, lambda y: y == P or (base is not None and y == base))]
        cont = st.store.get(sl) or first
        if not mentions(cont, lambda y: y == first):
            ck.bad('complete', inst, endsite(st, f), 'text streamed before is lost', st)
        parts = parts_of(cont, first)
        shapes = [shape(x) for x in parts]
        for s0 in sizes:
            for n in (-INT_MAX - 1, -2, -1, 0, 1, 2, s0 - 2, s0 - 1, s0, s0 + 1, s0 + 2, 2 * s0 + 7, INT_MAX):
                if base is not None and s0 + const < 0:
                    continue
                S = s0 + (const if base is not None else 0)
                env = {P: n}
                if base is not None:
                    env[base] = s0
                vals = [(ev(t, env), b) for t, b in facts]
                if any(v is not None and bool(v) != b for v, b in vals):
                    continue
                if any(v is None for v, b in vals):
                    ck.undecided('truncation', inst, 'condition on the number of characters not understood')
                    continue
                judge(ck, inst, f, st, e, shapes, n, S, env, base)
    ck.need(n_fmt, 'formatting paths')


def judge(ck, inst, f, st, e, shapes, n, S, env, base):
    txt = 'a text of %d characters, limit %d' % (n, S)
    other = [x for x in shapes if x[0] == 'other']
    content = [x for x in shapes if x[0] in ('all', 'prefix')]
    consts = [x for x in shapes if x[0] == 'const' and x[1]]
    if other:
        ck.undecided('complete', inst, 'logged text %s' % show(other[0][1])[:80])
        return
    site = endsite(st, f)
    if n < 0:
        if content:
            ck.bad('failure', inst, site, 'a failure of formatting goes unnoticed: what the buffer holds is logged', st)
        elif not any(x[0] == 'format' for x in shapes):
            ck.bad('failure', inst, site, 'the notice of a failed formatting does not contain the format', st)
        elif not any(re.search('[A-Za-z]{3}', str(x[1])) for x in consts):
            ck.bad('failure', inst, site, 'a failure of formatting is not flagged', st)
        return
    rule = 'complete' if n < S else 'truncation'
    if any(x[0] == 'format' for x in shapes):
        ck.bad(rule, inst, site, '%s: reported as a failure of formatting' % txt, st)
        return
    if n < S:
        if len(content) != 1:
            if not (n == 0 and not content):
                ck.bad(rule, inst, site, '%s: logged %d times' % (txt, len(content)), st)
        if consts:
            ck.bad(rule, inst, site, '%s: fits, but is logged with %r added' % (txt, ''.join(x[1] for x in consts)[:40]), st)
    else:
        if len(content) != 1 and S > 1:
            ck.bad(rule, inst, site, '%s: the part that fits is logged %d times' % (txt, len(content)), st)
        if not consts or shapes[-1][0] != 'const' or not shapes[-1][1].strip():
            ck.bad(rule, inst, site, '%s: cut off without a truncation marker' % txt, st)
    want = n if n < S else max(S - 1, 0)
    for c in content:
        if c[0] == 'all':
            ck.bad(rule, inst, site, 'a formatted text is cut at its first NUL character without notice', st)
            continue
        k = ev(c[1], env)
        if k is None:
            ck.undecided(rule, inst, 'length logged: %s' % show(c[1]))
        elif k != want:
            ck.bad(rule, inst, site, '%s: %d characters are logged, %d were formatted' % (txt, k, want), st)


def size_setters(p):
    """globals that hold the configured maximum size"""
    fs = p.fns('g3::only_change_at_initialization::setMaxMessageSize')
    out = []
    for f in fs:
        if not f.get('body'):
            continue
        I = interp(p, None)
        for st, _ in live(I.run_fn(f)):
            out += [e.loc for e in st.events('wr', 'awrite', 'astore') if root(e.loc)[0] == 'G' and e.loc not in out]
            out += [k for k in st.store if root(k)[0] == 'G' and k not in out and not st.store[k][0] == 'ld']
    return out


def check_setter(ck):
    p = ck.prog()
    fs = [f for f in p.fns('g3::only_change_at_initialization::setMaxMessageSize') if f.get('body')]
    if not fs:
        if ck.cfg == 'dynsize':
            raise AnalysisError('anchor vanished: setMaxMessageSize')
        return
    f = fs[0]
    inst = 'setMaxMessageSize [%s]' % ck.cfg
    ck.ob('limit', inst, where_fn(f))
    I = interp(p, None)
    M = A('max_size')
    locs = size_setters(p)
    ck.need(len(locs), 'the configured maximum size')
    for st, _ in live(ck.clean(I, I.run_fn(f, args=[Arg(val=M, t=q['t']) for q in f['params']]), 'limit', inst)):
        if st.comp is not None:
            ck.bad('limit', inst, endsite(st, f), 'setting the maximum size fails (%s)' % (st.comp,), st)
            continue
        vs = [st.store.get(l) for l in locs]
        vs = [v for v in vs if v is not None and mentions(v, lambda y: y == M)]
        if not vs:
            if any(mentions(t, lambda y: y == M) for t in path_facts(I, st)):
                continue                                # limited on purpose
            ck.bad('limit', inst, endsite(st, f), 'the maximum size given is not stored', st)
            continue
        for v in vs:
            for m in (1, 2, 17, 2048, 100000, INT_MAX, 3000000000, 1 << 40):
                if any((x := ev(t, {M: m})) is not None and bool(x) != b for t, b in path_facts(I, st).items()):
                    continue
                x = ev(v, {M: m})
                if x is None:
                    ck.undecided('limit', inst, 'stored: %s' % show(v))
                elif x != m and not (m > INT_MAX and INT_MAX <= x <= m):
                    ck.bad('limit', inst, endsite(st, f), 'a maximum size of %d is stored as %d' % (m, x), st)


def check_macro_text(ck):
    """format and arguments of the statement reach the entry"""
    p = ck.prog()
    for fn, fm in (('log_printf', '%s %d'), ('log_printf_if', '%s %d'), ('check_printf', '%s %d'), ('check_printf2', '%s %d')):
        inst = '%s [%s]' % (fn, ck.cfg)
        f = p.fn('probe::' + fn)
        ck.ob('complete', inst, where_fn(f))
        I, f, res = mc.macro_run(ck, fn, None if 'check' in fn else False, 'check' in fn)
        n = 0
        for st, _ in ck.clean(I, res, 'complete', inst):
            ps = posts(I, st)
            if len(ps) != 1:
                continue
            n += 1
            ms = [v for k, v in ps[0].st.store.items() if root(k)[0] == 'H' and k[0] == 'F' and k[2] == '_message']
            ms = [v for v in ms if v[0] not in ('moved',)]
            vs = st.events('vsnprintf')
            if not vs:
                ck.bad('complete', inst, ps[0], 'the message of a printf style statement is not formatted', st)
                continue
            if vs[0].fmt != ('s', fm):
                ck.bad('complete', inst, vs[0], 'the format of the statement is %s, formatted is %s' % (fm, show(vs[0].fmt)), st)
        ck.need(n, 'entries of %s' % fn)


def c18(ck):
    for cfg in ['default', 'dynsize'] + (['nosignals', 'fullname', 'dynlevels'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_printf(ck)
        check_setter(ck)
        check_macro_text(ck)
    ck.cfg = 'default'
