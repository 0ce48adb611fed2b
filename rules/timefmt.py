"""C25: formatting of time."""
import itertools
import math
import struct
from rules.common import *
from rules import printf as pf

TS = ('A', 'instant')
INSTANT = ('ld', TS, 0)
FMT = ('A', 'time_format')
TOSTR = 'g3::internal::to_string'
ENTRY = 'g3::localtime_formatted'
WIDTH = {0: 3, 1: 6, 2: 9, 3: 9}
TOKEN = {'3': 3, '6': 6, '9': 9}
NAMES = {0: 'milliseconds', 1: 'microseconds', 2: 'nanoseconds', 3: 'unspecified'}
NS = 10 ** 9
# library functions that keep their result in a shared buffer, or are not required to be thread safe
SHARED = {'localtime', 'gmtime', 'ctime', 'asctime', 'strtok', 'tmpnam', 'setlocale', 'tzset', 'setenv', 'putenv', 'unsetenv', '__builtin_alloca'}


def check_reentrant(ck, rule='re-entrant'):
    """no function of the library converts a time through a buffer shared by all threads"""
    p = ck.prog()
    inst = 'all calls [%s]' % ck.cfg
    ck.ob(rule, inst)
    n = 0
    for k, f in p.functions.items():
        if f.get('file', '').startswith('probe') or f.get('body') is None:
            continue
        for x in walk([f.get('body')] + [i.get('e') for i in f.get('inits', [])]):
            if x.get('fn') and x['fn'] not in p.functions:
                nm = strip(x.get('n') or '')
                n += 1
                base = nm[5:] if nm.startswith('std::') else nm
                if base in SHARED:
                    ck.bad(rule, inst, '%s:%s (%s)' % (f.get('file'), x.get('l'), f['n']), '%s() works on storage shared by all threads' % base)
    ck.need(n, 'calls of library functions', 100)


# ------------------------------------------------------------------ digits
class Error(Exception):
    pass


def away(x):
    return math.floor(x + 0.5) if x >= 0 else -math.floor(0.5 - x)


MATH = {'std::floor': lambda x: float(math.floor(x)), 'std::ceil': lambda x: float(math.ceil(x)), 'std::trunc': lambda x: float(int(x)),
        'std::round': lambda x: float(away(x)), 'std::lround': away, 'std::llround': away, 'std::rint': lambda x: float(round(x)), 'std::nearbyint': lambda x: float(round(x)),
        'std::lrint': round, 'std::llrint': round}
MATH.update({k[5:]: v for k, v in list(MATH.items()) if k not in ('std::floor', 'std::ceil', 'std::round')})


def dec(t):
    m = re.match(r'std::ratio<(\d+), (\d+)>', t[1])
    return (int(m.group(1)), int(m.group(2))) if m else None


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def printed(t, env):
    """text of a printf format with its arguments"""
    if t[0] != 'vsn' or t[1][0] != 's':
        return None
    size, xs = value(t[2], env), [value(x, env) for x in t[4:]]
    f = re.sub(r'(%[-0 +#]*[\d*]*(?:\.[\d*]+)?)(?:hh|h|ll|l|j|z|t)?([dius%])', lambda m: m.group(1) + m.group(2).replace('i', 'd').replace('u', 'd'), t[1][1])
    if size is None or any(x is None for x in xs):
        return None
    try:
        return (f % tuple(xs))[:max(0, size - 1)]
    except (TypeError, ValueError):
        return None


def value(t, env):
    """value of a term where each unknown has the given value; None if it depends on anything else"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'i':
        return t[1]
    if k == 's':
        return t[1]
    if k == 'f':
        return float(t[1])
    if k == 'zero':
        return 0
    if k == 'nz':
        x = value(t[1], env)
        return None if x is None else int(x != 0)
    if k == 'cat':
        xs = [value(x, env) for x in t[1:]]
        return None if any(not isinstance(x, str) for x in xs) else ''.join(xs)
    if k == 'fmt':
        x = value(t[1], env)
        return None if x is None else str(x)
    if k == 'size':
        x = value(t[1], env)
        return len(x) if isinstance(x, str) else None
    if k == 'empty':
        x = value(t[1], env)
        return int(len(x) == 0) if isinstance(x, str) else None
    if k in ('text', 'vsn'):
        return printed(t[1] if k == 'text' else t, env)
    if k in ('<', '=='):
        t = ('op',) + t
    if t[0] != 'op':
        return None
    o, a = t[1], t[2:]
    if o in ('duration_cast', 'time_point_cast', 'cast', 'floor', 'ceil', 'round'):
        x = value(a[0], env)
        if x is None or len(a) < 3 or not dec(a[1]) or not dec(a[2]):
            return None
        (tn, td), (fn, fd) = dec(a[1]), dec(a[2])
        num, den = x * fn * td, fd * tn
        if o == 'floor':
            return num // den
        if o == 'ceil':
            return -(-num // den)
        if o == 'round':
            return None
        return trunc_div(num, den)
    if o == 'to_time_t':
        return None
    xs = [value(x, env) for x in a]
    if any(x is None for x in xs):
        return None
    if o == 'repeat':
        if xs[0] < 0 or xs[0] > 10 ** 6:
            raise Error('a text of length %d' % (xs[0] % 2 ** 64))
        return chr(xs[1]) * xs[0]
    if o == 'pad':
        return chr(xs[2]) * max(0, xs[1] - len(xs[0])) + xs[0]
    if o == 'substr':
        s, p, n = xs
        if p > len(s):
            raise Error('substr past the end')
        return s[p:] if n >= 2 ** 62 else s[p:p + n]
    if o == 'prefix':
        return xs[0][:xs[1]]
    if o in ('splice', 'insert', 'erase'):
        s = xs[0]
        if xs[1] > len(s):
            raise Error('position past the end')
        if o == 'insert':
            return s[:xs[1]] + xs[2] + s[xs[1]:]
        return s[:xs[1]] + (xs[3] if o == 'splice' else '') + s[xs[1] + xs[2]:]
    if o == 'cstr':
        return xs[0].split('\0')[0]
    if o == 'resize' and len(xs) == 2:
        return xs[0][:xs[1]].ljust(xs[1], '\0')
    if o == 'abs':
        return abs(xs[0])
    if o == 'neg':
        return -xs[0]
    if any(isinstance(x, str) for x in xs):
        return None
    if o in ('IntegralToFloating', 'FloatingCast'):
        return float(xs[0])
    if o in ('IntegralToFloating32', 'FloatingCast32'):
        return struct.unpack('f', struct.pack('f', xs[0]))[0]
    if o == 'FloatingToIntegral':
        return int(xs[0])
    if o in MATH and len(xs) == 1:
        return MATH[o](xs[0])
    if any(isinstance(x, float) for x in xs):
        if o == 'pow':
            return xs[0] ** xs[1]
        if o == '/' and len(xs) == 2:
            return xs[0] / xs[1] if xs[1] else None
        if o in ('+', '-', '*', '<', '<=', '>', '>=', '==', '!=') and len(xs) == 2:
            return pf.arith(o, *xs)
        return None
    if o in ('/', '%') and len(xs) == 2:
        if xs[1] == 0:
            raise Error('division by 0')
        q = trunc_div(xs[0], xs[1])
        return q if o == '/' else xs[0] - q * xs[1]
    return pf.ev(('op', o) + tuple(('i', int(x)) for x in xs), {})


def instants():
    """every place where the digits of a fraction change their number, for times before and after the epoch"""
    fr = {0, 1, NS - 1, 123456789, 100200300}
    for k in range(10):
        fr |= {10 ** k - 1, 10 ** k % NS, (10 ** k + 1) % NS, (NS - 10 ** k) % NS, (9 * 10 ** k) % NS}
    secs = (0, 1, -1, -2, 1493274147, -86400 * 365, 9223372035, -9223372036)
    return [s * NS + f for s in secs for f in sorted(fr)]


def shared_writes(ck, rule, inst, s):
    for e in s.events('wr'):
        if root(e.loc)[0] == 'G' and e.loc[0] != '#init' and not e.locks:
            ck.bad(rule, inst, e, 'formatting a time changes %s, which all threads share' % show(e.loc), s)


def check_digits(ck, rule='digits'):
    p = ck.prog()
    f = p.fn(TOSTR)
    for v, w in WIDTH.items():
        inst = '%s [%s]' % (NAMES[v], ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = interp(p, hooks(p, text=False))
        st = I.new_state()
        I.mark_private(st, TS)
        I.ltype[TS] = I.nocv(p.unref(f['params'][0]['t']))
        res = live(ck.clean(I, I.run_fn(f, st=st, args=[Arg(loc=TS, t=I.ltype[TS]), Arg(val=('i', v), t=f['params'][1]['t'])]), rule, inst))
        outs = []
        for s, r in res:
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'formatting a fraction does not return (%s)' % (s.comp,), s)
                continue
            if isinstance(r, tuple) and r and r[0] in ('A', 'F', 'L', 'T', 'H'):
                r = I._read(s, r)
            outs.append((s, r, path_facts(I, s)))
            shared_writes(ck, rule, inst, s)
        n = 0
        for x in instants():
            env = {INSTANT: x}
            ns = x % NS
            want = str(ns).zfill(9)[:w]
            for s, r, facts in outs:
                try:
                    hold = [(value(t, env), b) for t, b in facts.items()]
                    if any(h is not None and bool(h) != b for h, b in hold):
                        continue
                    got = value(r, env)
                except Error as e:
                    ck.bad(rule, inst, where_fn(f), 'the fraction of the time %d ns after the epoch: %s' % (x, e), s)
                    continue
                if got is None or any(h is None for h, _ in hold) and got != want:
                    ck.undecided(rule, inst, 'value of %s' % show(r)[:150])
                    continue
                n += 1
                if got != want:
                    ck.bad(rule, inst, where_fn(f), 'the fraction of the time %d ns after the epoch is given as "%s" instead of "%s"' % (x, got, want), s)
        if not outs:
            ck.undecided(rule, inst, 'no complete path')


# ------------------------------------------------------------------ tokens
def fraction_hook(I, st, c):
    """the text of a fraction (decided by the rule about digits)"""
    k = I.aval(st, c.args[1])
    I.emit(st, 'fraction', c.node, c.fr, kind=k)
    v = ('s', '0' * WIDTH[k[1]]) if k[0] == 'i' and k[1] in WIDTH else ('op', 'fraction', k)
    return ret_text(st, c, v)


def ret_text(st, c, v):
    if c.dest is not None:
        st.store[c.dest] = v
        return [(st, c.dest)]
    return [(st, v)]


def reference(fm):
    out, i = '', 0
    while i < len(fm):
        if fm.startswith('%f', i):
            d = fm[i + 2:i + 3]
            out += '0' * TOKEN.get(d, 9)
            i += 3 if d in TOKEN else 2
        else:
            out += fm[i]
            i += 1
    return out


ALPHABET = ['%f', '%f3', '%f6', '%f9', '3', 'x', '%H', 'f']


def formats(deep):
    for n in range(0, 5 if deep else 4):
        for t in itertools.product(ALPHABET, repeat=n):
            yield ''.join(t)
    yield '%Y/%m/%d %H:%M:%S %f6'
    for t in ('%f', '%f3', '%f6', '%f9'):
        yield ' '.join([t] * 7) + '|' + t
        yield t * 9


def run_format(p, fmt, ck=None, **opt):
    f = p.fn(ENTRY)
    I = interp(p, {**hooks(p, text=False), TOSTR: fraction_hook}, **opt)
    st = I.new_state()
    for l, q in ((TS, f['params'][0]), (FMT, f['params'][1])):
        I.mark_private(st, l)
        I.ltype[l] = I.nocv(p.unref(q['t']))
    if fmt is not None:
        st.store[FMT] = ('s', fmt)
    return I, f, I.run_fn(f, st=st, args=[Arg(loc=TS, t=I.ltype[TS]), Arg(loc=FMT, t=I.ltype[FMT])])


def check_tokens(ck, rule='tokens'):
    p = ck.prog()
    p.fn(TOSTR)
    inst = 'formats built of %d pieces [%s]' % (4 if ck.tier == 'thorough' else 3, ck.cfg)
    ck.ob(rule, inst, where_fn(p.fn(ENTRY)))
    n = 0
    seen = set()
    for fm in formats(ck.tier == 'thorough'):
        if fm in seen:
            continue
        seen.add(fm)
        I, f, res = run_format(p, fm, unroll=14, max_s=20)
        want = reference(fm)
        for s, r in live(ck.clean(I, res, rule, inst)):
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'formatting with "%s" does not return (%s)' % (fm, s.comp), s)
                continue
            fs = s.events('strftime')
            got = [e.fmt for e in fs] or ([I._read(s, r)] if isinstance(r, tuple) and r[0] in ('A', 'L', 'T') else [])
            for g in got:
                if g[0] == 'text' and g[1][0] == 'tmfmt':
                    g = g[1][1]
                if g[0] != 's':
                    ck.undecided(rule, inst, 'format "%s" becomes %s' % (fm, show(g)[:100]))
                    continue
                n += 1
                if g[1] != want:
                    ck.bad(rule, inst, fs[0] if fs else where_fn(f), 'the format "%s" becomes "%s" instead of "%s"' % (fm, g[1], want), s)
        if len(ck.viol) > 20:
            break
    ck.need(n or len(ck.viol) or any(o['status'] == 'undecided' for o in ck.obs.values()), 'formats')
    # an arbitrary format: what is replaced is a token, found from where the last one ended
    inst = 'arbitrary format [%s]' % ck.cfg
    I, f, res = run_format(p, None)
    ck.ob(rule, inst, where_fn(f))
    n = 0
    for s, r in live(ck.clean(I, res, rule, inst)):
        for e in s.events('strftime')[:1]:
            t = e.fmt
            t = t[2] if t[0] == 'op' and t[1] == 'cstr' else t
            chain = []
            while t[0] == 'op' and t[1] == 'splice':
                chain.append(t)
                t = t[2]
            if t != ('ld', FMT, 0):
                continue
            n += 1
            facts = path_facts(I, s)
            last = None
            for q in reversed(chain):
                x, pos, ln, new = q[2:]
                if not (pos[0] == 'op' and pos[1] == 'find' and pos[2] == x and pos[3] == ('s', '%f')) or new[0] != 's' or ln[0] != 'i':
                    continue
                frm = pos[4] if len(pos) > 4 else ('i', 0)
                ch = ('op', 'at', x, I.arith('+', pos, ('i', 2)))
                digit = [d for d in TOKEN if facts.get(I.eqatom(ch, ('i', ord(d))), facts.get(('==', ('i', ord(d)), ch))) is True]
                want = (3, TOKEN[digit[0]]) if digit else (2, 9)
                if (ln[1], len(new[1])) != want:
                    ck.bad(rule, inst, e, 'a token %%f%s is replaced as %d characters by %d digits' % (digit[0] if digit else '', ln[1], len(new[1])), s)
                if last is None:
                    if frm != ('i', 0):
                        ck.bad(rule, inst, e, 'the search for tokens does not begin at the start of the format', s)
                else:
                    a, b = pf.linear(frm), pf.linear(last[0])
                    if a[0] == b[0] and not 0 <= a[1] - b[1] <= last[1]:
                        ck.bad(rule, inst, e, 'after a token was replaced the search continues %d characters after its start' % (a[1] - b[1]), s)
                last = (pos, len(new[1]))
    ck.need(n or len(ck.viol), 'paths for an arbitrary format')


# ------------------------------------------------------------------ buffers and instants
def kept_from_first(p, I, s, t):
    """a static local initialized from the arguments of an earlier call, when this one uses it"""
    made = set()
    for a in path_facts(I, s):
        mentions(a, lambda y: y and y[0] == 'sinit' and made.add(y[1]) or False)
    found = set()
    mentions(t, lambda y: y and y[0] == 'ld' and root(y[1]) in made and found.add(root(y[1])) or False)
    return ', '.join(sorted(p.globals.get(g[1], {}).get('n', 'a static') for g in found))


def check_bounded(ck, rule='bounded'):
    p = ck.prog()
    inst = 'formatting a time [%s]' % ck.cfg
    I, f, res = run_format(p, None)
    for r in (rule, 'rejected format', 'local time', 'confined'):
        ck.ob(r, inst, where_fn(f))
    n = 0
    for s, r in live(ck.clean(I, res, rule, inst)):
        if s.comp is not None:
            continue
        r = I._read(s, r) if isinstance(r, tuple) and r[0] in ('A', 'L', 'T', 'H') else r
        fs = s.events('strftime')
        for e in fs:
            n += 1
            room = e.get('room')
            ok = pf.fits(e.size, room) if room else None
            if ok is None:
                ck.undecided(rule, inst, 'room in %s for %s' % (show(e.buf), show(e.size)))
            elif not ok:
                ck.bad(rule, inst, e, 'up to %s characters are written to a buffer of %s' % (show(e.size), show(room[0])), s)
            late = kept_from_first(p, I, s, e.fmt) or kept_from_first(p, I, s, e.tm)
            if late:
                ck.bad('confined', inst, e, 'the text is formatted with %s, which keeps what the first call of the process was given' % late, s)
            if root(e.buf)[0] == 'G':
                ck.bad('confined', inst, e, 'the text is formatted in a buffer shared by all threads', s)
            tm = e.tm
            if tm[0] == 'op' and tm[1] in ('gmtime_r', 'gmtime'):
                ck.bad('local time', inst, e, 'the time is not converted to local time', s)
            elif tm[0] == 'op' and tm[1] in ('localtime_r', 'localtime'):
                check_instant(ck, inst, e, tm[2], s)
            else:
                ck.undecided('local time', inst, show(tm)[:100])
        shared_writes(ck, 'confined', inst, s)
        if not fs:
            continue
        last = fs[-1]
        facts = path_facts(I, s)
        fails, works = [any(consistent(facts, {last.res: x}) for x in xs) for xs in ((0,), (1, 2, 512, 1022, 1023))]
        uses = mentions(r, lambda y: isinstance(y, tuple) and y and y[0] == 'tmfmt')
        plain = r == last.fmt or r == ('op', 'cstr', last.fmt) or last.fmt[0] == 'op' and r == last.fmt[2]
        if uses and fails:
            ck.bad('rejected format', inst, last, 'the buffer is used although the conversion may have failed', s)
        elif fails and not plain:
            (ck.undecided('rejected format', inst, show(r)[:100]) if mentions(r, lambda y: y and y[0] in ('sym', 'havoc')) else
             ck.bad('rejected format', inst, last, 'a format that is rejected is not returned as text but as %s' % show(r)[:80], s))
        elif works and plain:
            ck.bad('rejected format', inst, last, 'the format is returned although the conversion succeeded', s)
        elif uses and not whole_text(r, last):
            ck.undecided('rejected format', inst, show(r)[:100])
    ck.need(n or len(ck.viol), 'conversions of a time')


def consistent(facts, env):
    for t, b in facts.items():
        v = value(t, env)
        if v is not None and bool(v) != b:
            return False
    return True


def whole_text(r, e):
    w = ('text', ('tmfmt', e.fmt, e.tm))
    # the number returned is the length of the text
    return r == w or r[0] == 'op' and r[1] in ('prefix', 'resize') and r[2] in (w, w[1]) and r[3] == e.res


def check_instant(ck, inst, e, t, st):
    """the seconds printed belong to the fraction printed"""
    if not (t[0] == 'op' and t[1] == 'to_time_t'):
        ck.undecided('local time', inst, show(t)[:120])
        return
    x = t[2]
    # to_time_t truncates a time point to seconds
    for n in instants():
        v = value(x, {INSTANT: n})
        if v is None:
            ck.undecided('local time', inst, show(x)[:120])
            return
        unit = unit_of(x)
        if unit is None:
            ck.undecided('local time', inst, 'unit of %s' % show(x)[:120])
            return
        sec = trunc_div(v * unit[0], unit[1])
        if sec != n // NS:
            ck.bad('local time', inst, e, 'for the time %d ns after the epoch the seconds printed are those of %d' % (n, sec), st)
            return


def unit_of(t):
    if t == INSTANT:
        return (1, NS)
    if t[0] == 'op' and t[1] in ('floor', 'cast', 'duration_cast', 'time_point_cast', 'ceil', 'round') and len(t) > 3:
        return dec(t[3])
    if t[0] == 'op' and t[1] in ('+', '-'):
        return unit_of(t[2]) or unit_of(t[3])
    return None


def c25(ck):
    for cfg in ['default'] + (['dynlevels', 'fullname', 'nosignals', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_reentrant(ck)
        check_digits(ck)
        if cfg == 'default':
            check_tokens(ck)
        check_bounded(ck)
    ck.cfg = 'default'
