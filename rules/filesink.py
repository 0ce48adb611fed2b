"""C06, C21, C22: the file sink."""
from rules.common import *

REC = 'g3::FileSink'
SINK = ('A', 'sink')
CURRENT = ('./', '.\\')


def fs_hooks(p, **more):
    return hooks(p, **{'g3::LogMessage::toString': text_hook, **more})


def fs_interp(p, h=None, **opt):
    opt.setdefault('max_s', 60)
    return Interp(p, fs_hooks(p) if h is None else h, **opt)


class Fields:
    """the parts of a file sink, recognised by their types and by the methods that use them"""

    def __init__(self, p):
        self.p = p
        fl = all_fields(p, REC)
        if not fl:
            raise AnalysisError('anchor vanished: %s' % REC)
        self.all = [path for path, _ in fl]
        s = [(path, t) for path, t in fl if 'ofstream' in t]
        if len(s) != 1:
            raise AnalysisError('anchor vanished: the stream of %s' % REC)
        self.stream, self.streamt = s[0]
        self.owned = p.recname(p.rec(self.streamt) or '') != 'std::basic_ofstream' and 'ptr' in self.streamt or self.streamt.rstrip().endswith('*')
        self.name = self.returned('fileName')
        self.header = self.written('overrideLogHeader')
        self.details = self.written('overrideLogDetails')

    def returned(self, m):
        f = self.p.fn('%s::%s' % (REC, m))
        I = fs_interp(self.p)
        st = self.state(I)
        for s, v in I.run_fn(f, st=st, this=SINK):
            x = s.store.get(v) if v and v[0] != 'ld' else v
            if x and x[0] == 'ld' and is_prefix(SINK, x[1]):
                return path_of(x[1])
        return None

    def written(self, m):
        f = self.p.fn('%s::%s' % (REC, m))
        I = fs_interp(self.p)
        out = set()
        for s, v in I.run_fn(f, st=self.state(I), this=SINK):
            for path in self.all:
                if I._read(s, at(SINK, path)) != ('ld', at(SINK, path), 0):
                    out.add(path)
        if not out:
            raise AnalysisError('anchor vanished: what %s::%s changes' % (REC, m))
        return sorted(out, key=len)[0]

    def state(self, I):
        """an arbitrary file sink in use"""
        st = I.new_state()
        I.ltype[SINK] = REC
        I.mark_private(st, SINK)
        if self.owned:
            I.assume(st, I._read(st, at(SINK, self.stream)), True)
        return st

    def target(self, I, st):
        """the stream a sink writes to"""
        l = at(SINK, self.stream)
        if not self.owned:
            return l
        v = I._read(st, l)
        if v[0] in ('null', 'moved'):
            return None
        return ptr_target(v)

    def get(self, I, st, path):
        return I._read(st, at(SINK, path))


def path_of(l):
    out = []
    while l != SINK:
        out.append(l[2])
        l = l[1]
    return tuple(reversed(out))


def is_entry(x):
    return isinstance(x, tuple) and len(x) > 3 and x[0] == 'op' and x[1] == 'text' and x[2] == ('s', 'g3::LogMessage::toString')


def pending_fields(ck, F_):
    """members that hold the text of entries not yet written"""
    p = ck.prog()
    f = p.fn(REC + '::fileWrite')
    I = fs_interp(p)
    out = set()
    for st, _ in live(I.run_fn(f, st=F_.state(I), this=SINK)):
        for path in F_.all:
            v = F_.get(I, st, path)
            if mentions(v, is_entry):
                out.add(path)
    return sorted(out)


def outs(I, st, target, ck=None):
    return [e for e in st.events('out') if e.stream == target]


def pieces(v):
    """what is written, piece by piece"""
    return parts(v) if isinstance(v, tuple) else []


def is_header(x, hl):
    return mentions(x, lambda y: y == hl or y == ('ld', hl, 0))


def account(ck, rule, inst, I, st, F_, pend, entries, f, what, streams=None):
    """everything pending and every new entry is written or still pending, once and in order"""
    F0 = [('ld', at(SINK, b), 0) for b in pend]
    seq = []
    for e in st.events('out', 'close'):
        if e.k == 'out' and is_file(I, e.stream, F_, st):
            for x in pieces(e.val):
                seq.append((x, e))
    for b in pend:
        v = F_.get(I, st, b)
        for x in pieces(v):
            seq.append((x, None))
    want = []
    for b, v0 in zip(pend, F0):
        if I.known(st, ('empty', v0)) is True or empty_before(st, I, v0):
            continue
        want.append(v0)
    toks = [(x, e) for x, e in seq if x in F0 or is_entry(x) or mentions(x, lambda y: y in F0 or is_entry(y))]
    odd = [x for x, e in toks if not (x in F0 or is_entry(x))]
    for x, e in toks:
        if x[0] == 'op' and x[1] == 'cstr' and mentions(x[2], lambda y: y in F0 or is_entry(y)):
            ck.bad(rule, inst, e if e is not None else endsite(st, f), '%s: the text of the entry is taken only up to its first NUL character' % what, st)
            return False
    if odd:
        ck.undecided(rule, inst, 'text written as %s' % show(odd[0])[:120])
        return False
    ok = True
    for v0 in F0:
        n = [e for x, e in toks if x == v0]
        if not n and v0 in want:
            ck.bad(rule, inst, endsite(st, f), '%s: entries waiting in the buffer are lost' % what, st)
            ok = False
        if len(n) > 1:
            ck.bad(rule, inst, [e for e in n if e is not None][-1] if any(n) else endsite(st, f), '%s: entries waiting in the buffer are written %d times' % (what, len(n)), st)
            ok = False
    es = [(x, e) for x, e in toks if is_entry(x)]
    if entries is not None:
        if len(es) < entries:
            ck.bad(rule, inst, endsite(st, f), '%s: the entry is neither written nor buffered' % what, st)
            ok = False
        elif len(es) > entries:
            ck.bad(rule, inst, endsite(st, f), '%s: the entry is written %d times' % (what, len(es)), st)
            ok = False
    kinds = [is_entry(x) for x, e in toks]
    if ok and kinds != sorted(kinds):
        ck.bad(rule, inst, endsite(st, f), '%s: a new entry is written ahead of those in the buffer' % what, st)
        ok = False
    return ok


def empty_before(st, I, v):
    return path_facts(I, st).get(('empty', v)) is True


def is_file(I, s, F_, st):
    """a log file of the sink: the stream in use, or one opened on this path"""
    if s is None or s[0] == 'G':
        return False
    l0 = at(SINK, F_.stream)
    if s == (l0 if not F_.owned else ('D', ('ld', l0, 0))) or s == F_.target(I, st):
        return True
    return any(e.stream == s for e in st.events('open'))


def check_streams(ck, rule, inst, I, st, f, what):
    """nothing is written to a stream that was closed"""
    closed = set()
    for e in st.events('out', 'close', 'open'):
        if e.k == 'close':
            closed.add(e.stream)
        elif e.k == 'open':
            closed.discard(e.stream)
        elif e.stream in closed:
            ck.bad(rule, inst, e, '%s: writes to a file that has been closed' % what, st)


def check_write(ck, rule='each entry once'):
    p = ck.prog()
    F_ = Fields(p)
    pend = pending_fields(ck, F_)
    f = p.fn(REC + '::fileWrite')
    inst = '%s::fileWrite [%s]' % (REC, ck.cfg)
    ck.ob(rule, inst, where_fn(f))
    I = fs_interp(p, snap=['textfn'])
    st0 = F_.state(I)
    n = 0
    divisors = set()
    for st, _ in ck.clean(I, live(I.run_fn(f, st=st0, this=SINK)), rule, inst):
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'writing an entry does not end normally (%s)' % (st.comp,), st)
            continue
        n += 1
        account(ck, rule, inst, I, st, F_, pend, 1, f, 'fileWrite')
        check_streams(ck, rule, inst, I, st, f, 'fileWrite')
        for a in list(path_facts(I, st)):
            mentions(a, lambda y: (divisors.add(y[3]), False)[1] if isinstance(y, tuple) and len(y) == 4 and y[0] == 'op' and y[1] in ('%', '/') else False)
        for e in st.events('textfn'):
            if e.fn == 'g3::LogMessage::toString':
                m = message_text(p, I, e)
                if m is not None and not mentions(m, lambda y: y == ('A', f['params'][0]['n'])):
                    ck.bad(rule, inst, e, 'what is written is not the entry received (%s)' % show(m)[:80], st)
    ck.need(n or len(ck.viol), 'paths of %s' % f['sn'])
    # interval 1: nothing stays behind
    cnt = [d[1] for d in divisors if d[0] == 'ld' and is_prefix(SINK, d[1])]
    inst = 'interval [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    c = ctor(p)
    I = fs_interp(p)
    st0 = I.new_state()
    I.ltype[SINK] = REC
    for st, _ in ck.clean(I, live(I.run_fn(c, st=st0, this=SINK)), rule, inst):
        if st.comp is None:
            for l in cnt:
                if I.known(st, ('op', '==', I._read(st, l), ('i', 0))) is not False:
                    ck.bad(rule, inst, endsite(st, c), '%s divides by %s, which may be 0' % (f['sn'], show(l)), st)
            for b in pend:
                if I.known(st, ('empty', F_.get(I, st, b))) is not True:
                    ck.bad(rule, inst, endsite(st, c), 'a new file sink starts with text in its buffer', st)
    inst = 'interval 1 [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    I = fs_interp(p)
    n = 0
    for st, _ in ck.clean(I, sink_states(p, I, F_, interval=1), rule, inst):
        if st.comp is not None:
            continue
        for s, _ in ck.clean(I, live(I.run_fn(f, st=restart(I, st), this=SINK)), rule, inst):
            n += 1
            for b in pend:
                v = F_.get(I, s, b)
                if I.known(s, ('empty', v)) is not True and mentions(v, is_entry):
                    ck.bad(rule, inst, endsite(s, f), 'with a batching interval of 1 an entry stays in the buffer', s)
    ck.need(n or len(ck.viol), 'states of a new file sink')


def message_text(p, I, e):
    """content of the message of the entry that is formatted at an event"""
    if e.st is None or not isinstance(e.obj, tuple):
        return None
    rec = 'g3::LogMessage'
    txt = [path for path, t in all_fields(p, rec) if path[-1] in ('_message',)]
    if not txt:
        return None
    return I._read(e.st, at(e.obj, txt[0]))


def ctor(p):
    fs = [f for f in p.fns(REC + '::FileSink') if f.get('body') is not None and len(f['params']) >= 3]
    if not fs:
        raise AnalysisError('anchor vanished: constructor of %s' % REC)
    return fs[0]


def sink_states(p, I, F_, interval=None):
    """states in which a file sink was just created"""
    c = ctor(p)
    st = I.new_state()
    I.ltype[SINK] = REC
    args = None
    if interval is not None:
        args = []
        for q in c['params']:
            k = p.ty(p.unref(q['t'])).get('k')
            if k == 'int':
                args.append(Arg(val=('i', interval), t=q['t']))
            else:
                l = ('A', q['n'])
                I.ltype[l] = p.unref(q['t'])
                args.append(Arg(loc=l, t=q['t']))
    return live(I.run_fn(c, st=st, this=SINK, args=args) if args else I.run_fn(c, st=st, this=SINK))


def restart(I, st):
    s = st.fork()
    I.mark_private(s, SINK)
    return s


def check_header(ck, rule='header first'):
    """the header is the first thing written into a file, before any entry, and is written once"""
    p = ck.prog()
    F_ = Fields(p)
    pend = pending_fields(ck, F_)
    hl = at(SINK, F_.header)
    fw, cl = p.fn(REC + '::fileWrite'), p.fn(REC + '::changeLogFile')
    dt = [f for f in p.functions.values() if f.get('rec') == REC and f.get('kind') == 'dtor' and f.get('body') is not None]
    for name, seq in (('first entry of the first file', [fw]), ('first entry after a change of file', [cl, fw]), ('second file', [fw, cl, fw]), ('two entries', [fw, fw]),
                      ('buffered entries', [fw] + dt[:1])):
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(fw))
        I = fs_interp(p, max_s=100)
        sts = [s for s, _ in ck.clean(I, sink_states(p, I, F_, interval=100 if seq[-1] in dt else 1), rule, inst) if s.comp is None]
        # one per state: the way a name was built does not matter here
        sts = distinct(I, sts, F_)
        hv = {}
        for s in sts:
            hv[id(s)] = F_.get(I, s, F_.header)
        n = 0
        for s0 in sts:
            h = F_.get(I, s0, F_.header)
            cur = [restart(I, s0)]
            for f in seq:
                nxt = []
                for s in cur:
                    for s2, _ in ck.clean(I, live(I.run_fn(f, st=restart(I, s), this=SINK)), rule, inst):
                        if s2.comp is None:
                            nxt.append(s2)
                cur = distinct(I, nxt, F_)
            for s in cur:
                n += 1
                seen = set()
                for e in s.events('out', 'open'):
                    if e.k == 'open':
                        seen.discard(e.stream)
                        continue
                    if not is_file(I, e.stream, F_, s):
                        continue
                    for x in pieces(e.val):
                        if is_entry(x) or x[0] == 'ld' and any(x[1] == at(SINK, b) for b in pend):
                            if e.stream not in seen:
                                ck.bad(rule, inst, e, 'an entry is written to a file that has no header', s)
                        elif is_header(x, hl) or (h[0] == 's' and x[0] == 's' and h[1] and h[1] in x[1]):
                            if e.stream in seen:
                                ck.bad(rule, inst, e, 'the header is written into the file once more', s)
                            seen.add(e.stream)
        ck.need(n or len(ck.viol), 'paths: %s' % name)


def distinct(I, sts, F_):
    """one of several states that differ only in how strings were computed"""
    out = {}
    for s in sts:
        k = (tuple((path, show(F_.get(I, s, path)) if path not in (F_.name,) and path[-1] not in ('_log_prefix_backup',) else '') for path in F_.all if path != F_.stream),
             tuple((e.k, e.site[1]) for e in s.events('out', 'open', 'close') if e.stream[0] != 'G'))
        out.setdefault(k, s)
    return list(out.values())[:60]


def check_end(ck, rule='nothing left behind'):
    """a sink that is destroyed writes what it still holds"""
    p = ck.prog()
    F_ = Fields(p)
    pend = pending_fields(ck, F_)
    dt = [f for f in p.functions.values() if f.get('rec') == REC and f.get('kind') == 'dtor' and f.get('body') is not None]
    inst = '%s::~FileSink [%s]' % (REC, ck.cfg)
    ck.ob(rule, inst)
    if not dt:
        if pend:
            ck.never(rule, inst, '%s:%s (%s)' % (p.fn(REC + '::fileWrite')['file'], p.fn(REC + '::fileWrite')['line'], REC), 'entries still buffered are not written when the sink is destroyed')
        return
    f = dt[0]
    ck.ob(rule, inst, where_fn(f))
    I = fs_interp(p)
    n = 0
    for st, _ in ck.clean(I, live(I.run_fn(f, st=F_.state(I), this=SINK)), rule, inst):
        n += 1
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'destroying the sink does not end normally (%s)' % (st.comp,), st)
            continue
        # what is in the members dies with them
        F0 = [('ld', at(SINK, b), 0) for b in pend]
        outp = [(x, e) for e in st.events('out') if is_file(I, e.stream, F_, st) for x in pieces(e.val)]
        for b, v0 in zip(pend, F0):
            if empty_before(st, I, v0):
                continue
            k = [e for x, e in outp if x == v0]
            odd = [e for x, e in outp if x != v0 and mentions(x, lambda y: y == v0)]
            if len(k) > 1:
                ck.bad(rule, inst, k[1], 'buffered entries are written %d times when the sink is destroyed' % len(k), st)
            elif not k and odd:
                ck.undecided(rule, inst, 'buffer written as %s' % show(odd[0].val)[:100])
            elif not k:
                ck.bad(rule, inst, endsite(st, f), 'entries still buffered are not written when the sink is destroyed', st)
        check_streams(ck, rule, inst, I, st, f, '~FileSink')
    ck.need(n or len(ck.viol), 'paths of the destructor of the file sink')


def check_others(ck, rule='each entry once'):
    """no other operation of the sink loses, repeats or reorders what is buffered"""
    p = ck.prog()
    F_ = Fields(p)
    pend = pending_fields(ck, F_)
    n = 0
    for f in p.functions.values():
        if f.get('rec') != REC or f.get('body') is None or f.get('kind') in ('ctor', 'dtor') or f.get('static') or f['sn'].endswith('::fileWrite') or f.get('access') == 'private':
            continue
        if f['sn'].split('::')[-1] in ('operator=',):
            continue
        inst = '%s [%s]' % (f['sn'], ck.cfg)
        if any(callee == f['id'] for callee in ()):
            continue
        ck.ob(rule, inst, where_fn(f))
        I = fs_interp(p)
        n += 1
        for st, _ in ck.clean(I, live(I.run_fn(f, st=F_.state(I), this=SINK)), rule, inst):
            if st.comp is not None:
                continue
            account(ck, rule, inst, I, st, F_, pend, None, f, f['sn'].split('::')[-1])
            check_streams(ck, rule, inst, I, st, f, f['sn'].split('::')[-1])
    ck.need(n, 'other operations of the file sink', 3)


def each_cfg(ck):
    for cfg in ['default'] + (['nosignals', 'dynlevels', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        yield cfg
    ck.cfg = 'default'


def c06(ck):
    for _ in each_cfg(ck):
        check_write(ck)
        check_others(ck)
        check_header(ck)
        check_end(ck)


# ----------------------------------------------------------------- C21
APP, TRUNC, IN = 1, 32, 8


MODES = {'app': 1, 'ate': 2, 'binary': 4, 'in': 8, 'out': 16, 'trunc': 32}


def mode_value(m):
    if m[0] == 'ld' and m[1][0] == 'G' and str(m[1][1]).startswith('std::ios_base::'):
        v = MODES.get(m[1][1].split('::')[-1])
        return m if v is None else ('i', v)
    if m[0] == 'op' and m[1] in ('|', '&') and len(m) == 4:
        a, b = mode_value(m[2]), mode_value(m[3])
        if a[0] == b[0] == 'i':
            return ('i', a[1] | b[1] if m[1] == '|' else a[1] & b[1])
    return m


def check_modes(ck, rule='never emptied'):
    """opening a log file keeps what it holds"""
    p = ck.prog()
    n = 0
    for f in [ctor(p), p.fn(REC + '::changeLogFile')]:
        inst = '%s [%s]' % (f['sn'], ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = fs_interp(p)
        st0 = I.new_state()
        I.ltype[SINK] = REC
        for st, _ in ck.clean(I, live(I.run_fn(f, st=st0, this=SINK)), rule, inst):
            for e in st.events('open'):
                n += 1
                m = mode_value(e.mode)
                if m[0] == 's':
                    ck.bad(rule, inst, e, 'opening a log file empties one that exists', st)
                elif m[0] != 'i':
                    ck.undecided(rule, inst, 'mode of opening not known')
                elif m[1] & TRUNC or not m[1] & (APP | IN):
                    ck.bad(rule, inst, e, 'opening a log file empties one that exists', st)
                elif not m[1] & APP:
                    ck.bad(rule, inst, e, 'opening a log file overwrites the beginning of one that exists', st)
        for st, _ in live(I.run_fn(f, st=I.new_state(), this=SINK)):
            for e in st.events('remove', 'rename'):
                ck.undecided(rule, inst, 'removes or renames files')
    ck.need(n or len(ck.viol), 'places where a log file is opened')


def opened_known(I, st, target):
    """was this stream opened on the path, and is it known whether that succeeded"""
    o = st.store.get(F(target, '#open')) if target is not None else None
    if o is None:
        return None, None
    return o, I.known(st, ('op', 'is_open', o))


def check_change(ck, rule='all or nothing'):
    p = ck.prog()
    F_ = Fields(p)
    if F_.name is None:
        raise AnalysisError('anchor vanished: the file name of %s' % REC)
    pend = pending_fields(ck, F_)
    f = p.fn(REC + '::changeLogFile')
    inst = '%s [%s]' % (f['sn'], ck.cfg)
    ck.ob(rule, inst, where_fn(f))
    I = fs_interp(p)
    st0 = F_.state(I)
    old = F_.target(I, st0)
    n = {'done': 0, 'failed': 0}
    for st, v in ck.clean(I, live(I.run_fn(f, st=st0.fork(), this=SINK)), rule, inst):
        if st.comp is not None:
            ck.bad(rule, inst, endsite(st, f), 'changing the log file does not end normally (%s)' % (st.comp,), st)
            continue
        res = I._read(st, v) if v and v[0] in ('A', 'L', 'T', 'H', 'F') else v
        evs = list(st.events())
        ops = [e for e in evs if e.k == 'open']
        closes = [e for e in evs if e.k == 'close' and e.stream == old]
        tgt = F_.target(I, st)
        oks = {e.stream: outcome(I, st, e) for e in ops}
        e_ = I.known(st, ('empty', res))
        if not ops:
            ck.bad(rule, inst, endsite(st, f), 'a path of changing the log file opens no file', st)
            continue
        last = ops[-1]
        okk = oks[last.stream]
        if okk is None:
            ck.bad(rule, inst, last, 'whether the new log file could be opened is not tested', st)
            continue
        if okk:
            n['done'] += 1
            if tgt != last.stream:
                ck.bad(rule, inst, endsite(st, f), 'after a successful change entries do not go to the new file', st)
            if any(x is last for x in closes_of(evs, last.stream)):
                pass
            if closes_of(evs, last.stream, after=last):
                ck.bad(rule, inst, closes_of(evs, last.stream, after=last)[0], 'the new log file is closed again', st)
            nm = F_.get(I, st, F_.name)
            if nm != last.name:
                ck.bad(rule, inst, endsite(st, f), 'the reported file name (%s) is not the one of the file in use (%s)' % (show(nm)[:60], show(last.name)[:60]), st)
            if e_ is True:
                ck.bad(rule, inst, endsite(st, f), 'a successful change gives an empty result', st)
            elif res != last.name:
                ck.bad(rule, inst, endsite(st, f), 'the result of a successful change (%s) is not the name of the new file' % show(res)[:60], st)
            for c in closes:
                if evs.index(c) < evs.index(last):
                    ck.bad(rule, inst, c, 'the old log file is closed before the new one is open', st)
        else:
            n['failed'] += 1
            if e_ is not True:
                ck.bad(rule, inst, endsite(st, f), 'a failed change of the log file is reported as success', st)
            if closes:
                ck.bad(rule, inst, closes[0], 'the old log file is closed although the new one could not be opened', st)
            if tgt != old:
                ck.bad(rule, inst, endsite(st, f), 'after a failed change entries no longer go to the old file', st)
            for path in F_.all:
                if path == F_.stream or path in pend:
                    continue
                a, b = I._read(st0, at(SINK, path)), F_.get(I, st, path)
                if a != b and path == F_.name:
                    ck.bad(rule, inst, endsite(st, f), 'after a failed change the reported file name (%s) is not the one in use' % show(b)[:60], st)
                elif a != b:
                    t = [t for q_, t in all_fields(p, REC) if q_ == path]
                    if t and ('string' in t[0] or t[0] == 'bool'):
                        ck.bad(rule, inst, endsite(st, f), 'a failed change of the log file alters %s' % '.'.join(path), st)
        account(ck, rule, inst, I, st, F_, pend, None, f, 'changeLogFile')
        check_streams(ck, rule, inst, I, st, f, 'changeLogFile')
    if not ck.viol:
        ck.need(n['done'], 'paths on which the log file is changed')
        ck.need(n['failed'], 'paths on which changing the log file fails')
    c = ctor(p)
    inst = '%s [%s]' % (c['sn'], ck.cfg)
    ck.ob(rule, inst, where_fn(c))
    I = fs_interp(p)
    for st, _ in ck.clean(I, sink_states(p, I, F_), rule, inst):
        if st.comp is None:
            t = F_.target(I, st)
            o = [e for e in st.events('open') if e.stream == t]
            if o and F_.get(I, st, F_.name) != o[-1].name:
                ck.bad(rule, inst, endsite(st, c), 'the reported file name (%s) is not the one of the file in use (%s)' % (show(F_.get(I, st, F_.name))[:60], show(o[-1].name)[:60]), st)
    # the reported name
    g = p.fn(REC + '::fileName')
    inst = '%s [%s]' % (g['sn'], ck.cfg)
    ck.ob(rule, inst, where_fn(g))
    I = fs_interp(p)
    for st, v in ck.clean(I, live(I.run_fn(g, st=F_.state(I), this=SINK)), rule, inst):
        for path in F_.all:
            if F_.get(I, st, path) != ('ld', at(SINK, path), 0) and not (path == F_.stream):
                ck.bad(rule, inst, endsite(st, g), 'asking for the file name changes the sink', st)
    # nothing else changes which file is in use, or what it is called
    for h in p.functions.values():
        if h.get('rec') != REC or h.get('body') is None or h.get('kind') in ('ctor', 'dtor') or h['id'] == f['id'] or h.get('access') == 'private' or h.get('static'):
            continue
        inst = '%s [%s]' % (h['sn'], ck.cfg)
        ck.ob(rule, inst, where_fn(h))
        I = fs_interp(p)
        st0 = F_.state(I)
        for st, v in ck.clean(I, live(I.run_fn(h, st=st0.fork(), this=SINK)), rule, inst):
            if st.comp is not None:
                continue
            if F_.target(I, st) != F_.target(I, st0) or st.events('close', 'open'):
                ck.bad(rule, inst, endsite(st, h), '%s changes the file in use' % h['sn'], st)
            elif F_.get(I, st, F_.name) != I._read(st0, at(SINK, F_.name)):
                ck.bad(rule, inst, endsite(st, h), '%s changes the reported file name' % h['sn'], st)


def outcome(I, st, ev):
    """did the opening of a file succeed on this path"""
    r = None
    fs = dict(path_facts(I, st))
    for a, b in fs.items():
        t = a
        if t[0] == 'nz' and isinstance(t[1], tuple):
            t = t[1]
        if t[0] == 'op' and t[1] == 'is_open' and t[2][0] == 'op' and t[2][1] == 'opened' and t[2][2] == ev.name:
            r = b
    return r


def closes_of(evs, s, after=None):
    i = evs.index(after) if after is not None else 0
    return [e for e in evs[i:] if e.k == 'close' and e.stream == s]


def c21(ck):
    for _ in each_cfg(ck):
        check_change(ck)
        check_modes(ck)


# ----------------------------------------------------------------- C22
REMOVED = set(' \t\n\v\f\r/\\.:')
ILLEGAL = set('/,|<>:#$%{}[]\'"^!?+* ')


def excluded(I, st, v):
    """characters known not to be in a string on this path, and those removed from it"""
    rem = set()
    out = set()
    x = v
    while x[0] == 'op' and x[1] in ('filter', 'substr', 'erase'):
        if x[1] == 'filter':
            if x[3][0] == 's':
                rem |= set(x[3][1])
            else:
                return None, None, x
        x = x[2]
    for a, b in path_facts(I, st).items():
        if a[0] in ('==',) and b is True:
            for s, t in ((a[1], a[2]), (a[2], a[1])):
                if s == ('i', 2 ** 64 - 1) and t[0] == 'op' and t[1] in ('find_first_of', 'find_last_of', 'find') and t[2] == v and t[3][0] == 's':
                    out |= set(t[3][1]) if t[1] != 'find' or len(t[3][1]) == 1 else set()
    return rem, out | rem, x


def refused(I, st, P=None):
    """why a path refuses a prefix"""
    out = set()
    for a, b in path_facts(I, st).items():
        if a[0] == '==' and b is False:
            for s, t in ((a[1], a[2]), (a[2], a[1])):
                if s == ('i', 2 ** 64 - 1) and t[0] == 'op' and t[1].startswith('find') and (P is None or mentions(t, P)):
                    out.add('illegal')
        if a[0] == 'empty' and b is True:
            out.add(('empty', a[1]))
        t = a[1] if a[0] == 'nz' else a
        if t[0] == 'op' and t[1] == 'is_open' and b is False:
            out.add('open')
    return out


def check_creation(ck, rule='creation'):
    p = ck.prog()
    F_ = Fields(p)
    c = ctor(p)
    P, Dr, ID = [A(q['n']) for q in c['params'][:3]]
    h = hooks(p, text=False, **{'g3::localtime_formatted': text_hook, 'g3::internal::header': text_hook})
    I = Interp(p, h, max_s=100, access=True, snap=['access'])
    st0 = I.new_state()
    I.ltype[SINK] = REC
    every = I.run_fn(c, st=st0, this=SINK)
    res = live(every)
    rn, rd, rf = 'prefix', 'directory', 'fallback'
    insts = {r: '%s [%s]' % (c['sn'], ck.cfg) for r in (rn, rd, rf)}
    for r in insts:
        ck.ob(r, insts[r], where_fn(c))
    for f, line in erase_then_advance(p, I.inlined):
        ck.bad(rn, insts[rn], '%s:%s (%s)' % (f['file'], line, f['sn']), 'the loop erases the character it stands at and then steps over the one that takes its place: one of two neighbours to be removed stays')
    by_char = per_character(p, I.inlined)
    if by_char:
        ck = Unsure(ck, 'text is handled character by character in %s' % by_char, (rn, rd))
    # a loop that strips the directory has to make progress
    ends = [[st for st, _ in rr if not st.marks and any(b is True and ends_with_one(a, Dr) for a, b in path_facts(I, st).items())] for rr in (every, res)]
    if ends[0] and not ends[1]:
        ck.bad(rd, insts[rd], endsite(ends[0][0], c), 'creating a file sink never ends for a directory that ends in a separator', ends[0][0])
    check_access(ck, rd, insts[rd], I, every)
    n = 0
    for st, _ in ck.clean(I, res, rn, insts[rn]):
        ops = st.events('open')
        outc = [outcome(I, st, e) for e in ops]
        if st.comp is not None:
            if st.comp[0] != 'noret':
                ck.bad(rf, insts[rf], endsite(st, c), 'creating a file sink fails in an unexpected way (%s)' % (st.comp,), st)
                continue
            why = refused(I, st)
            if ops and 'open' not in why:
                ck.bad(rf, insts[rf], endsite(st, c), 'terminates although a log file could be opened', st)
            elif len(ops) == 1:
                ck.bad(rf, insts[rf], endsite(st, c), 'terminates without trying the current directory', st)
            elif not ops and 'illegal' not in why and not [w for w in why if isinstance(w, tuple) and mentions(w, lambda y: y == P)]:
                ck.bad(rn, insts[rn], endsite(st, c), 'a legal prefix is refused', st)
            continue
        n += 1
        if 'illegal' in refused(I, st, P):
            ck.bad(rn, insts[rn], endsite(st, c), 'an illegal prefix is accepted', st)
            continue
        if not ops:
            ck.bad(rf, insts[rf], endsite(st, c), 'a file sink is created without opening a file', st)
            continue
        # the sink ends up with an open file
        tgt = F_.target(I, st)
        good = [e for e, o in zip(ops, outc) if o is True]
        if tgt is None or not good or good[-1].stream != tgt:
            ck.bad(rf, insts[rf], endsite(st, c), 'a file sink is created without an open file', st)
            continue
        used = good[-1]
        if F_.name and F_.get(I, st, F_.name) != used.name:
            ck.bad(rf, insts[rf], endsite(st, c), 'the reported file name is not the one of the file in use', st)
        if [e for e in st.events('close') if e.stream == used.stream and e.n > used.n]:
            ck.bad(rf, insts[rf], used, 'the log file is closed again', st)
        # order: directory first, then the current one
        for i, e in enumerate(ops):
            ps = pieces(e.name)
            k = [j for j, x in enumerate(ps) if mentions(x, lambda y: y == P)]
            if not k and not mentions(e.name, lambda y: y and (y[0] in ('sym', 'uninit', 'new', 'lam') or y[0] == 'op' and y[1] not in ('substr', 'erase', 'map', 'filter', 'loopval', 'cat', '+', '-', 'size', 'at'))):
                ck.bad(rn, insts[rn], e, 'the log file that is opened is called %s: the prefix is not in its name' % show(e.name)[:80], st)
                continue
            if not k:
                ck.undecided(rn, insts[rn], 'name of the file not recognised: %s' % show(e.name)[:100])
                continue
            if ps[k[0]][0] == 's' or len(k) > 1:
                ck.undecided(rn, insts[rn], 'name of the file not recognised: %s' % show(e.name)[:100])
                continue
            check_prefix(ck, rn, insts[rn], I, st, ps[k[0]], P, e)
            if i == 0:
                check_directory(ck, rd, insts[rd], I, st, ps[:k[0]], Dr, e)
            elif any(mentions(x, lambda y: y == Dr) for x in ps[:k[0]]):
                ck.bad(rf, insts[rf], e, 'the second attempt is not in the current directory', st)
            elif ps[:k[0]] not in ([], [('s', './')]):
                ck.bad(rf, insts[rf], e, 'the second attempt is not in the current directory (%s)' % ' '.join(show(x) for x in ps[:k[0]]), st)
            rest = ps[k[0] + 1:]
            if not any(mentions(x, lambda y: y == ID) for x in rest):
                if not empty_before(st, I, ID) and not (k[0] + 1 < len(ps) and mentions(e.name, lambda y: y == ID)):
                    ck.bad(rn, insts[rn], e, 'the name of the log file lacks the logger id', st)
    ck.need(n or len(ck.viol), 'ways to create a file sink')
    # the sanitized prefix is what later names are built from
    pf = [path for path in F_.all if any(mentions(F_.get(I, st, path), lambda y: y == P) for st, _ in res if st.comp is None) and path != F_.name]
    f = p.fn(REC + '::changeLogFile')
    inst = '%s [%s]' % (f['sn'], ck.cfg)
    ck.ob(rn, inst, where_fn(f))
    if not pf and any(st.marks for st, _ in res):
        ck.undecided(rn, inst, 'where the sanitized prefix is kept is not recognised')
        return
    for st, _ in res:
        if st.comp is None and not st.marks:
            for path in pf:
                v = F_.get(I, st, path)
                if mentions(v, lambda y: y == P):
                    check_prefix(ck, rn, inst, I, st, v, P, endsite(st, c))
    I2 = fs_interp(p)
    for st, _ in ck.clean(I2, live(I2.run_fn(f, st=F_.state(I2), this=SINK)), rn, inst):
        for e in st.events('open'):
            if not mentions(e.name, lambda y: y[0] in ('F', 'ld') and any(y == at(SINK, q) or y == ('ld', at(SINK, q), 0) for q in pf) if y else False):
                ck.bad(rn, inst, e, 'the name of the new log file is not built from the sanitized prefix', st)


def check_prefix(ck, rule, inst, I, st, v, P, site):
    rem, out, base = excluded(I, st, v)
    if rem is None or base != P:
        ck.undecided(rule, inst, 'prefix computed as %s' % show(v)[:100])
        return
    if REMOVED - rem:
        ck.bad(rule, inst, site, 'characters %r stay in the prefix, or lead to its refusal' % ''.join(sorted(REMOVED - rem)), st)
    if rem - REMOVED:
        ck.bad(rule, inst, site, 'characters %r are removed from the prefix' % ''.join(sorted(rem - REMOVED)), st)
    if ILLEGAL - out:
        ck.bad(rule, inst, site, 'a prefix with %r is accepted' % ''.join(sorted(ILLEGAL - out)), st)
    if any(x.isalnum() or x in '_-' for x in out):
        ck.bad(rule, inst, site, 'a legal prefix is refused (%r)' % ''.join(sorted(x for x in out if x.isalnum() or x in '_-')), st)
    if I.known(st, ('empty', v)) is not False:
        ck.bad(rule, inst, site, 'an empty prefix is accepted', st)


def check_directory(ck, rule, inst, I, st, ps, Dr, site):
    if not ps:
        pf = path_facts(I, st)
        es = [a for a, b in pf.items() if a[0] == 'empty' and b is True and mentions(a[1], lambda y: y == Dr)]
        odd = [a for a in pf if mentions(a, lambda y: y[0] == 'op' and str(y[1]).startswith(('find', 'rfind')) and len(y) > 2 and mentions(y[2], lambda z: z == Dr))]
        only = [c for c in map(trailing, (a[i] for a, b in pf.items() if a[0] == '==' and b is True for i in (1, 2) if ('i', 2 ** 64 - 1) in a[1:])) if c]
        if not es and any(c <= set('/ ') for c in only):
            return
        if not es and odd:
            ck.undecided(rule, inst, 'no directory when %s' % show(odd[0])[:100])
        elif not es:
            ck.bad(rule, inst, site, 'the directory is ignored', st)
        return
    if len(ps) > 2 or ps[0][0] == 's':
        ck.undecided(rule, inst, 'directory written as %s' % show(cat(*ps))[:100])
        return
    X = ps[0]
    y = X
    mapped = False
    while y[0] == 'op' and y[1] in ('substr', 'erase', 'map', 'filter', 'loopval'):
        if y[1] == 'map' and y[3:] == (('s', '\\'), ('s', '/')):
            mapped = True
        elif y[1] == 'map' or y[1] == 'filter':
            break
        y = y[2]
    if y != Dr:
        ck.undecided(rule, inst, 'directory computed as %s' % show(X)[:100])
        return
    if I.known(st, ('empty', X)) is True:
        if len(ps) == 2:
            ck.bad(rule, inst, site, 'an empty directory becomes the root directory', st)
        return
    if not mapped:
        ck.bad(rule, inst, site, 'backslashes stay in the directory', st)
    if len(ps) == 1:
        ck.bad(rule, inst, site, 'no separator between directory and file name', st)
        return
    if ps[1] != ('s', '/'):
        ck.bad(rule, inst, site, '%s between directory and file name' % show(ps[1]), st)
    if I.known(st, ('empty', X)) is not False:
        ck.bad(rule, inst, site, 'an empty directory becomes the root directory', st)
    cut = X[0] == 'op' and X[1] == 'substr' and X[3:4] == (('i', 0),) and len(X) == 5 and X[4][0] == 'op' and X[4][1] == '+' and X[4][3:] == (('i', 1),) and X[4][2][2:3] == (X[2],) and trailing(X[4][2])
    if cut and '/' in cut:
        if cut - set('/ '):
            ck.bad(rule, inst, site, 'characters %r are cut off the end of the directory' % ''.join(sorted(cut - set('/ '))), st)
        return
    last = [b for a, b in path_facts(I, st).items() if a[0] == '==' and ends_in(a, X)]
    if False not in last:
        ck.bad(rule, inst, site, 'the directory may end in a separator already', st)


def trailing(t):
    """the characters a search for the last character that is none of them skips"""
    return set(t[3][1]) if t[0] == 'op' and t[1] == 'find_last_not_of' and len(t) == 4 and t[3][0] == 's' else None


def check_access(ck, rule, inst, I, results):
    """no character is taken from in front of, or behind, a text"""
    seen = set()
    for st, _ in results:
        if st.marks:
            continue
        for e in st.events('access'):
            v, i = e.val, e.idx
            if (e.where(), v, i) in seen:
                continue
            sz = stdmodel.size_of(v)
            if i == sz and e.how == 'at' or i[0] == 'i' and i[1] < 0:
                ck.bad(rule, inst, e, 'a character outside of %s is used' % show(v)[:60], st)
                seen.add((e.where(), v, i))
            elif e.how == 'at' and i[0] == 'op' and i[1] == '+' and len(i) == 4 and i[3][0] == 'i' and 0 < i[3][1] < 2 ** 32 and i[2][0] == 'op' and str(i[2][1]).startswith(('find', 'rfind')) and i[2][2] == v:
                if not any(t[0] in ('==', '<', '<=', '>', '>=') and mentions(t, lambda y: y == sz) for t in path_facts(I, e.st or st)):
                    ck.bad(rule, inst, e, 'the character behind the one found in %s may be outside of it' % show(v)[:60], st)
                    seen.add((e.where(), v, i))
            elif i == I.arith('-', sz, ('i', 1)) or e.how == 'front':
                facts = [b for t, b in e_facts(I, e.st or st, v)]
                if False not in facts:
                    ck.bad(rule, inst, e, 'the last character of %s is used although it may be empty' % show(v)[:60], st)
                    seen.add((e.where(), v, i))


def e_facts(I, st, v):
    """what is known about a text being empty, as (term, empty?)"""
    out = []
    r = I.known(st, ('empty', v))
    if r is not None:
        out.append((None, r))
    r = I.known(st, ('op', '==', stdmodel.size_of(v), ('i', 0)))
    if r is not None:
        out.append((None, r))
    for t, b in path_facts(I, st).items():
        if mentions(t, lambda y: y and y[0] == 'op' and y[1] in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of') and len(y) > 2 and y[2] == v):
            out.append((t, False))
        if t[0] in ('==', '<', '<=', '>', '>=', 'b', 'nz', 'op') and mentions(t, lambda y: y == stdmodel.size_of(v)):
            out.append((t, False))
    return out


def ends_with_one(a, Dr):
    """a fact: the last character of the directory is a separator"""
    return a[0] == '==' and any(s == ('i', 47) and t[0] == 'op' and t[1] in ('at', 'back') and mentions(t[2], lambda y: y == Dr) for s, t in ((a[1], a[2]), (a[2], a[1])))


def ends_in(a, X):
    for s, t in ((a[1], a[2]), (a[2], a[1])):
        if s == ('i', 47) and t[0] == 'op' and t[1] in ('at', 'back') and t[2] == X:
            # the character behind the last one, or the first one, tells nothing
            if t[1] == 'back' or t[3] not in (stdmodel.size_of(X), ('i', 0)):
                return True
    return False


def c22(ck):
    for _ in each_cfg(ck):
        check_creation(ck)
