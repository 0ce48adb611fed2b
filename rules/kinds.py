"""C17: fatal classification and the text of each kind of entry."""
from rules.common import *
from rules import printf as pf, pipeline as pl, macros as mc, fatal, filesink as fs

LM = ('A', 'entry')
MSG, EXPR = A('message_text'), A('expression_text')
FMT = A('chosen_format')
KINDS = {
    'normal': ((None, FATAL - 1), None), 'LOG(FATAL)': ((FATAL, FATAL), 'LOG(FATAL)'), 'CHECK': ((2000, 2000), 'CHECK('),
    'fatal signal': ((2001, 2001), 'FATAL SIGNAL'), 'fatal exception': ((2002, 2002), 'FATAL EXCEPTION'),
    'user fatal level above FATAL': ((FATAL + 1, 1999), ''), 'user fatal level above all': ((2003, None), ''),
}
DETAILED = {'normal', 'LOG(FATAL)', 'CHECK', 'user fatal level above FATAL', 'user fatal level above all'}


def parts(t):
    """a text as a list of constants and unknown pieces"""
    if not isinstance(t, tuple) or not t:
        return [t]
    if t[0] in ('cat',):
        out = []
        for x in t[1:]:
            out += parts(x)
        return out
    if t[0] == 's' and t[1] == '':
        return []
    return [t]


def kind_state(p, I, lo, hi, chosen=None, rec='g3::LogMessage'):
    """an entry of some kind, with arbitrary contents"""
    st = I.new_state()
    I.ltype[LM] = rec
    I.mark_private(st, LM)
    base = LM
    st.store[F(LM, '_message')] = MSG
    st.store[F(LM, '_expression')] = EXPR
    if chosen is not None:
        st.store[F(LM, '_logDetailsToStringFunc')] = chosen
    v = I._read(st, F(F(LM, '_level'), levels_value(p)))
    if lo is not None:
        I.assume(st, ('op', '<', v, ('i', lo)), False)
    if hi is not None:
        I.assume(st, ('op', '<', ('i', hi), v), False)
    return st


def stamp_hooks(p):
    return {'g3::localtime_formatted': text_hook, 'g3::LogMessage::timestamp': text_hook}


def result(I, s, r):
    if isinstance(r, tuple) and r and r[0] in ('A', 'F', 'L', 'T', 'H'):
        r = I._read(s, r)
    return r


def consts(t, acc):
    mentions(t, lambda y: (acc.add(y[1]), False)[1] if isinstance(y, tuple) and len(y) == 2 and y[0] == 'i' and isinstance(y[1], int) else False)


def check_classify(ck, rule='fatal exactly from FATAL on'):
    """the classification, evaluated around every constant any path compares the level with"""
    p = ck.prog()
    n = 0
    for name, this in (('g3::internal::wasFatal', None), ('g3::LogMessage::wasFatal', LM)):
        f = p.fn(name)
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = interp(p, hooks(p, text=False))
        st = I.new_state()
        if this:
            I.ltype[LM] = 'g3::LogMessage'
            I.mark_private(st, LM)
            v = I._read(st, F(F(LM, '_level'), levels_value(p)))
            res = I.run_fn(f, this=LM, st=st)
        else:
            a = level_arg(p, I, st, None)
            v = I._read(st, F(LEVEL, levels_value(p)))
            res = I.run_fn(f, st=st, args=[a])
        res = ck.clean(I, live(res), rule, inst)
        cs = {-2 ** 31, 2 ** 31 - 1, 0, 100, 300, 500, FATAL, 2000, 2001, 2002}
        for s, r in res:
            for t in path_facts(I, s):
                consts(t, cs)
            consts(r, cs)
        for x in sorted({y + d for y in cs for d in (-1, 0, 1) if -2 ** 31 <= y + d < 2 ** 31}):
            got = 0
            for s, r in res:
                if s.comp is not None:
                    ck.bad(rule, inst, endsite(s, f), 'classifying a level does not return (%s)' % (s.comp,), s)
                    continue
                env = {v: x}
                hold = [pf.ev(t, env) for t in path_facts(I, s)]
                if any(h is not None and bool(h) != b for h, b in zip(hold, path_facts(I, s).values())):
                    continue
                y = pf.ev(r, env)
                if y is None or None in hold:
                    if y is not None and bool(y) == (x >= FATAL):
                        got += 1
                        continue
                    ck.undecided(rule, inst, 'level %d: %s' % (x, show(r)[:100]))
                    got += 1
                    continue
                got += 1
                n += 1
                if bool(y) != (x >= FATAL):
                    ck.bad(rule, inst, where_fn(f), 'a level with the value %d is %sclassified as fatal' % (x, '' if y else 'not '), s)
            if not got and res:
                ck.undecided(rule, inst, 'no path for level %d' % x)
    ck.need(n or len(ck.viol), 'classifications', 10)


def check_path(ck, rule='only fatal levels take the fatal path'):
    """which path a log statement takes"""
    p = ck.prog()
    for isf in (False, True):
        inst = '%s level [%s]' % ('fatal' if isf else 'non-fatal', ck.cfg)
        I, f, res = pl.submit(ck, fatal=isf, everything=True, frozen=fatal.handlers(p) + fatal.wait_flags(p), h=fatal.die_hooks(p))
        ck.ob(rule, inst, where_fn(f))
        n = 0
        for st, _ in ck.clean(I, res, rule, inst):
            ps = posts(I, st)
            fp = [e for e in ps if mc.is_fatal_post(p, I, e)]
            if isf:
                if not fp and not (st.comp and st.comp[0] == 'thr'):
                    if st.comp == ('noret', 'loop') and not ps:
                        continue
                    ck.bad(rule, inst, ps[0] if ps else endsite(st, f), 'an entry of a fatal level is handed over as an ordinary one' if ps else
                           'an entry of a fatal level is not handed over', st)
                    continue
                n += 1
            else:
                n += 1
                if fp:
                    ck.bad(rule, inst, fp[0], 'an entry of a level below FATAL is handed over as a fatal event', st)
                elif st.comp is not None and st.comp[0] == 'noret' and st.comp != ('noret', 'loop'):
                    ck.bad(rule, inst, endsite(st, f), 'logging at a level below FATAL does not return (%s)' % (st.comp,), st)
        ck.need(n or len(ck.viol), 'paths of a %s' % inst)


def detail_calls(st):
    return [e for e in st.events('usercall')]


def check_text(ck, rule='text of each kind'):
    p = ck.prog()
    f = p.fn('g3::LogMessage::toString')
    words = [w for _, w in KINDS.values() if w]
    texts = {}
    for name, ((lo, hi), word) in KINDS.items():
        inst = '%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = interp(p, {**hooks(p, text=False), **stamp_hooks(p)})
        st = kind_state(p, I, lo, hi)
        n = 0
        for s, r in live(ck.clean(I, I.run_fn(f, this=LM, st=st, args=[Arg(val=FMT, t=f['params'][0]['t'])]), rule, inst)):
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'formatting does not return a text (%s)' % (s.comp,), s)
                continue
            n += 1
            check_kind(ck, rule, inst, I, s, f, name, word, words, result(I, s, r), FMT, texts)
        ck.need(n or len(ck.viol), 'texts of an entry of kind %s' % name)
    seen = {}
    for name, t in texts.items():
        if name.startswith('user'):
            name = 'user fatal level'
        seen.setdefault(t, set()).add(name)
    inst = 'formats differ [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    for t, ns in seen.items():
        if len(ns) > 1 and t is not None:
            ck.bad(rule, inst, where_fn(f), 'entries of different kinds have the same format: %s' % ', '.join(sorted(ns)))


def unknown(t):
    return mentions(t, lambda y: isinstance(y, tuple) and y and (y[0] in ('sym', 'havoc', 'loopval') or y[0] == 'ld' and y[2] != 0))


def check_kind(ck, rule, inst, I, s, f, name, word, words, r, chosen, texts=None):
    if r is None or not isinstance(r, tuple):
        ck.undecided(rule, inst, 'result %s' % (r,))
        return
    ps = parts(r)
    lit = ''.join(x[1] for x in ps if x[0] == 's')

    def bad(m):
        if unknown(r):
            ck.undecided(rule, inst, '%s: %s' % (m, show(r)[:150]))
        else:
            ck.bad(rule, inst, where_fn(f), m, s)
    for x in ps:
        if x != MSG and x != EXPR and mentions(x, lambda y: y in (MSG, EXPR)) and not (x[0] == 'ucall'):
            bad('the text of an entry of kind %s contains its message altered: %s' % (name, show(x)[:100]))
            return
    if ps.count(MSG) != 1:
        bad('the text of an entry of kind %s contains its message %d times' % (name, ps.count(MSG)))
        return
    if ps.count(EXPR) != (1 if name == 'CHECK' else 0):
        bad('the text of an entry of kind %s contains the failed expression %d times' % (name, ps.count(EXPR)))
    det = [i for i, x in enumerate(ps) if x[0] == 'ucall' or x[0] == 'op' and x[1] == 'text' and 'DetailsToString' in str(x[2])]
    own = [i for i in det if ps[i][0] == 'ucall' and ps[i][1] == chosen]
    if len(det) > len(own):
        bad('the details of an entry of kind %s are not in the format chosen by the caller' % name)
    elif name in DETAILED and len(own) != 1:
        bad('the text of an entry of kind %s contains its details %d times' % (name, len(own)))
    elif own and own[0] > ps.index(MSG):
        bad('the details of an entry of kind %s come after its message' % name)
    for e in detail_calls(s):
        if e.what == chosen and (len(e.args) != 1 or e.args[0] != LM):
            ck.bad(rule, inst, e, 'the details printed are those of another entry', s)
    if word is None:
        if lit.strip() or [x for x in ps if x[0] == 's'] and ps[-1] != ('s', '\n'):
            bad('the text of an ordinary entry is not its details, its message and the end of the line')
        elif ps[-1] == MSG:
            bad('the text of an ordinary entry does not end its line')
    else:
        got = [w for w in words if w in lit]
        if got != ([word] if word else []):
            bad('an entry of kind %s is printed in the format of %s' % (name, ', '.join(got) or 'another kind'))
    if texts is not None:
        texts[name] = None if unknown(r) else tuple('' if x[0] != 's' else x[1] for x in ps)


HELPERS = {'normalToString': 'normal', 'fatalLogToString': 'LOG(FATAL)', 'fatalCheckToString': 'CHECK', 'fatalSignalToString': 'fatal signal',
           'fatalExceptionToString': 'fatal exception'}


def check_helpers(ck, rule='text of each kind'):
    """the public helper functions follow the format chosen before"""
    p = ck.prog()
    n = 0
    words = [w for _, w in KINDS.values() if w]
    for h, kind in HELPERS.items():
        f = p.fn('g3::LogMessage::' + h)
        inst = 'LogMessage::%s [%s]' % (h, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = interp(p, {**hooks(p, text=False), **stamp_hooks(p)})
        st = kind_state(p, I, *KINDS[kind][0], chosen=FMT)
        for s, r in live(ck.clean(I, I.run_fn(f, st=st, args=[Arg(loc=LM, t='g3::LogMessage')]), rule, inst)):
            n += 1
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'formatting does not return a text (%s)' % (s.comp,), s)
                continue
            check_kind(ck, rule, inst, I, s, f, kind, KINDS[kind][1], words, result(I, s, r), FMT)
    ck.need(n or len(ck.viol), 'helper functions for the text of an entry', 5)
    f = p.fn('g3::LogMessage::overrideLogDetailsFunc')
    inst = 'LogMessage::overrideLogDetailsFunc [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    I = interp(p, hooks(p, text=False))
    st = kind_state(p, I, None, None)
    for s, r in live(ck.clean(I, I.run_fn(f, this=LM, st=st, args=[Arg(val=FMT, t=f['params'][0]['t'])]), rule, inst)):
        v = I._read(s, F(LM, '_logDetailsToStringFunc'))
        if s.comp is not None or v != FMT:
            ck.bad(rule, inst, where_fn(f), 'the format chosen for the details is not used (%s)' % show(v), s)


def check_details(ck, rule='details'):
    """the built-in formats of the details contain every detail once"""
    p = ck.prog()
    n = 0
    for name in ('DefaultLogDetailsToString', 'FullLogDetailsToString'):
        f = p.fn('g3::LogMessage::' + name)
        inst = 'LogMessage::%s [%s]' % (name, ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = interp(p, {**hooks(p, text=False), **stamp_hooks(p)})
        st = kind_state(p, I, None, None)
        want = {'level': F(F(LM, '_level'), 'text'), 'file': F(LM, '_file'), 'function': F(LM, '_function')}
        num = {'line': F(LM, '_line')}
        if name.startswith('Full'):
            num['thread'] = F(LM, '_call_thread_id')
        for s, r in live(ck.clean(I, I.run_fn(f, st=st, args=[Arg(loc=LM, t='g3::LogMessage')]), rule, inst)):
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'formatting does not return a text (%s)' % (s.comp,), s)
                continue
            n += 1
            r = result(I, s, r)
            ps = parts(r)
            if unknown(r):
                ck.undecided(rule, inst, show(r)[:150])
                continue
            for k, l in want.items():
                c = sum(1 for x in ps if x == ('ld', l, 0))
                if c != 1:
                    ck.bad(rule, inst, where_fn(f), 'the details contain the %s %d times' % (k, c), s)
            for k, l in num.items():
                c = [x for x in ps if x[0] != 's' and mentions(x, lambda y: y == ('ld', l, 0))]
                if len(c) != 1:
                    ck.bad(rule, inst, where_fn(f), 'the details contain the %s %d times' % (k, len(c)), s)
            c = [x for x in ps if x[0] == 'op' and x[1] == 'text' and ('timestamp' in x[2][1] or 'localtime_formatted' in x[2][1])]
            if len(c) != 1:
                ck.bad(rule, inst, where_fn(f), 'the details contain the time %d times' % len(c), s)
            for a, b in zip(ps, ps[1:]):
                if a[0] != 's' and b[0] != 's':
                    ck.bad(rule, inst, where_fn(f), 'details are printed without anything between them', s)
    ck.need(n or len(ck.viol), 'formats for details', 2)


def check_sink_format(ck, rule='format of the file sink'):
    """the file sink formats its entries with the format chosen for it"""
    p = ck.prog()
    fld = [x for x, t in all_fields(p, fs.REC) if len(x) == 1 and 'LogMessage' in t and '(' in t]
    if len(fld) != 1:
        raise AnalysisError('anchor vanished: the detail format of %s' % fs.REC)
    loc = F(fs.SINK, fld[0][0])
    f = p.fn(fs.REC + '::overrideLogDetails')
    inst = 'overrideLogDetails [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    I = fs.fs_interp(p)
    st = I.new_state()
    I.ltype[fs.SINK] = fs.REC
    for s, _ in live(ck.clean(I, I.run_fn(f, this=fs.SINK, st=st, args=[Arg(val=FMT, t=f['params'][0]['t'])]), rule, inst)):
        v = I._read(s, loc)
        if s.comp is not None or v != FMT:
            ck.bad(rule, inst, where_fn(f), 'the format chosen for the details is not kept (%s)' % show(v), s)
    f = p.fn(fs.REC + '::fileWrite')
    inst = 'fileWrite [%s]' % ck.cfg
    ck.ob(rule, inst, where_fn(f))
    F_ = fs.Fields(p)
    I = fs.fs_interp(p, snap=['textfn'])
    st0 = F_.state(I)
    st0.store[loc] = FMT
    n = 0
    for s, _ in live(ck.clean(I, I.run_fn(f, st=st0, this=fs.SINK), rule, inst)):
        for e in s.events('textfn'):
            if e.fn != 'g3::LogMessage::toString':
                if 'DetailsToString' in e.fn or e.fn.split('::')[-1] in HELPERS:
                    ck.undecided(rule, inst, 'formats with %s' % e.fn)
                    n += 1
                continue
            n += 1
            a = e.args[0] if e.args else None
            if isinstance(a, tuple) and a and a[0] in ('F', 'L', 'T') and e.st is not None:
                a = I._read(e.st, a)
            if a != FMT:
                (ck.undecided if a is None or unknown(a) else lambda r_, i_, m: ck.bad(r_, i_, e, m, s))(
                    rule, inst, 'an entry is formatted with %s instead of the format chosen for the sink' % (show(a) if a else a))
    ck.need(n or len(ck.viol) or len([o for o in ck.obs.values() if o['status'] == 'undecided']), 'entries formatted by the file sink')


SIGNALS = {6: 'SIGABRT', 8: 'SIGFPE', 11: 'SIGSEGV', 4: 'SIGILL', 15: 'SIGTERM'}


def check_reason(ck, rule='reason'):
    """the reason names the signal"""
    p = ck.prog()
    f = p.fn('g3::internal::exitReasonName')
    n = 0
    for v in list(SIGNALS) + [None]:
        inst = 'signal %s [%s]' % (v if v is not None else 'other', ck.cfg)
        ck.ob(rule, inst, where_fn(f))
        I = interp(p, hooks(p, text=False))
        st = I.new_state()
        a = level_arg(p, I, st, True)
        sig = ('i', v) if v is not None else A('some_signal')
        for s, r in live(ck.clean(I, I.run_fn(f, st=st, args=[a, Arg(val=sig, t=f['params'][1]['t'])]), rule, inst)):
            if s.comp is not None:
                ck.bad(rule, inst, endsite(s, f), 'the reason of a fatal event can not be named (%s)' % (s.comp,), s)
                continue
            n += 1
            r = result(I, s, r)
            ps = parts(r)
            lit = ''.join(x[1] for x in ps if x[0] == 's')
            if v is not None:
                if lit != SIGNALS[v] or len(ps) > 1:
                    (ck.undecided(rule, inst, show(r)[:120]) if unknown(r) or any(x[0] != 's' for x in ps) and SIGNALS[v] in lit else
                     ck.bad(rule, inst, where_fn(f), 'the reason for %s reads %s' % (SIGNALS[v], show(r)[:120]), s))
            else:
                known = [k for k in SIGNALS if I.known(s, ('op', '==', sig, ('i', k)))]
                named = [x for x in SIGNALS.values() if x in lit]
                if known and [SIGNALS[k] for k in known] != named:
                    ck.bad(rule, inst, where_fn(f), 'the reason for %s reads %s' % (SIGNALS[known[0]], show(r)[:120]), s)
                elif not known and (named or not mentions(r, lambda y: y == sig)):
                    (ck.undecided(rule, inst, show(r)[:120]) if unknown(r) else
                     ck.bad(rule, inst, where_fn(f), 'the reason for another signal reads %s' % show(r)[:120], s))
    ck.need(n or len(ck.viol), 'reasons', 6)


def c17(ck):
    for cfg in ['default'] + (['dynlevels', 'fullname', 'nosignals', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_classify(ck)
        check_path(ck)
        check_text(ck)
        check_helpers(ck)
        check_details(ck)
        check_sink_format(ck)
        check_reason(ck)
        fatal.check_flush(ck, 'reaches the sinks')
    ck.cfg = 'default'
