"""C01-C04, C19, C20: the way of an entry from the log statement to the sinks."""
from rules.common import *
from rules import pipeline as pl, queue as q


def c01(ck):
    I, tasks = pl.check_worker(ck)
    check_complete(ck, I, tasks)
    check_no_sinks(ck, I, tasks)
    pl.check_sinks(ck)
    q.check_queue(ck)
    q.check_active(ck)
    if ck.tier == 'thorough':
        for cfg in ('dynlevels', 'fullname', 'nosignals', 'dynsize'):
            ck.cfg = cfg
            I, tasks = pl.check_worker(ck)
            check_complete(ck, I, tasks)
            check_no_sinks(ck, I, tasks)
            pl.check_sinks(ck)


def c02(ck):
    q.check_queue(ck)
    bodies = q.check_active(ck)
    I, tasks = pl.check_worker(ck)
    check_in_task(ck, I, tasks)
    att = pl.check_sinks(ck)


def c03(ck):
    q.check_queue(ck)
    q.check_active(ck)


# ----------------------------------------------------------------- what a sink gets
def expectations(p):
    """attribute -> predicate on the value that arrives"""
    t = lambda n: ('op', 'text', A(n))

    def text_of(n):
        return lambda v: v == A(n) or mentions(v, lambda x: x == A(n)) and not mentions(v, lambda x: isinstance(x, tuple) and x and (x[0] == 'cat' or x[0] == 'op' and x[1] in ('substr', 'slice', 'prefix', 'range', 'erase', 'replace', 'filter', 'map', 'insert', 'repeat')))
    return {
        ('_message',): lambda v: v == TEXT,
        ('_level', levels_value(p)): lambda v: v == ('ld', F(LEVEL, levels_value(p)), 0),
        ('_line',): lambda v: v == A('line'),
        ('_function',): text_of('function'),
        ('_file_path',): text_of('file'),
        ('_file',): lambda v: mentions(v, lambda x: x == A('file')),
        ('_expression',): text_of('expression'),
    }


def check_entry(ck, rule, inst, p, I, e, st, fatal=False):
    """the entry that a send event carries is the one the caller logged"""
    lm = pl.message_in(I, I.recof(I.ltype.get(e.msg) or ''))
    if not lm:
        ck.undecided(rule, inst, 'entry of a send: %s' % show(e.msg))
        return
    got = pl.field_terms(p, I, e.st, at(e.msg, lm[0]))
    for path, ok in expectations(p).items():
        v = got.get(path)
        if v is None:
            ck.undecided(rule, inst, 'attribute %s not found' % '.'.join(path))
        elif fatal and path == ('_message',) and v[0] == 'cat' and ok(v[1]):
            pass                                    # what the report appends
        elif not ok(v):
            if v[0] == 'sym' or (v[0] == 'ld' and v[2] != 0) or path == ('_file',) and v[:2] == ('op', 'text'):
                ck.undecided(rule, inst, 'attribute %s: %s' % ('.'.join(path), show(v)))
            else:
                ck.bad(rule, inst, e, 'attribute %s of the entry reaches a sink as %s' % ('.'.join(path), show(v)), st)


def check_complete(ck, I, tasks, rule='complete entry'):
    p = ck.prog()
    inst = 'every send of the worker task [%s]' % ck.cfg
    ck.ob(rule, inst)
    n = 0
    for st0, ev, rr in tasks:
        for st, _ in rr:
            for e in st.events('sinksend'):
                n += 1
                check_entry(ck, rule, inst, p, I, e, st)
    ck.need(n, 'sends to sinks')


def check_no_sinks(ck, I, tasks, rule='no sinks'):
    inst = 'worker task without sinks [%s]' % ck.cfg
    ck.ob(rule, inst)
    conts = {}
    for st0, ev, rr in tasks:
        for c in pl.sink_containers(I, rr):
            conts[c] = 1
    n = 0
    for st0, ev, rr in tasks:
        for st, _ in live(rr):
            if st.events('sinksend') or st.comp is not None:
                continue
            n += 1
            if not any(any('stderr' in show(e.stream) or 'cerr' in show(e.stream) or 'clog' in show(e.stream) for e in [x]) for x in st.events('out')) \
                    and not [x for x in st.events('write') if x.fd == ('i', 2)] and not st.events('perror', 'stdio'):
                ck.bad(rule, inst, ev, 'with no sinks attached the entry is dropped silently', st)
                continue
            if not any(mentions(e.val, lambda t: t == TEXT or (t[0] == 'op' and t[1] == 'text' and t[2] == ('s', 'g3::LogMessage::toString'))) for e in st.events('out', 'write', 'stdio')):
                outs = [e for e in st.events('out', 'write', 'stdio') if e.k != 'out' or any(x in show(e.stream) for x in ('stderr', 'cerr', 'clog'))]
                if not st.marks and all(e.k == 'out' and fixed(e.val) for e in outs):
                    ck.bad(rule, inst, outs[0], 'with no sinks attached what is shown does not contain the entry', st)
                else:
                    ck.undecided(rule, inst, 'text written to stderr not recognised')
    if not n:
        ck.undecided(rule, inst, 'no path with an empty set of sinks')


def fixed(t):
    """text made of fixed parts and of attributes that are not the text of the entry"""
    if t[0] in ('s', 'i'):
        return True
    if t[0] == 'ld':
        return root(t[1])[0] == 'A' and root(t[1])[1] in ('file', 'line', 'function', 'level')
    return t[0] in ('cat', 'fmt') and all(fixed(x) for x in t[1:] if isinstance(x, tuple))


def check_in_task(ck, I, tasks, rule='in task'):
    inst = 'worker task for one message [%s]' % ck.cfg
    ck.ob(rule, inst)
    for st0, ev, rr in tasks:
        for st, _ in rr:
            for e in st.events('thread_start'):
                ck.bad(rule, inst, e, 'the worker task starts a thread', st)
            for e in posts(I, st):
                ck.bad(rule, inst, e, 'the worker task defers work to a queue', st)
