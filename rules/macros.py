"""C15: log statements and contract checks as the application writes them."""
from rules.common import *
from rules import pipeline as pl, fatal as ft

LEVELED = ['log_stream', 'log_if', 'log_printf', 'log_printf_if', 'log_if_or', 'log_printf_if_or', 'log_choice', 'log_printf_choice',
           'log_info', 'log_debug', 'log_debug_printf', 'log_warning']
CHECKS = ['check_stream', 'check_printf', 'check_printf2', 'check_and', 'check_printf_and', 'check_printf2_and', 'check_bits', 'check_printf_bits', 'check_printf2_bits']
NESTED = {'nested_log': 'log', 'nested_log_if': 'log', 'nested_logf': 'log', 'nested_logf_if': 'log',
          'nested_check': 'check', 'nested_checkf': 'check', 'nested_check_f': 'check'}
ENABLED = ('nz', A('enabled'))
MESSAGE = ('text', 'arg')
CONDITION = ('condition', 'condition2', 'bits')


def level_filter(I, st, c):
    I.emit(st, 'filter', c.node, c.fr, level=c.args[0].loc)
    return [(st, ENABLED)]


def registry(p):
    return [k for k, g in p.globals.items() if 'std::map' in g['t'] and 'LoggingLevel' in g['t'] and not g.get('const')]


def macro_run(ck, fn, level=False, check=False, worker='set'):
    """every run of a function of the application that consists of one statement"""
    p = ck.prog()
    h = macro_hooks(p)
    h['g3::logLevel'] = level_filter
    h.update({k: v for k, v in ft.die_hooks(p).items() if k == ft.DIE})
    f = p.fn('probe::' + fn)
    I = interp(p, h, frozen=ft.handlers(p) + ft.wait_flags(p) if check else None) if check else interp(p, h)
    st = I.new_state()
    if level is not None:
        level_arg(p, I, st, level)
    set_worker(p, I, st, worker)
    return I, f, I.run_fn(f, st=st)


def macro_paths(ck, *a):
    I, f, res = macro_run(ck, *a)
    return I, res


def truth(I, st, t):
    fs = path_facts(I, st)
    for x in (t, ('nz', t), t[1] if t[0] == 'nz' else t):
        if x in fs:
            return fs[x]
    return None


def condition_of(I, st, fn):
    """truth of the condition of the statement, None if the path does not depend on it"""
    if fn.endswith('_bits'):
        for t, b in path_facts(I, st).items():
            if mentions(t, lambda y: y == A('bits')):
                x = t
                while x[0] == 'nz' or x[0] == 'op' and x[1] == 'b':
                    x = x[1] if x[0] == 'nz' else x[2]
                if x[0] == 'op' and x[1] == '&':
                    return b
                if t[0] == '==' and ('i', 0) in t:
                    return not b
                return 'other'
        return None
    a = truth(I, st, ('nz', A('condition')))
    if not (fn.endswith('_or') or fn.endswith('_and')):
        return a
    b = truth(I, st, ('nz', A('condition2')))
    if fn.endswith('_or'):
        return True if True in (a, b) else (False if a is False and b is False else None)
    return False if False in (a, b) else (True if a is True and b is True else None)


def exprs(st, *what):
    return [e for e in st.events('expr') if e.what in what]


def check_leveled(ck):
    p = ck.prog()
    dyn = bool(registry(p))
    for fn in LEVELED:
        inst = '%s [%s]' % (fn, ck.cfg)
        f = p.fn('probe::' + fn)
        for r in ('disabled', 'enabled', 'filter'):
            ck.ob(r, inst, where_fn(f))
        I, f, res = macro_run(ck, fn)
        n = {'on': 0, 'off': 0}
        has_cond = '_if' in fn
        for st, _ in live(ck.clean(I, res, 'enabled', inst)):
            on = truth(I, st, ENABLED)
            asked = st.events('filter')
            cond = condition_of(I, st, fn) if has_cond else True
            ev = exprs(st, *MESSAGE)
            ps = posts(I, st)
            if not asked and dyn and (ps or ev) and cond is not False:
                if any(e.get('loc') is not None and root(e.loc) == ('G', k) for e in st.events('find', 'cread', 'rd') for k in registry(p)):
                    ck.undecided('filter', inst, 'the level is looked up in a way that is not recognised')
                else:
                    ck.bad('filter', inst, (ps or ev)[0], 'the statement does not ask whether its level is enabled', st)
            for e in asked:
                if fn in ('log_stream', 'log_if', 'log_printf', 'log_printf_if', 'log_if_or', 'log_printf_if_or') and e.level is not None and e.level != LEVEL:
                    ck.undecided('filter', inst, 'level asked for: %s' % show(e.level))
                if e.level is not None and e.level[0] == 'G':
                    lv = p.globals.get(e.level[1], {})
                    want = {'log_info': 'INFO', 'log_debug': 'DEBUG', 'log_debug_printf': 'DEBUG', 'log_warning': 'WARNING'}.get(fn)
                    if want and not e.level[1].split('@')[0].endswith(want):
                        ck.bad('filter', inst, e, 'the statement asks for the level %s, its level is %s' % (e.level[1], want), st)
            for c in CONDITION:
                if len(exprs(st, c)) > 1:
                    ck.bad('enabled', inst, exprs(st, c)[1], 'the condition of a log statement is evaluated more than once', st)
            if (on is False and asked) or cond is False:
                n['off'] += 1
                why = 'its level is disabled' if on is False and asked else 'its condition is false'
                if st.comp is not None:
                    ck.bad('disabled', inst, endsite(st, f), 'a log statement does not return although %s (%s)' % (why, st.comp), st)
                for e in ev:
                    ck.bad('disabled', inst, where_stmt(f), 'the log statement evaluates a message expression although %s' % why, st)
                for e in ps:
                    ck.bad('disabled', inst, e, 'the log statement hands over an entry although %s' % why, st)
                continue
            if has_cond and cond is None:
                if ps or ev:
                    ck.bad('disabled', inst, where_stmt(f), 'the log statement does not test its condition', st)
                elif on is not False:
                    ck.bad('enabled', inst, endsite(st, f), 'nothing is logged although level and condition allow it', st)
                continue
            if on is None and dyn and not (ps or ev):
                ck.bad('enabled', inst, where_stmt(f), 'nothing is logged, whatever the level', st)
                continue
            n['on'] += 1
            if st.comp is not None:
                ck.bad('enabled', inst, endsite(st, f), 'a log statement does not return (%s)' % (st.comp,), st)
                continue
            if len(ps) != 1:
                ck.bad('enabled', inst, ps[1] if ps else where_stmt(f), 'an enabled log statement hands over %d entries' % len(ps), st)
            need = ['text'] + (['arg'] if fn in ('log_printf', 'log_printf_if', 'log_debug_printf') else [])
            for w in need:
                k = len(exprs(st, w))
                if k != 1:
                    ck.bad('enabled', inst, where_stmt(f), 'a message expression of an enabled log statement is evaluated %d times' % k, st)
        for st, _ in live(ck.clean(*macro_paths(ck, fn, False, False, 'none'), 'disabled', inst)):
            on = truth(I, st, ENABLED)
            if on is False and st.events('filter') or has_cond and condition_of(I, st, fn) is False:
                for e in exprs(st, *MESSAGE):
                    ck.bad('disabled', inst, where_stmt(f), 'before initialization, the log statement evaluates a message expression although its level is disabled or its condition false', st)
                if st.comp is not None or st.events('enter') and any(e.fn and e.fn.startswith('LogCapture::') for e in st.events('enter')):
                    ck.bad('disabled', inst, where_stmt(f), 'before initialization, a log statement has an effect although its level is disabled or its condition false', st)
        ck.need(bool(n['on'] or ck.viol), 'enabled runs of %s' % fn)
        ck.need(bool(n['off'] or ck.viol or not (dyn or has_cond)), 'disabled runs of %s' % fn)


def where_stmt(f):
    return 'g3log/g3log.hpp:0 (macro used in %s)' % f['sn']


def is_fatal_post(p, I, e):
    return any(I.recof(I.ltype.get(l) or '') and I.p.subclass_of(I.recof(I.ltype[l]), 'g3::FatalMessage') for l in locations(e))


def locations(e):
    out = set()
    for k, v in e.st.store.items():
        x = k
        while True:
            out.add(x)
            if x[0] not in ('F', 'D', 'E') or not isinstance(x[1], tuple):
                break
            x = x[1]
    return out


def check_checks(ck):
    p = ck.prog()
    for fn in CHECKS:
        inst = '%s [%s]' % (fn, ck.cfg)
        f = p.fn('probe::' + fn)
        for r in ('once', 'passed', 'failed'):
            ck.ob(r, inst, where_fn(f))
        I, f, res = macro_run(ck, fn, None, True)
        n = {True: 0, False: 0}
        for st, _ in live_or_waiting(ck.clean(I, res, 'failed', inst)):
            cond = condition_of(I, st, fn)
            got = {c: len(exprs(st, c)) for c in CONDITION}
            first = 'bits' if fn.endswith('_bits') else 'condition'
            for c in CONDITION:
                want = (1,) if c == first else ((0, 1) if c == 'condition2' and fn.endswith('_and') else (0,))
                if got[c] not in want:
                    ck.bad('once', inst, where_stmt(f), 'the condition of a contract check is evaluated %d times' % got[c], st)
            ev = exprs(st, *MESSAGE)
            ps = posts(I, st)
            if cond == 'other':
                ck.bad('failed', inst, where_stmt(f), 'the contract check compares its condition instead of testing it', st)
                continue
            if cond is None:
                if first == 'condition' and got[first]:
                    ck.bad('failed', inst, where_stmt(f), 'the contract check does not depend on its condition', st)
                continue
            n[cond] += 1
            if cond:
                if st.comp is not None:
                    ck.bad('passed', inst, endsite(st, f), 'a contract check that holds does not return (%s)' % (st.comp,), st)
                elif ev or ps:
                    ck.bad('passed', inst, ps[0] if ps else where_stmt(f), 'a contract check that holds has an effect', st)
                continue
            k = {w: len(exprs(st, w)) for w in MESSAGE}
            if k['text'] != 1 or (fn in ('check_printf', 'check_printf2') and k['arg'] != 1):
                ck.bad('failed', inst, where_stmt(f), 'a message expression of a failed check is evaluated %d times' % k['text'], st)
            if len(ps) != 1:
                if st.comp is None or st.comp[0] == 'noret' and not ps:
                    ck.bad('failed', inst, ps[1] if ps else endsite(st, f), 'a failed contract check hands over %d entries' % len(ps), st)
                continue
            if not is_fatal_post(p, I, ps[0]):
                ck.bad('failed', inst, ps[0], 'a failed contract check is not a fatal event', st)
            if st.comp is None:
                ck.bad('failed', inst, endsite(st, f), 'the application continues after a failed contract check', st)
            level = [I._read(ps[0].st, F(l, levels_value(p))) for l in locations(ps[0]) if l[0] == 'F' and I.recof(I.ltype.get(l) or '') == 'LEVELS' and 'atal' in (I.ltype.get(l[1]) or '')]
            for v in level:
                if v[0] == 'i' and v[1] != 2000:
                    ck.undecided('failed', inst, 'level of the entry: %s' % v[1])
        ck.need(bool((n[True] and n[False]) or ck.viol), 'passed and failed runs of %s' % fn)


def live_or_waiting(res):
    return res


def check_nested(ck):
    """every macro is one statement: the else of the application belongs to the if of the application"""
    p = ck.prog()
    outer_f = None
    for fn, kind in NESTED.items():
        inst = '%s [%s]' % (fn, ck.cfg)
        f = p.fn('probe::' + fn)
        ck.ob('single statement', inst, where_fn(f))
        I, f, res = macro_run(ck, fn, False if kind == 'log' else None, kind == 'check')
        n = set()
        for st, _ in ck.clean(I, res, 'single statement', inst):
            o = truth(I, st, A(f['params'][0]['n']))
            other = exprs(st, 'other')
            if o is None:
                ck.bad('single statement', inst, where_stmt(f), 'the statement runs without the condition around it', st)
                continue
            n.add(o)
            if o and other:
                ck.bad('single statement', inst, where_stmt(f), 'the else of the application belongs to the macro: it runs although its condition is true', st)
            if not o and len(other) != 1:
                ck.bad('single statement', inst, where_stmt(f), 'the else of the application does not run: the macro is not a single statement', st)
            if not o and (exprs(st, *MESSAGE) or exprs(st, *CONDITION) or exprs(st, 'level') or posts(I, st)):
                ck.bad('single statement', inst, where_stmt(f), 'a part of the macro runs although the condition around it is false', st)
        ck.need(bool(len(n) == 2 or ck.viol), 'both branches around %s' % fn)


def c15(ck):
    for cfg in ['default', 'dynlevels'] + (['nosignals', 'fullname', 'dynsize'] if ck.tier == 'thorough' else []):
        ck.cfg = cfg
        check_leveled(ck)
        check_checks(ck)
        check_nested(ck)
    ck.cfg = 'default'
