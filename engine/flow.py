"""Pieces shared by the rules: how to follow work from one thread to the next."""
from interp import *
import stdmodel


def is_task_push(I, e):
    """a callable put into a container: the hand-over of work to another thread"""
    v = e.val
    if v is None:
        return False
    if v[0] in ('func', 'closure', 'bind', 'ptask'):
        return True
    t = I.ltype.get(e.elem)
    return bool(t) and I.p.recname(I.recof(t) or '') == 'std::function'


def posts(I, st):
    return [e for e in st.events('push') if is_task_push(I, e)]


def run_task(I, ev, extra=None):
    """run, on another thread and at a later time, the callable handed over by a push event"""
    s = ev.st.fork()
    s.ev = None
    s.locks = ()
    s.scopes = ((),)
    s.depth, s.inl = 0, ()
    s.meta['thread'] = s.meta.get('thread', 0) + 1
    s.comp = None
    keep = s.store.get(ev.elem)
    loc = I.heap(I.ltype.get(ev.elem))
    sub = {rebase(k, ev.elem, loc): v for k, v in s.store.items() if is_prefix(ev.elem, k)}
    I.havoc(s)
    s.store.update(sub)
    s.store[loc] = keep
    s.facts = {a: v for a, v in s.facts.items() if not I._stale(a, s)}
    if extra:
        extra(s)
    fr = I.entry_frame('task')
    try:
        return I.invoke_loc(s, loc, [], fr, None, None)
    except Limit as e:
        I.incomplete.append('task: %s' % e)
        return []
