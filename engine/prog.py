"""Merged program model: the extractor's output for all units of one build configuration."""
import json, os, re, subprocess, tempfile, shutil, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('G3_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRACT = os.path.join(HERE, 'build', 'extract')
PROBE = os.path.join(HERE, 'probe', 'probe.cpp')

CONFIGS = {
    'default': [],
    'dynlevels': ['-DUSE_DYNAMIC_LOGGING_LEVELS=ON'],
    'dynsize': ['-DUSE_G3_DYNAMIC_MAX_MESSAGE_SIZE=ON'],
    'fullname': ['-DG3_LOG_FULL_FILENAME=ON'],
    'nosignals': ['-DENABLE_FATAL_SIGNALHANDLING=OFF'],
}


class AnalysisError(Exception):
    """The analysis itself could not be carried out (vanished anchor, unparsable code)."""


_op = re.compile(r'operator\s*(\(\)|\[\]|<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|\+\+|--|&&|\|\||[-+*/%^&|~!=<>,]=?|)')


def strip(n):
    """qualified name without template arguments and inline namespaces"""
    out = []
    d = 0
    i = 0
    while i < len(n):
        if n.startswith('operator', i) and (i == 0 or n[i - 1] in ': '):
            m = _op.match(n, i)
            if d == 0:
                if m.group(1):
                    out.append('operator' + m.group(1))
                    i = m.end()
                    continue
                out.append('operator')
            i += 8
            continue
        c = n[i]
        if c == '<':
            d += 1
        elif c == '>':
            if n[i - 1] != '-':
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    for x in ('__cxx11::', '_V2::', '__1::'):
        s = s.replace(x, '')
    return s


SPLIT = {}      # (global, field): the location that stands for it


class Prog:
    def __init__(self, units, config):
        self.config = config
        self.types, self.records, self.functions, self.globals = {}, {}, {}, {}
        self.units = [u['tag'] for u in units]
        for u in units:
            for k, v in u['types'].items():
                if v is not None:
                    self.types.setdefault(k, v)
            for k, v in u['records'].items():
                o = self.records.get(k)
                if o is None:
                    self.records[k] = v
                elif 'fields' not in o and 'fields' in v or ('caps' not in o and 'caps' in v):
                    self.records[k] = v
                elif v.get('methods'):      # member templates differ by unit
                    have = {m['id'] for m in o.get('methods', [])}
                    o.setdefault('methods', []).extend(m for m in v['methods'] if m['id'] not in have)
            for k, v in u['functions'].items():
                if v is not None:
                    self.functions.setdefault(k, v)
            for k, v in u['globals'].items():
                o = self.globals.get(k)
                if o is None or ('init' not in o and 'init' in v):
                    self.globals[k] = v
        self.by_name = {}
        for k, f in self.functions.items():
            f['id'] = k
            f['sn'] = strip(f['n'])
            self.by_name.setdefault(f['sn'], []).append(k)
        for k, r in self.records.items():
            r['id'] = k
            r['sn'] = 'lambda' if r.get('lambda') else strip(r['name'])
        self.rec_by_name = {}
        for k, r in self.records.items():
            self.rec_by_name.setdefault(r['sn'], []).append(k)
        self.local_statics()
        self.split_globals()
        # which records derive from which
        self.derived = {}
        for k, r in self.records.items():
            for b in r.get('bases', []):
                self.derived.setdefault(b, []).append(k)

    def local_statics(self):
        """a static of a function whose initializer does not mention the function's locals starts like a global"""
        def local(e):
            if isinstance(e, dict):
                return e.get('k') == 'this' or e.get('k') == 'var' and e.get('vk') in ('local', 'param') or any(local(v) for v in e.values())
            return isinstance(e, list) and any(local(v) for v in e)

        def walk(n):
            if isinstance(n, dict):
                if n.get('s') == 'decl':
                    for v in n.get('vars', ()):
                        if v.get('static') and 'init' in v and v.get('id') in self.globals and not local(v['init']):
                            self.globals[v['id']].setdefault('sinit', v['init'])
                for v in n.values():
                    walk(v)
            elif isinstance(n, list):
                for v in n:
                    walk(v)
        for f in self.functions.values():
            walk(f.get('body'))

    def split_globals(self):
        """a global of a record type of the library stands for one global for each of its fields"""
        todo = list(self.globals.items())
        while todo:
            k, g = todo.pop()
            rec = self.rec(g['t'])
            r = self.records.get(rec)
            if g.get('const') or not r or r.get('lambda') or r.get('bases') or not r.get('fields') or not r.get('repo'):
                continue
            g['split'] = {}
            for f in r['fields']:
                if not f.get('n'):
                    continue
                a, at, b = k.partition('@')
                nk = '%s.%s%s%s' % (a, f['n'], at, b) if '::' not in b else '%s.%s' % (k, f['n'])
                n = {'n': '%s.%s' % (g.get('n', k), f['n']), 't': f['t'], 'parent': k, 'file': g.get('file', ''), 'line': g.get('line', 0)}
                if 'init' in g:
                    n['init'] = g['init']
                if 'sinit' in g:
                    n['sinit'] = g['sinit']
                if g.get('tls'):
                    n['tls'] = g['tls']
                if f['t'].startswith('const '):
                    n['const'] = True
                g['split'][f['n']] = nk
                SPLIT[('G', k), f['n']] = ('G', nk)
                self.globals[nk] = n
                todo.append((nk, n))

    # ----- lookups
    def ty(self, t):
        return self.types.get(t) or {}

    def isrec(self, t):
        return self.ty(t).get('k') == 'rec'

    def unref(self, t):
        x = self.ty(t)
        return x['el'] if x.get('k') in ('lref', 'rref') else t

    def rec(self, t):
        x = self.ty(t)
        return x.get('rec') if x.get('k') == 'rec' else None

    def recname(self, key):
        r = self.records.get(key)
        return r['sn'] if r else strip(key or '')

    def isrepo(self, key):
        r = self.records.get(key)
        return bool(r and (r.get('repo') or r.get('lambda')) and 'fields' in r)

    def fns(self, sn, cls_pred=None):
        return [self.functions[k] for k in self.by_name.get(sn, [])]

    def fn(self, sn, pred=None, required=True):
        c = [f for f in self.fns(sn) if pred is None or pred(f)]
        if not c:
            if required:
                raise AnalysisError('anchor vanished: function %s not found (configuration %s)' % (sn, self.config))
            return None
        return c[0]

    def methods_of(self, reckey):
        return [f for f in self.functions.values() if f.get('rec') == reckey]

    def subclass_of(self, key, base):
        if key == base:
            return True
        r = self.records.get(key)
        return bool(r) and any(self.subclass_of(b, base) for b in r.get('bases', []))

    def dtor(self, key):
        r = self.records.get(key)
        d = r and r.get('dtor')
        return self.functions.get(d) if d else None


def configure(config, scratch):
    d = os.path.join(scratch, config)
    cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DADD_G3LOG_UNIT_TEST=OFF', '-DADD_FATAL_EXAMPLE=OFF',
           '-DADD_G3LOG_BENCH_PERFORMANCE=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + CONFIGS[config]
    env = dict(os.environ, CC='clang', CXX='clang++')
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    db = os.path.join(d, 'compile_commands.json')
    if r.returncode or not os.path.exists(db):
        raise AnalysisError('cmake failed for configuration %s:\n%s' % (config, r.stdout.decode(errors='replace')[-2000:]))
    units = []
    for e in json.load(open(db)):
        f = os.path.realpath(os.path.join(e['directory'], e['file']))
        if not f.startswith(REPO + '/src/'):
            continue
        args = e.get('arguments') or __import__('shlex').split(e['command'])
        flags = []
        it = iter(args[1:])
        for a in it:
            if a in ('-o', '-MF', '-MT', '-MQ'):
                next(it)
                continue
            if a in ('-c', '-MD', '-MMD') or os.path.realpath(os.path.join(e['directory'], a)) == f:
                continue
            if a.startswith('-D') or a.startswith('-I') or a.startswith('-std') or a.startswith('-f') or a.startswith('-U'):
                flags.append(a)
            elif a in ('-isystem', '-include'):
                flags += [a, next(it)]
        units.append((f, flags))
    if len({u[0] for u in units}) < 1:
        raise AnalysisError('no library translation unit found for configuration %s' % config)
    return d, units


def load(config, scratch=None):
    own = scratch is None
    scratch = scratch or tempfile.mkdtemp(prefix='g3static.')
    try:
        d, units = configure(config, scratch)
        seen = set()
        jobs = []
        flags0 = None
        for f, flags in units:
            if f in seen:
                continue
            seen.add(f)
            flags0 = flags0 or flags
            jobs.append((f, os.path.splitext(os.path.basename(f))[0], flags))
        pflags = [x for x in flags0 if not x.startswith('-Dg3log_EXPORTS')]
        jobs.append((PROBE, 'probe', pflags))
        roots = ':'.join([os.path.realpath(os.path.join(REPO, 'src')), os.path.dirname(PROBE), os.path.join(d, 'include')])

        def run(job):
            f, tag, flags = job
            out = os.path.join(d, 'x_%s.json' % tag)
            r = subprocess.run([EXTRACT, out, tag, roots, f, '--'] + flags, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, cwd=d)
            if r.returncode or not os.path.exists(out):
                raise AnalysisError('cannot analyse %s (configuration %s):\n%s' % (f, config, r.stdout.decode(errors='replace')[-3000:]))
            return json.loads(open(out, 'rb').read().decode('utf-8', 'replace'))
        with ThreadPoolExecutor(8) as ex:
            us = list(ex.map(run, jobs))
        return Prog(us, config)
    finally:
        if own:
            shutil.rmtree(scratch, ignore_errors=True)


# ----------------------------------------------------------------- whole-program summaries
def walk(n):
    """every node below n"""
    if isinstance(n, dict):
        if 'k' in n or 's' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


LOOPS = ('for', 'while', 'do', 'range')
EFFECT = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::lock_guard', 'std::unique_lock',
          'std::scoped_lock', 'std::shared_lock', 'std::condition_variable', 'std::thread', 'std::jthread', 'std::future', 'std::promise',
          'std::packaged_task', 'std::atomic', 'std::__atomic_base', 'std::basic_ofstream', 'std::basic_fstream', 'std::basic_filebuf',
          'std::call_once', 'std::this_thread', 'kjellkod')
EFFECT_FN = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'terminate', 'raise', 'kill', 'sigaction', 'signal', 'sigprocmask',
             'pthread_sigmask', 'write', 'fwrite', 'fputs', 'printf', 'fprintf', 'rename', 'remove', 'unlink', 'fopen', 'sleep',
             'usleep', 'nanosleep', 'perror', 'open'}


def summaries(p):
    """per function: callees, loops, direct effects; closed over the call graph"""
    if hasattr(p, '_summ'):
        return p._summ
    S = {}
    for k, f in p.functions.items():
        callees, ext, loop, eff, cout = set(), set(), False, False, False
        nodes = [f.get('body')] + [i.get('e') for i in f.get('inits', [])]
        for n in walk(nodes):
            if n.get('s') in LOOPS:
                loop = True
            kk = n.get('k')
            if kk == 'lambda':
                r = p.records.get(n.get('rec'), {})
                callees.update(k for k in [r.get('callop')] + r.get('callops', []) if k in p.functions)
            fn = n.get('fn')
            if fn:
                if fn in p.functions:
                    callees.add(fn)
                else:
                    nm = strip(n.get('n') or '')
                    ext.add(nm)
                    base = nm[5:] if nm.startswith('std::') else nm
                    if base.endswith('get_id'):
                        pass
                    elif base in EFFECT_FN or any(nm == e or nm.startswith(e + '::') for e in EFFECT):
                        eff = True
            if kk == 'ctor' and any(p.recname(n.get('rec') or '') == e for e in EFFECT):
                eff = True
            if kk == 'var' and n.get('vk') in ('global', 'static'):
                g = p.globals.get(n.get('id'), {})
                if not g.get('const'):
                    eff = True
            if kk in ('new', 'del', 'throw'):
                pass
        S[k] = {'callees': callees, 'ext': ext, 'loop': loop, 'eff': eff}
    ch = True
    for s in S.values():
        s['tloop'], s['teff'] = s['loop'], s['eff']
    while ch:
        ch = False
        for s in S.values():
            for c in s['callees']:
                o = S[c]
                for a in ('tloop', 'teff'):
                    if o[a] and not s[a]:
                        s[a] = ch = True
    p._summ = S
    return S


def pure_text(p):
    """functions that only compute a string: no locks, atomics, global state, I/O or threads anywhere below them"""
    if hasattr(p, '_pt'):
        return p._pt
    S = summaries(p)
    out = set()
    for k, f in p.functions.items():
        if f.get('lambda') or f.get('kind') in ('ctor', 'dtor') or 'body' not in f:
            continue
        if p.recname(p.rec(f.get('ret') or '') or '') != 'std::basic_string':
            continue
        if S[k]['teff']:
            continue
        bad = 'rec' in f and not f.get('cm') and not f.get('sm')
        for q in f['params']:
            t = p.ty(q['t'])
            if t.get('k') == 'lref' and not q['t'].startswith('const '):
                bad = True
            if t.get('k') == 'rref' or 'unique_ptr' in q['t'] or 'basic_ofstream' in q['t'] or 'function<' in q['t']:
                bad = True
        if not bad and S[k]['tloop']:
            out.add(k)
    p._pt = out
    return out
