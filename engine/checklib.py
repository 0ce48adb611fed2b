"""Obligations, verdicts, evidence."""
import json, os, sys, time, traceback
import prog as _prog
from prog import AnalysisError
from interp import Interp, Limit, show

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ck:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.progs = {}
        self.obs = {}            # (rule, instance) -> dict
        self.viol = {}           # key -> dict
        self.und = []
        self.stats = {'configurations': [], 'functions_interpreted': set(), 'paths': 0, 'events': 0, 'sites': set()}
        self.assumptions = []
        self.t0 = time.time()
        self.cfg = 'default'

    # ---- programs
    def prog(self, cfg=None):
        cfg = cfg or self.cfg
        if cfg not in self.progs:
            self.progs[cfg] = _prog.load(cfg)
            if cfg not in self.stats['configurations']:
                self.stats['configurations'].append(cfg)
        return self.progs[cfg]

    def preload(self, cfgs):
        from concurrent.futures import ThreadPoolExecutor
        need = [c for c in cfgs if c not in self.progs]
        with ThreadPoolExecutor(len(need) or 1) as ex:
            for c, p in zip(need, ex.map(_prog.load, need)):
                self.progs[c] = p
                self.stats['configurations'].append(c)

    def seen(self, I, results=()):
        self.stats['functions_interpreted'] |= {I.p.functions[i]['n'] for i in I.inlined if i in I.p.functions}
        self.stats['paths'] += len(results)
        for r in results:
            st = r[0]
            if st.ev is not None:
                self.stats['events'] += st.ev.n + 1

    # ---- obligations
    def ob(self, rule, inst, where=''):
        """declare an obligation; it counts as discharged unless violated or undecided later"""
        o = self.obs.setdefault((rule, inst), {'rule': rule, 'instance': inst, 'where': where, 'status': 'holds', 'cases': 0})
        o['cases'] += 1
        if where and not o['where']:
            o['where'] = where
        return o

    def bad(self, rule, inst, site, msg, st=None, ev=None):
        """a violation, anchored at a source construct"""
        o = self.ob(rule, inst)
        o['status'] = 'violated'
        if hasattr(site, 'where'):
            ev = site
            site = site.where()
        key = '%s | %s | %s' % (rule, inst, site_fn(site))
        if key not in self.viol:
            self.viol[key] = {'key': key, 'rule': rule, 'instance': inst, 'site': site, 'message': msg,
                              'trace': trace(st) if st is not None else [], 'config': self.cfg}

    def never(self, rule, inst, site, msg, st=None):
        """something that must happen on some path happens on none of those followed: a violation if all were followed"""
        lost = [w for (r, i), o in self.obs.items() for w in o.get('why', ()) if w.startswith(('approximated', 'incomplete')) and i.split('[')[-1] == inst.split('[')[-1]]
        if lost:
            return self.undecided(rule, inst, '%s, on the paths that were followed; %s' % (msg, lost[0]))
        self.bad(rule, inst, site, msg, st)

    def undecided(self, rule, inst, why):
        o = self.ob(rule, inst)
        if o['status'] == 'holds':
            o['status'] = 'undecided'
        o.setdefault('why', [])
        if why not in o['why']:
            o['why'].append(why)

    def need(self, n, what, least=1):
        """instance count guard: a rule that matches nothing is an analysis error"""
        if n < least and any(o['status'] == 'undecided' for o in self.obs.values()):
            self.undecided('anchors', what, 'matched %d instance(s) after paths were given up, expected at least %d' % (n, least))
        elif n < least:
            raise AnalysisError('%s: matched %d instance(s), expected at least %d' % (what, n, least))

    def clean(self, I, results, rule, inst):
        """paths the analysis followed without losing precision; the rest make the obligation undecided"""
        self.seen(I, results)
        if I.incomplete:
            self.undecided(rule, inst, 'incomplete: ' + '; '.join(sorted(set(I.incomplete)))[:300])
        out = []
        for r in results:
            st = r[0]
            if st.marks:
                self.undecided(rule, inst, 'approximated: ' + '; '.join(sorted(st.marks))[:300])
            else:
                out.append(r)
        return out


def site_fn(site):
    """the part of a site that survives unrelated edits: file and function"""
    import re
    m = re.match(r'(.*?):\d+ \((.*)\)$', site or '')
    return '%s (%s)' % (m.group(1), m.group(2)) if m else (site or '')


SKIP = ('rd', 'cread', 'alloc')


def trace(st, limit=120):
    out = []
    for e in st.events():
        if e.k in SKIP:
            continue
        out.append(repr(e)[:240])
    if len(out) > limit:
        out = out[:40] + ['... %d more ...' % (len(out) - limit)] + out[-(limit - 40):]
    out.append('ends: %s' % (st.comp,))
    return out


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def triage(ck):
    """violations the known-findings file lists, and the others"""
    kf = [k for k in known_findings()['findings'] if k['property'] == ck.prop]
    listed, new = [], []
    for v in ck.viol.values():
        m = [k for k in kf if k['rule'] == v['rule'] and k['instance'] in (v['instance'], v['instance'].split(' [')[0]) and k.get('site') in (None, site_fn(v['site']))]
        (listed if m else new).append((v, m[0] if m else None))
    return listed, new


def fresh(ck):
    return triage(ck)[1]


def finish(ck, level, technique, glossary):
    wall = time.time() - ck.t0
    listed, fresh = triage(ck)
    obs = list(ck.obs.values())
    hold = [o for o in obs if o['status'] == 'holds']
    und = [o for o in obs if o['status'] == 'undecided']
    cov = {
        'obligations': len(obs), 'discharged': len(hold),
        'undecided': len(und),
        'known_findings': len(listed),
        'checker_cmd': 'python3 check.py %s %s' % (ck.prop, ck.tier),
        'trusted_base': TRUSTED,
        'technique': technique,
        'rules': ['%s: %s' % (r, glossary.get(r, '')) for r in sorted({o['rule'] for o in obs})],
        'configurations': ck.stats['configurations'],
        'paths_examined': ck.stats['paths'],
        'path_effects_recorded': ck.stats['events'],
        'functions_interpreted': sorted(ck.stats['functions_interpreted']),
        'instances': [{k: o[k] for k in ('rule', 'instance', 'where', 'status', 'cases', 'why') if k in o} for o in obs],
        'explanation': 'Static: clang syntax trees of the library, its headers and an analysis-only instantiation unit are '
                       'interpreted abstractly along every path; nothing of the library is executed.',
    }
    ev = {'property': ck.prop, 'tier': ck.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'assumptions': ck.assumptions, 'wall_s': round(wall, 3), 'violations': len(fresh)}
    evd = os.environ.get('G3_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, ck.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v, k in listed:
        print('KNOWN-FINDING: property=%s %s (%s)' % (ck.prop, k['what'], v['site']))
    if fresh:
        d = os.environ.get('G3_REPLAY', os.path.join(HERE, 'build', 'replay'))
        os.makedirs(d, exist_ok=True)
        for i, (v, _) in enumerate(fresh):
            path = os.path.join(d, '%s-%d.txt' % (ck.prop, i))
            with open(path, 'w') as f:
                f.write('property %s\nrule     %s\ninstance %s\nsite     %s\nconfig   %s\n\n%s\n\npath:\n' % (
                    ck.prop, v['rule'], v['instance'], v['site'], v['config'], v['message']))
                f.write('\n'.join('  ' + t for t in v['trace']) + '\n')
            print('%s: [%s] %s: %s' % (v['site'], v['rule'], v['instance'], v['message']))
            print('VIOLATION property=%s replay=%s' % (ck.prop, path))
        return 1
    print('%s: %d obligations, %d discharged, %d undecided, %d known; %d paths, %d functions, %.1f s' % (
        ck.prop, len(obs), len(hold), len(und), len(listed), ck.stats['paths'], len(ck.stats['functions_interpreted']), wall))
    for o in und:
        print('  undecided: %s / %s: %s' % (o['rule'], o['instance'], '; '.join(o.get('why', []))[:200]))
    return 0


TRUSTED = [
    'clang 18 front end (parsing, overload resolution, template instantiation)',
    'tools/extract.cpp (syntax tree export), engine/interp.py (abstract interpreter)',
    'engine/stdmodel.py (model of the C++ standard library and libc calls the repository uses)',
    'C++ standard library, libc and kernel behave as documented',
]
