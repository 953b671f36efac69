"""Run one property check: obligations, known findings, evidence, exit status."""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import drive
from . import graph as G
from .interp import AnalysisError, Interp, RaiseSig
from .judge import Verdict, compare
from .values import ObjV, Top

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ONEPOWER_SRC', '/repo')


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.it = Interp(REPO)
        self.sp = Interp(VERIF)
        self.obligations = 0
        self.points = 0
        self.undecided = []
        self.violations = []   # dict(key, where, what)
        self.rules = {}
        self.configs = set()
        self.suffix = ''
        self.assumptions = []
        self.counts = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # specification functions -------------------------------------------
    def F(self, mod):
        return SpecMod(self, mod)

    # program values ------------------------------------------------------
    def val(self, o, path):
        """public quantity by dotted path; RaiseSig becomes a bad Top"""
        for p in path.split('.'):
            o = self.attr(o, p)
            if isinstance(o, Top):
                return o
        return o

    def attr(self, o, name):
        if isinstance(o, ObjV) and o.cls.lookup(name)[1] is None and name not in o.f:
            # renamed or removed internal quantity: nothing to compare with
            return Top(f'{o.cls.name} offers no {name}')
        try:
            return self.it.getattr(o, name)
        except RaiseSig as r:
            return Top(f'raises {r.name}', r.site, bad=True)

    def call(self, f, *args, **kw):
        try:
            return self.it.call(f, list(args), kw)
        except RaiseSig as r:
            return Top(f'raises {r.name}', r.site, bad=True)

    # verdicts --------------------------------------------------------------
    def rule(self, name):
        self.rules[name] = self.rules.get(name, 0) + 1

    def expect(self, rule, subject, code, spec, config='', **kw):
        """code value must equal the specified value"""
        self.obligations += 1
        self.rule(rule)
        if config:
            self.configs.add(str(config) + self.suffix)
        v = compare(code, spec, rich=self.thorough, **kw)
        self.points += v.points
        return self.record(rule, subject, v, config)

    def expect_any(self, rule, subject, code, specs, config=''):
        """code value must equal one of several equivalent forms"""
        self.obligations += 1
        self.rule(rule)
        if config:
            self.configs.add(str(config) + self.suffix)
        last = None
        for s in specs:
            v = compare(code, s, rich=self.thorough)
            self.points += v.points
            if v.status == 'ok':
                return self.record(rule, subject, v, config)
            last = last or v
        return self.record(rule, subject, last, config)

    def require(self, rule, subject, cond, why, site=None, config=''):
        self.obligations += 1
        self.rule(rule)
        if config:
            self.configs.add(str(config) + self.suffix)
        if cond is None:
            return self.record(rule, subject, Verdict('undecided', why, site), config)
        return self.record(rule, subject, Verdict('ok' if cond else 'violated', why, site), config)

    def record(self, rule, subject, v, config=''):
        if v.status == 'undecided':
            self.undecided.append(dict(rule=rule, subject=subject, config=str(config) + self.suffix, why=v.why, where=fmt(v.site)))
        elif v.status == 'violated':
            self.violations.append(dict(rule=rule, subject=subject, config=str(config) + self.suffix, why=v.why, where=fmt(v.site)))
        return v.status == 'ok'


def fmt(site):
    if site is None:
        return ''
    return f'{site[0]}:{site[2]} in {site[1]}'


class SpecMod:
    def __init__(self, ctx, mod):
        self._c = ctx
        self._m = ctx.sp.load('spec.' + mod)

    def __getattr__(self, name):
        f = self._m.frame.f[name]

        def call(*a, **k):
            if any(isinstance(x, Top) for x in list(a) + list(k.values())):
                return next(x for x in list(a) + list(k.values()) if isinstance(x, Top))
            site = G.CUR_SITE[0]
            try:
                return self._c.sp.call(f, list(a), k)
            finally:
                G.CUR_SITE[0] = site

        return call


def load_known():
    """known_findings.txt:  KNOWN <property> <rule> <subject> :: <text>"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN '):
                head, _, text = line[6:].partition(' :: ')
                parts = head.split()
                out.append((parts[0], parts[1], ' '.join(parts[2:]), text))
    return out


_CTX = {}


EQUAL = tuple((x, 'M') for x in ('B', 'H', 'O', 'Z', 'K', 'Bo', 'Ho', 'Oo', 'Hm', 'Om'))
ONE_BIN = (('B', 1), ('Bo', 1))
ONE_Z = (('Z', 1),)
# besides axes of arbitrary different sizes: all axes of one size, one galaxy bin, one redshift
SIZES = dict(quick=(EQUAL, ONE_BIN), thorough=(EQUAL, ONE_BIN, ONE_Z))


def _work(args):
    pid, tier, job, verbose = args
    mod = importlib.import_module('checks.' + pid.lower())
    c = Ctx(pid, tier)
    if 'it' in _CTX and getattr(mod, 'SHARE', True):
        c.it, c.sp = _CTX['it'], _CTX['sp']
    _CTX['it'], _CTX['sp'] = c.it, c.sp
    n0, s0 = len(G._table), c.it.call_sites
    c.it.findings.clear()
    c.it.effects.clear()
    drive.SAME.clear()
    if isinstance(job, tuple) and job and job[0] == '@same':
        # the same obligations with some axis sizes equal: code that chooses between arrays by their size is told apart
        drive.SAME.update(job[1])
        c.suffix = ',' + {ONE_BIN: 'one bin', ONE_Z: 'one redshift'}.get(job[1], 'equal sizes')
        job = job[2]
    try:
        if job is None:
            mod.check(c)
        else:
            mod.run(c, job)
    except AnalysisError as e:
        return str(e)
    except RaiseSig as e:
        c.violations.append(dict(rule='evaluates', subject='analysis', config=str(job), why=f'raises {e.name}', where=fmt(e.site)))
    except Exception as e:
        # a construct the analyser cannot follow: undecided, never an alarm
        if verbose:
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.undecided.append(dict(rule='analysis', subject=pid, config=str(job), why=f'{e!r} at {tb.filename}:{tb.lineno}', where=fmt(G.CUR_SITE[0])))
    return dict(obligations=c.obligations, points=c.points, undecided=c.undecided, violations=c.violations, rules=c.rules,
                configs=c.configs, fn_seen=c.it.fn_seen, call_sites=c.it.call_sites - s0, nodes=len(G._table) - n0,
                counts=c.counts, assumptions=c.assumptions)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier or 'quick'
    t0 = time.time()
    pid = a.property
    mod = importlib.import_module('checks.' + pid.lower())
    ev_dir = os.environ.get('VERIF_EVDIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    jobs = list(mod.jobs(tier)) if hasattr(mod, 'jobs') else [None]
    jobs += [('@same', m, j) for m in getattr(mod, 'SIZES', SIZES)[tier] for j in jobs]
    procs = int(os.environ.get('VERIF_PROCS', '0') or 0) or min(len(jobs), os.cpu_count() or 1, 8)
    c = Ctx(pid, tier)
    nodes = 0
    err = None
    if procs <= 1:
        results = [_work((pid, tier, j, a.v)) for j in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(procs) as pool:
            results = pool.map(_work, [(pid, tier, j, a.v) for j in jobs], chunksize=1)
    for r in results:
        if isinstance(r, str):
            err = err or r
            continue
        c.obligations += r['obligations']
        c.points += r['points']
        c.undecided += r['undecided']
        c.violations += r['violations']
        for k, n in r['rules'].items():
            c.rules[k] = c.rules.get(k, 0) + n
        c.configs |= r['configs']
        c.it.fn_seen |= r['fn_seen']
        c.it.call_sites += r['call_sites']
        nodes += r['nodes']
        for k, n in r['counts'].items():
            c.counts[k] = c.counts[k] + n if isinstance(n, int) and k in c.counts else n
        for x in r['assumptions']:
            if x not in c.assumptions:
                c.assumptions.append(x)
    if err:
        print(f'ANALYSIS-ERROR property={pid}: {err}')
        return 2
    known = [k for k in load_known() if k[0] == pid]
    new, seen = [], {}
    for v in c.violations:
        hit = None
        for k in known:
            if k[1] == v['rule'] and k[2] == v['subject']:
                hit = k
                break
        if hit is None:
            new.append(v)
        else:
            seen[hit] = seen.get(hit, 0) + 1
    for k in known:
        if k in seen:
            print(f'KNOWN-FINDING: property={pid} {k[1]} {k[2]}: {k[3]}')
    rc = 0
    if new:
        rep = os.path.join(ev_dir, f'{pid}.violation.json')
        with open(rep, 'w') as f:
            json.dump(new, f, indent=1)
        shown = set()
        for v in new:
            s = f'  {v["rule"]}: {v["subject"]} [{v["config"]}] at {v["where"]}: {v["why"]}'
            if s not in shown and len(shown) < 12:
                print(s)
                shown.add(s)
        print(f'VIOLATION property={pid} replay={rep}')
        rc = 1
    nonvac = c.obligations
    if nonvac < getattr(mod, 'MIN_OBLIGATIONS', 1) and not c.undecided and not new:
        print(f'ANALYSIS-ERROR property={pid}: only {nonvac} obligations were generated, at least {mod.MIN_OBLIGATIONS} expected')
        return 2
    fns = sorted(f'{p}:{q}' for p, q in c.it.fn_seen)
    ev = {
        'property': pid,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'static value-graph analysis of the current source: ' + mod.__doc__.strip().replace('\n', ' '),
            'obligations': c.obligations,
            'discharged': c.obligations - len(c.violations) - len(c.undecided),
            'undecided': len(c.undecided),
            'undecided_detail': c.undecided[:20],
            'element_positions_compared': c.points,
            'rules': c.rules,
            'configurations': len(c.configs),
            'functions_analysed': len(fns),
            'functions': fns,
            'call_sites_resolved': c.it.call_sites,
            'value_graph_nodes': nodes,
            **c.counts,
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': c.assumptions,
        'violations': [f'{v["rule"]}: {v["subject"]} at {v["where"]}: {v["why"]}' for v in c.violations][:50],
    }
    with open(os.path.join(ev_dir, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {c.obligations} obligations, {len(c.violations)} violated ({len(new)} new), {len(c.undecided)} undecided, '
          f'{len(fns)} functions, {len(c.configs)} configurations, {time.time() - t0:.1f}s')
    for u in c.undecided[:5]:
        print('  undecided:', u)
    return rc


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.exit(main())
