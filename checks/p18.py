"""Evaluation has no side effects: alias tags follow the storage of every input and of every cached result through views,
containers and calls; an in-place write reaching tagged storage is a violation. Evaluation in the opposite order, and
evaluation next to a second object with different parameters, must give the same value graphs."""
from .common import HMI, HOD, IA, PK, cosmo_kw, hod_settings
from .hodspec import MODELS
from .p17 import MOD, OBS, SPECTRA, comparable, evaluate, fresh, kwof, merge, outputs, renamed
from sa.arrays import Arr
from sa.depend import syms
from sa.drive import A, S, hod_params
from sa.interp import RaiseSig
from sa.values import DictV, ListV, ObjV, SeqV, Top

MIN_OBLIGATIONS = 150


def tagged(v, t):
    """the same value, its storage marked as the caller's"""
    if isinstance(v, Arr):
        return Arr(v.shape, v._at, alias=v.alias | {t}, base=v.base, boolean=v.boolean, isarr=v.isarr)
    if isinstance(v, DictV):
        return DictV({k: tagged(x, t) for k, x in v.d.items()}, alias=v.alias | {t}, rest=v.rest)
    if isinstance(v, ListV):
        return ListV([tagged(x, t) for x in v.items], v.alias | {t})
    if isinstance(v, tuple):
        return tuple(tagged(x, t) for x in v)
    return v


def snapshot(v):
    if isinstance(v, DictV):
        return {k: (x, snapshot(x)) for k, x in v.d.items()}
    if isinstance(v, ListV):
        return [(x, snapshot(x)) for x in v.items]
    if isinstance(v, ObjV):
        return {k: (v.f[k], snapshot(v.f[k])) for k in v.f if (v.cls.lookup(k)[1] or v).__dict__.get('kind') == 'param'}
    return None


def differs(v, s):
    if isinstance(v, ObjV):
        return next((f'setting {k}' for k, (x, d) in s.items() if v.f.get(k) is not x or d is not None and differs(x, d)), None)
    if isinstance(v, DictV):
        if list(v.d) != list(s):
            return 'entries ' + ', '.join(sorted(set(map(str, v.d)) ^ set(map(str, s))) or ['reordered'])
        for k, x in v.d.items():
            if x is not s[k][0]:
                return f'entry {k}'
            d = differs(x, s[k][1])
            if d:
                return f'{k}: {d}'
    if isinstance(v, ListV):
        if len(v.items) != len(s) or any(x is not y[0] for x, y in zip(v.items, s)):
            return 'elements'
    return None


def jobs(tier):
    out = [('Spectra', x) for x in SPECTRA]
    out += [('HaloModelIngredients', x) for x in (None, 'mead2020_feedback')] + [('CosmologyBase', None)]
    out += [('NonLinearBias', z) for z in (False, True)]
    out += [(k, d) for k in ('AlignmentAmplitudes', 'SatelliteAlignment') for d in ('constant', 'luminosity', 'halo_mass')]
    out += [('SatelliteAlignment', 'hankel')]
    out += [('UpsampledSpectra', x) for x in (True, False, 'given')]
    out += [(m, b) for m in MODELS for b in ('limits', 'table')]
    return [(a, b, p) for a, b in out for p in ('effects', 'order', 'two')]


def inputs(c, cls, cfg):
    if cfg == 'given':
        # a model built by the caller is handed over
        kw = kwof(c, cls, True)
        return c.it.get(MOD[cls], cls), dict(kw, model=c.it.call(c.it.get(PK, 'Spectra'), [], dict(kw['model_1_params'].d)), model_1_params=None)
    if cls not in MODELS:
        return c.it.get(MOD[cls], cls), kwof(c, cls, cfg)
    K = c.it.get(HOD, cls)
    cosmo = c.val(c.it.call(c.it.get(HMI, 'CosmologyBase'), [], cosmo_kw()), 'cosmo_model')
    par = hod_params(c.it, K, S('hod:A_cen'), S('hod:A_sat'))
    return K, dict(cosmo=cosmo, mass=A('mass', 'M'), dndlnm=A('dndlnm', 'Z', 'M'), halo_bias=A('halo_bias', 'Z', 'M'), z_vec=A('z_vec', 'Z'),
                   hod_settings=hod_settings('', file=cfg == 'table'), **par.d)


def run(c, job):
    cls, cfg, part = job
    it = c.it
    K, kw = inputs(c, cls, cfg)
    where = f'{cls},{cfg}'
    if part == 'effects':
        it.effects.clear()
        mine = {k: tagged(v, f'input:{k}') for k, v in kw.items()}
        before = {k: snapshot(v) for k, v in mine.items()}
        o = it.call(K, [], mine)
        paths = outputs(c, cls, o)
        vals = evaluate(c, cls, o, paths)
        for k, v in mine.items():
            d = differs(v, before[k]) if before[k] is not None else None
            c.require('input-unchanged', f'{cls}.{k}', not d, f'evaluation changed the {k} the caller passed: {d}', None, where)
        hit = {}
        for tags, site, what in it.effects:
            for t in tags:
                if t.startswith(('input:', 'cached:')):
                    hit.setdefault(t, (site, what))
        for k in mine:
            h = hit.get(f'input:{k}')
            c.require('input-storage', f'{cls}.{k}', h is None, f'{h and h[1]} writes into the storage of the input {k}', h and h[0], where)
        for q in sorted(o.qval):
            h = next((hit[t] for t in hit if t.startswith('cached:') and t.endswith('.' + q)), None)
            c.require('result-storage', f'{cls}.{q}', h is None, f'{h and h[1]} writes into the storage of the already computed {q}', h and h[0], where)
        for t, h in hit.items():
            if t.startswith('cached:') and t.split('.')[-1] not in o.qval:
                c.require('result-storage', t[7:], False, f'{h[1]} writes into the storage of the already computed {t[7:]}', h[0], where)
    elif part == 'order':
        a = it.call(K, [], {k: fresh(v) for k, v in kw.items()})
        b = it.call(K, [], {k: fresh(v) for k, v in kw.items()})
        paths = outputs(c, cls, a)
        va = evaluate(c, cls, a, paths)
        vb = evaluate(c, cls, b, paths[::-1])
        vc = evaluate(c, cls, a, paths)
        for q in paths:
            if isinstance(va[q], Top):
                c.require('order', f'{cls}.{q}', None, f'not followed: {va[q].why}', va[q].site, where)
                continue
            if comparable(va[q]) and comparable(vc[q]):
                c.expect('asked-again', f'{cls}.{q}', vc[q], va[q], where)
            if comparable(va[q]) and comparable(vb[q]):
                c.expect('order', f'{cls}.{q}', vb[q], va[q], where)
    else:
        # a second object with different parameters, built and evaluated in between
        names = [p for p in sorted(kw) if renamed(kw[p], p) is not None]
        kw2 = {**kw, **{p: merge(kw[p], renamed(kw[p], p)) for p in names}}
        own1 = {s for p in names for s in syms(kw[p])} - {s for p in names for s in syms(kw2[p])}
        own2 = {s for p in names for s in syms(kw2[p])} - {s for p in names for s in syms(kw[p])}
        a = it.call(K, [], {k: fresh(v) for k, v in kw.items()})
        paths = outputs(c, cls, a)
        half = paths[::2]
        evaluate(c, cls, a, half)
        b = it.call(K, [], {k: fresh(v) for k, v in kw2.items()})
        vb = evaluate(c, cls, b, paths)
        va = evaluate(c, cls, a, paths)
        for q in paths:
            for v, foreign, w in ((va[q], own2, 'first'), (vb[q], own1, 'second')):
                if not comparable(v) or isinstance(v, Top):
                    continue
                f = sorted(syms(v) & foreign)
                c.require('two-objects', f'{cls}.{q}', not f, f'{q} of the {w} of two objects is computed from {", ".join(f[:4])} of the other', None, where)
