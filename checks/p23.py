"""The CosmoSIS module is interpreted abstractly on a symbolic data block and option set for every kind of run; every parameter
of the halo model it evaluates is compared, value graph against value graph, with the value its documented source in the
block or options gives it, or with the documented default where the source is absent."""
from fractions import Fraction

from .common import PK
from .cosmosis import CONFIGS, SIZES, IFACE, Run, block, options, wrap
from sa import blockmodel
from sa.arrays import Arr
from sa.interp import RaiseSig
from sa.values import ClassV, DictV, ExtObj, ExtV, StrV, Top

MIN_OBLIGATIONS = 300


def jobs(tier):
    return list(CONFIGS) + ['refuse', 'refresh']


def plain(v):
    """name of a model class, string or flag"""
    if isinstance(v, ClassV):
        return v.name
    if isinstance(v, ExtV):
        return v.path.split('.')[-1]
    if isinstance(v, ExtObj) and v.kind == 'extmodel':
        return plain(v.f['name'])
    if isinstance(v, StrV):
        return v.node
    return v


def same(c, rule, subject, got, want, n):
    if isinstance(want, dict):
        if isinstance(got, Top):
            c.require(rule, subject, False if got.bad else None, got.why, got.site, n)
            return
        if not isinstance(got, DictV):
            c.require(rule, subject, False, f'a table of settings is expected, found {got!r:.60}', None, n)
            return
        for k, w in want.items():
            if k not in got.d:
                c.require(rule, f'{subject}[{k}]', w is None, f'{k} is not handed over', None, n)
            else:
                same(c, rule, f'{subject}[{k}]', got.d[k], w, n)
        return
    if isinstance(got, Top):
        c.require(rule, subject, False if got.bad else None, got.why, got.site, n)
        return
    a, b = plain(got), plain(want)
    if b is None or isinstance(b, (bool, str)) or isinstance(want, StrV) or a is None or isinstance(a, (bool, str)) or isinstance(got, (StrV, ClassV)):
        c.require(rule, subject, a is b if b is None or isinstance(b, bool) else a == b, f'is {got!r:.60}, its source says {want!r:.60}', None, n)
        return
    c.expect(rule, subject, got, want, n)


def run(c, name):
    if name == 'refuse':
        return refuse(c)
    if name == 'refresh':
        return refresh(c)
    r = Run(c, name)
    if r.err is not None:
        c.require('evaluates', 'execute', False, f'raises {r.err.name}', r.err.site, name)
        return
    c.require('reports success', 'execute', not (isinstance(r.status, (int, Fraction)) and r.status != 0), f'a good run returns {r.status}', None, name)
    if len(r.models) != 1:
        c.require('evaluates', 'execute', None, f'{len(r.models)} halo models were evaluated', None, name)
        return
    p = r.models[0]
    e = r.expected()
    if r.align:
        e['hod_settings'] = r.settings('ia_1' if r.cfg.get('split') else 'ia')
    judge(c, 'input', p, e, name)
    # repeated executions: the model of the second sample is that of its own block
    again(c, r, name)


def judge(c, rule, p, e, name):
    ref = built(c, e)
    for k, w in e.items():
        if (isinstance(w, Arr) and not w.shape or isinstance(w, Fraction)) and ref is not None:
            w = c.attr(ref, k)      # in the form the model keeps the parameter in
        same(c, rule, k, c.attr(p, k), w, name)


def built(c, e):
    try:
        return c.it.call(c.it.get(PK, 'Spectra'), [], {k: wrap(v) for k, v in e.items()})
    except RaiseSig:
        return None


def again(c, r, name):
    """a second sample of the same pipeline gets its own values, nothing of the first"""
    from .p17 import renamed
    it = c.it
    b2 = {}
    for k, v in r.b.items():
        w = renamed(v, 'second:' + '.'.join(k)) if isinstance(v, Arr) else None
        b2[k] = v if w is None else w
    blk = blockmodel.make(b2, 'second')
    p = r.models[0]
    it.created = []
    try:
        it.call(it.get(IFACE, 'execute'), [blk, r.conf], {})
    except RaiseSig as x:
        c.require('evaluates', 'second execute', False, f'raises {x.name}', x.site, name)
        return
    finally:
        made = [x for x in it.created if x.cls.name == 'Spectra' and x.qval]
        it.created = None
    if made:
        p = made[-1]
    r.b = b2
    e = r.expected()
    if r.align:
        e['hod_settings'] = r.settings('ia_1' if r.cfg.get('split') else 'ia')
    judge(c, 'second sample', p, e, name)


def refresh(c):
    """the emulated non-linear bias is that of the last sample at which a refresh was due, everything else that of the sample"""
    from .p17 import renamed
    it = c.it
    for every in (2, 3):
        name = f'refresh every {every}'
        r = Run(c, name, dict(ps='gg', bins=1, mode='bnl', update=every))
        if r.err is not None or len(r.models) != 1:
            c.require('evaluates', 'execute', None if r.err is None else False, f'fails: {r.err}', None, name)
            continue
        p, b0, blocks = r.models[0], r.b, []
        for n in range(2 * every + 1):
            b = {k: (renamed(v, f'sample{n}:' + '.'.join(k)) if n and isinstance(v, Arr) else None) for k, v in b0.items()}
            b = {k: b0[k] if v is None else v for k, v in b.items()}
            blocks.append(b)
            if n:
                try:
                    it.call(it.get(IFACE, 'execute'), [blockmodel.make(b, f'sample{n}'), r.conf], {})
                except RaiseSig as x:
                    c.require('evaluates', f'sample {n + 1}', False, f'raises {x.name}', x.site, name)
                    break
            r.b = blocks[n - n % every]
            bnl = r.expected()['beta_nl']
            r.b = b
            e = r.expected()
            e['beta_nl'] = bnl
            judge(c, f'sample {n + 1}', p, e, name)


def refuse(c):
    """a parameter the chosen models need and the block lacks stops the run"""
    it = c.it
    for cfgname in ('galaxies', 'galaxies-2', 'galaxies-only', 'lensing-only'):
        cfg = CONFIGS[cfgname]
        needed = [k for k in block(cfg) if k[0] == 'hodvals' and k[1] not in ('A_cen', 'A_sat')]
        needed += [('pk_parameters', p) for p in (('poisson', 'pivot', 'slope') if cfg.get('poisson') == 'power_law' else ('poisson',))]
        for k in needed:
            b = block(cfg)
            del b[k]
            try:
                conf = it.call(it.get(IFACE, 'setup'), [blockmodel.make(options(cfg), 'options')], {})
                it.call(it.get(IFACE, 'execute'), [blockmodel.make(b, 'block'), conf], {})
                ok = False
            except RaiseSig:
                ok = True
            c.require('missing parameter is refused', '.'.join(k), ok, 'the run goes on without it', None, cfgname)
