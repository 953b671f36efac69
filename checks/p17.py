"""Two-step histories on one object: every public quantity is evaluated, one parameter is updated, every public quantity is
evaluated again under the exact dependency-index semantics of the quantity cache, and compared, value graph against value
graph, with a newly built object that was given the new value; option flips are followed by an update of every parameter."""
from sa.harness import EQUAL
from fractions import Fraction

from .common import ADD, BNL, HMI, IA, PK, POI, cosmo_kw, hm_kw, spectra_kw
from sa.arrays import Arr
from sa.depend import syms
from sa.drive import A, S, align_params, hod_settings
from sa.interp import RaiseSig
from sa.values import DictV, ListV, ObjV, StrV, Top

MIN_OBLIGATIONS = 200
SIZES = dict(quick=(), thorough=(EQUAL,))

SPECTRA = {
    'default': dict(),
    'feedback': dict(mode='hmcode', ingr='mead2020_feedback'),
    'bnl': dict(mode='bnl'),
    'fortuna': dict(mode='fortuna', response=True),
    'fit': dict(ingr='fit', pointmass=True, compute_observable=True, poisson='power_law'),
    'computed': dict(plin=False, pnl=False, dewiggle=True, kt=False, hod='Zehavi'),
}
OUT = ['power_spectrum_lin.pk_tot'] + [f'power_spectrum_{s}.{x}' for s in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi') for x in ('pk_1h', 'pk_2h', 'pk_tot')] + \
      ['power_spectrum_gg.galaxy_linear_bias', 'mass_avg', 'fstar', 'fstar_mm', 'hod.number_density', 'hod.f_s', 'hod.galaxy_linear_bias']
OBS = ['obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z']


# other values of settings that decide how many terms are computed
COUNTS = dict(ell_max=2, nmass=3, gamma_1h_slope=Fraction(-1))


def renamed(v, name):
    """a different value of the same kind and size, or None for options"""
    if name in COUNTS and not isinstance(v, Arr):
        return COUNTS[name]
    if isinstance(v, bool) or v is None or isinstance(v, (str, StrV)):
        return None
    if isinstance(v, (int, Fraction)):
        return S(name + '~')
    if isinstance(v, Arr):
        return A(name + '~', *v.shape) if v.shape else S(name + '~')
    if isinstance(v, DictV):
        d = {}
        for k, x in v.d.items():
            if k in ('nz', 'nobs') or k == 'gamma_1h_slope':
                continue
            y = renamed(x, f'{name}:{k}')
            if y is not None:
                d[k] = merge(x, y)
        return DictV(d) if d else None
    return None


def merge(old, new):
    if isinstance(old, DictV) and isinstance(new, DictV) and new.d:
        return DictV({**old.d, **new.d})
    return new


def fresh(v):
    """own copy of a value handed to a constructor"""
    return DictV({k: fresh(x) for k, x in v.d.items()}) if isinstance(v, DictV) else v


def kwof(c, cls, cfg):
    it = c.it
    if cls == 'Spectra':
        cfg = dict(SPECTRA[cfg])
        if cfg.get('compute_observable'):
            cfg['align_params'] = align_params(cen='luminosity', sat='luminosity', two=S('beta_two'))
        return dict(spectra_kw(it, **cfg))
    if cls == 'HaloModelIngredients':
        return dict(hm_kw(), hmcode_ingredients=cfg)
    if cls == 'CosmologyBase':
        return dict(cosmo_kw())
    if cls == 'NonLinearBias':
        return dict(mass=A('mass', 'M'), z_vec=A('z_vec', 'Z'), k_vec=A('k_vec', 'K'), h0=S('h0'), sigma_8=S('sigma_8'), A_s=None, omega_b=S('ob'),
                    omega_c=S('oc'), omega_lambda=S('ol'), n_s=S('ns'), w0=S('w0'), z_dep=cfg)
    if cls in ('AlignmentAmplitudes', 'SatelliteAlignment'):
        dep = 'constant' if cfg == 'hankel' else cfg
        kw = dict(align_params(cen=dep, sat=dep, two=None if dep == 'halo_mass' else S('beta_two')).d, z_vec=A('z_vec', 'Z'))
        if cfg == 'hankel':
            # quadrature path; the mass grid is handed over at the working resolution
            kw.update(mass_in=A('mass', 5), c_in=A('conc', 'Z', 5), r_s_in=A('r_s', 'Z', 5), rvir_in=A('rvir', 5), method='hankel', ell_max=4, truncate=True,
                      n_hankel=S('n_hankel'), nmass=5, nk=10)
        elif cls == 'SatelliteAlignment':
            kw.update(mass_in=A('mass', 'M'), c_in=A('conc', 'Z', 'M'), r_s_in=A('r_s', 'Z', 'M'), rvir_in=A('rvir', 'M'), method='fftlog', ell_max=6, truncate=True, nk=100)
        return kw
    if cls == 'UpsampledSpectra':
        kw = dict(spectra_kw(it))
        return dict(z=A('z_out', 'Zx'), k=A('k_out', 'Kx'), fraction_z=A('frac_z', 'Zf'), fraction=A('frac', 'Zf'), model=None,
                    model_1_params=DictV(kw), model_2_params=DictV(dict(h0=S('h0_b'), t_eff=S('t_eff_b'))) if cfg else None, extrapolate_option=S('outside'))


MOD = dict(Spectra=PK, HaloModelIngredients=HMI, CosmologyBase=HMI, NonLinearBias=BNL, AlignmentAmplitudes=IA, SatelliteAlignment=IA, UpsampledSpectra=ADD)


def quantities(o):
    out = []
    for k in o.cls.mro():
        for n, m in getattr(k, 'members', {}).items():
            if m.kind in ('cached', 'prop', 'fcached') and not n.startswith('_') and n not in out:
                out.append(n)
    return out


def outputs(c, cls, o):
    if cls == 'Spectra':
        return OUT + (OBS if o.f.get('compute_observable') is True else [])
    if cls == 'UpsampledSpectra':
        return ['frac_1', 'frac_2'] + [f'power_spectrum_{s}.pk_tot' for s in ('mm', 'gg', 'gm')]
    if cls == 'SatelliteAlignment':
        return quantities(o) + ['upsampled_wkm()']
    return quantities(o)


def evaluate(c, cls, o, paths):
    if cls == 'UpsampledSpectra':
        try:
            c.it.call(c.it.getattr(o, 'results'), [ListV(['mm', 'gg', 'gm']), ListV(['tot'])], {})
        except RaiseSig as r:
            return {p: Top(f'raises {r.name}', r.site, bad=True) for p in paths}
    out = {p: c.val(o, p) for p in paths if not p.endswith('()')}
    if 'upsampled_wkm()' in paths:
        out['upsampled_wkm()'] = c.call(c.attr(o, 'upsampled_wkm'), A('k_up', 'Ku'), o.f['mass_in'] if o.f.get('method') == 'fftlog' and 'mass_in' in o.f else A('m_up', 'Mu'))
    return out


def file_settings(tag, nb=1):
    d = hod_settings(tag, nb=nb).d
    return DictV({**d, 'observables_file': 'obs.txt'})


def flips(c, cls, cfg):
    """(option, starting configuration, new value): every option that selects between computations"""
    it = c.it
    if cls == 'Spectra':
        G_ = it.get
        return [
            ('hmcode_ingredients', {}, 'mead2020_feedback'), ('hmcode_ingredients', dict(ingr='mead2020_feedback'), None), ('hmcode_ingredients', {}, 'fit'),
            ('nonlinear_mode', {}, 'fortuna'), ('nonlinear_mode', dict(ingr='mead2020'), 'hmcode'), ('nonlinear_mode', dict(mode='fortuna'), None),
            ('response', {}, True), ('response', dict(response=True), False),
            ('dewiggle', {}, True), ('pointmass', dict(ingr='fit'), True),
            ('compute_observable', {}, True),
            ('matter_power_lin', {}, None), ('matter_power_nl', dict(response=True), None), ('matter_power_lin', dict(plin=False), A('P_lin', 'Z', 'K')),
            ('one_halo_ktrunc', dict(kt=False), S('one_halo_ktrunc')), ('two_halo_ktrunc', dict(kt=False), S('two_halo_ktrunc')),
            ('one_halo_ktrunc_ia', dict(kt=False), S('one_halo_ktrunc_ia')), ('two_halo_ktrunc_ia', dict(kt=False), S('two_halo_ktrunc_ia')),
            ('align_params', {}, align_params(cen='luminosity', sat='luminosity')),
            ('hod_settings', {}, file_settings('')),
            ('nonlinear_mode', dict(plin=False), 'fortuna'), ('response', dict(plin=False), True),
            ('poisson_model', {}, (G_(POI, 'power_law'), 'poisson_params', DictV({k: S('poisson:' + k) for k in ('poisson', 'pivot', 'slope')}))),
        ]
    if cls == 'HaloModelIngredients':
        return [('hmcode_ingredients', None, 'mead2020_feedback'), ('hmcode_ingredients', 'mead2020_feedback', None)]
    if cls == 'NonLinearBias':
        return [('z_dep', False, True), ('A_s', False, S('A_s'))]
    if cls in ('AlignmentAmplitudes', 'SatelliteAlignment'):
        out = [('central_ia_depends_on', 'constant', 'luminosity'), ('satellite_ia_depends_on', 'constant', 'luminosity'), ('beta_two', 'luminosity', None),
               ('z_loglum_file_centrals', 'luminosity', 'other.fits'), ('z_loglum_file_satellites', 'luminosity', 'other.fits')]
        if cls == 'SatelliteAlignment':
            out += [('method', 'hankel', 'fftlog'), ('truncate', 'constant', False), ('truncate', 'hankel', False), ('ell_max', 'constant', 4), ('ell_max', 'hankel', 2),
                    ('nk', 'hankel', 7), ('nk', 'constant', 40)]
        return out
    if cls == 'UpsampledSpectra':
        return [('fraction', True, None), ('model_2_params', False, DictV(dict(h0=S('h0_b'))))]
    return []


GROUPS = {
    'cosmology': ('h0', 'omega_c', 'omega_b', 'w0', 'wa', 'n_s', 'tcmb', 'Neff', 'm_nu', 'sigma_8', 'log10T_AGN'),
    'redshift': ('z_vec',),
    'grid': ('k_vec', 'Mmin', 'Mmax', 'dlog10m', 'lnk_min', 'lnk_max', 'dlnk'),
    'halo': ('overdensity', 'delta_c', 'norm_cen', 'norm_sat', 'eta_cen', 'eta_sat', 'transfer_params', 'growth_params'),
    'galaxies': ('hod_params', 'hod_settings', 'hod_settings_mm', 'obs_settings', 'poisson_params'),
    'power': ('matter_power_lin', 'matter_power_nl', 'mb', 'one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia', 't_eff'),
    'alignment': ('align_params',),
}


def jobs(tier):
    out = []
    for cfg in SPECTRA:
        out.append(('Spectra', cfg, 'index'))
        out += [('Spectra', cfg, 'all'), ('Spectra', cfg, 'one by one')]
    out += [('Spectra', 'default', ('group', g)) for g in GROUPS]
    rest = [('HaloModelIngredients', x) for x in (None, 'mead2020_feedback')] + [('CosmologyBase', None)]
    rest += [('NonLinearBias', z) for z in (False, True)]
    rest += [(k, d) for k in ('AlignmentAmplitudes', 'SatelliteAlignment') for d in ('constant', 'luminosity', 'halo_mass')]
    rest += [('SatelliteAlignment', 'hankel')]
    rest += [('UpsampledSpectra', x) for x in (True, False)]
    for k, x in rest:
        out += [(k, x, 'index'), (k, x, 'all'), (k, x, 'one by one')]
        if k != 'HaloModelIngredients' or tier == 'thorough':
            out.append((k, x, ('single', 0, 1)))
    out += [('Spectra', 'flip', i) for i in range(23)]
    out += [(k, 'flip', None) for k in MOD if k not in ('Spectra', 'CosmologyBase')]
    if tier == 'thorough':
        out += [('Spectra', cfg, ('single', i, 8)) for cfg in SPECTRA for i in range(8)]
    return out


def comparable(v):
    """values the judge can number: arrays and numbers"""
    return isinstance(v, (Arr, int, Fraction)) and not isinstance(v, bool) or isinstance(v, Top)


def run(c, job):
    cls, cfg, part = job
    if cfg == 'flip':
        for i, f in enumerate(flips(c, cls, cfg)):
            if part is None or part == i:
                flip(c, cls, *f)
        return
    it = c.it
    K = it.get(MOD[cls], cls)
    kw = kwof(c, cls, cfg)
    names = [p for p in sorted(kw) if renamed(kw[p], p) is not None]
    if part == 'index':
        return index(c, cls, cfg, K, kw, names)
    if part == 'all':
        sets = [[names]]
    elif part == 'one by one':
        sets = [[[p] for p in reversed(names)]]
    elif part[0] == 'group':
        sets = [[[p for p in GROUPS[part[1]] if p in names]]]
    else:
        sets = [[[p]] for p in names[part[1]::part[2]]]
    for updates in sets:
        o = it.call(K, [], {k: fresh(v) for k, v in kw.items()})
        paths = outputs(c, cls, o)
        evaluate(c, cls, o, paths)
        new = {k: fresh(v) for k, v in kw.items()}
        what = ' '.join(updates[0]) if len(updates) == 1 and len(updates[0]) < 3 else part if isinstance(part, str) else part[1]
        ok = True
        for group in updates:
            vals = {p: renamed(kw[p], p) for p in group}
            for p in group:
                new[p] = merge(kw[p], vals[p])
            try:
                it.call(it.getattr(o, 'update'), [], {attrname(o, p): fresh(v) for p, v in vals.items()})
            except RaiseSig as r:
                c.require('update', f'{cls}.{" ".join(group[:3])}', False, f'update raises {r.name}', r.site, f'{cls},{cfg}')
                ok = False
        if not ok:
            continue
        want = it.call(K, [], {k: fresh(v) for k, v in new.items()})
        compare(c, cls, 'update-equals-fresh', f'{cls}.{what}', f'{cls},{cfg}', o, want, paths)


def attrname(o, p):
    return p if o.cls.lookup(p)[1] is not None or p in o.f else '_' + p


def compare(c, cls, rule, subject, where, o, want, paths):
    got, exp = evaluate(c, cls, o, paths), evaluate(c, cls, want, paths)
    for q in paths:
        if comparable(exp[q]) and comparable(got[q]) and not isinstance(exp[q], Top):
            c.expect(rule, subject, got[q], exp[q], f'{where},{q}')
        elif isinstance(exp[q], Top):
            c.require(rule, subject, None, f'{q} of a new object is not followed: {exp[q].why}', exp[q].site, f'{where},{q}')


def index(c, cls, cfg, K, kw, names):
    """every cached quantity is indexed under every parameter its value is computed from"""
    o = c.it.call(K, [], {k: fresh(v) for k, v in kw.items()})
    evaluate(c, cls, o, outputs(c, cls, o))
    indexed(c, 'indexed', lambda q: f'{cls}.{q}', f'{cls},{cfg}', o, kw, '')


def indexed(c, rule, subject, where, o, kw, when):
    owner = {}
    for p in sorted(kw):
        for s in syms(kw[p]):
            owner.setdefault(s, set()).add(p)
    for q, v in sorted(o.qval.items()):
        have = {n.lstrip('_') for n in o.prpa.get(q, ())}
        miss = sorted({'/'.join(sorted(owner[s])) for s in syms(v) if s in owner and not {n.lstrip('_') for n in owner[s]} & have})
        c.require(rule, subject(q), not miss, f'{when}{q} is computed from {", ".join(miss[:4])} but is not recomputed when it is updated', None, where)
    for q, v in sorted(o.fixed.items()):
        miss = sorted({p for s in syms(v) for p in owner.get(s, ())})
        c.require(rule, subject(q), not miss, f'{q} is computed once and never again, but depends on {", ".join(miss[:4])}', None, where)


def flip(c, cls, opt, start, new):
    it = c.it
    K = it.get(MOD[cls], cls)
    kw = dict(spectra_kw(it, **start)) if cls == 'Spectra' else kwof(c, cls, start)
    extra = {}
    if isinstance(new, tuple):
        new, k2, v2 = new
        extra = {k2: v2}
    base = lambda: {k: fresh(v) for k, v in kw.items()}
    n = f'{cls},{opt}'

    o = it.call(K, [], base())
    paths = outputs(c, cls, o)
    evaluate(c, cls, o, paths)
    attr = attrname(o, opt)
    try:
        it.call(it.getattr(o, 'update'), [], {attr: fresh(new), **{k: fresh(v) for k, v in extra.items()}})
    except RaiseSig as r:
        c.require('option-equals-fresh', f'{cls}.{opt}', False, f'update raises {r.name}', r.site, n)
        return
    want = it.call(K, [], {**base(), opt: merge(kw[opt], new), **extra})
    compare(c, cls, 'option-equals-fresh', f'{cls}.{opt}', n, o, want, paths)
    # what the cache will recompute after the next update
    indexed(c, 'option-keeps-dependencies', lambda q: f'{cls}.{opt}', n, o, {**kw, opt: merge(kw[opt], new), **extra}, f'after {opt} is changed, ')
    # the option together with another parameter, in one update, before everything was evaluated
    for p in ('sigma_8', 'z_vec', 'gamma_1h_amplitude', 'z'):
        if p in kw and renamed(kw[p], p) is not None and p != opt:
            o = it.call(K, [], base())
            evaluate(c, cls, o, [q for q in paths if '_lin.' in q or '_mm.' in q] or paths[:1])
            it.call(it.getattr(o, 'update'), [], {attr: fresh(new), p: renamed(kw[p], p), **{k: fresh(v) for k, v in extra.items()}})
            want = it.call(K, [], {**base(), opt: merge(kw[opt], new), p: renamed(kw[p], p), **extra})
            compare(c, cls, 'option-with-parameter', f'{cls}.{opt}', n, o, want, [q for q in paths if 'pk_2h' not in q] if cls == 'Spectra' else paths)
            break
