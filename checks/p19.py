"""Shape and definedness inference: array shapes over symbolic sizes are propagated through the program for every legal
combination of options; every public quantity must be defined (no path raises, no shapes clash) and lie on its documented grid."""
from fractions import Fraction

from .common import ADD, HMI, IA, BNL, PK, hod_settings, legal, MODES, INGR, name
from .hodspec import MODELS
from .p17 import kwof, MOD
from sa import graph as G
from sa.arrays import Arr
from sa.depend import node_syms
from sa.drive import SAME, A, S, align_params, hod_params, spectra_kw
from sa.interp import RaiseSig
from sa.values import DictV, ListV, Top

MIN_OBLIGATIONS = 1500

SPECTRA = {f'power_spectrum_{s}.{x}': (('B' if s not in ('mm', 'lin') else 1), 'Z', 'K')
           for s in ('lin', 'mm', 'gg', 'gm', 'mi', 'ii', 'gi') for x in (('pk_tot',) if s == 'lin' else ('pk_1h', 'pk_2h', 'pk_tot'))}
INGREDIENTS = dict(
    mass='M', kh='Q', power='ZQ', nonlinear_power='ZQ', dndlnm='ZM', nu='ZM', halo_bias='ZM', conc_cen='ZM', conc_sat='ZM', r_s_cen='ZM', r_s_sat='ZM',
    rvir_cen='ZM', rvir_sat='ZM', u_dm='ZKM', u_sat='ZKM', nfw_cen='ZKM', nfw_sat='ZKM', mean_density0='Z', mean_density_z='Z', rho_halo='Z',
    halo_overdensity_mean='Z', neff='Z', sigma8_z='Z', fnu='Z', growth_factor='Z', scale_factor='Z', K='Z')
GALAXIES = {'fstar': 'BZM', 'mass_avg': 'BZ', 'power_spectrum_gg.galaxy_linear_bias': 'BZK'}
for _q in ('number_density_cen', 'number_density_sat', 'number_density', 'f_c', 'f_s', 'avg_halo_mass_cen', 'avg_halo_mass_sat', 'avg_halo_mass',
           'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat', 'galaxy_linear_bias'):
    GALAXIES['hod.' + _q] = 'BZ'
for _q in ('hod_cen', 'hod_sat', 'hod', 'stellar_fraction_cen', 'stellar_fraction_sat', 'stellar_fraction'):
    GALAXIES['hod.' + _q] = 'BZM'
OBS = {'obs_func': ('Bo', 'Ho', 'Oo'), 'obs_func_cen': ('Bo', 'Ho', 'Oo'), 'obs_func_sat': ('Bo', 'Ho', 'Oo'), 'obs_func_z': ('Bo', 'Ho')}


def jobs(tier):
    out = []
    for m in MODES:
        for i in INGR:
            if legal(m, i):
                for r in (False, True):
                    out.append(dict(mode=m, ingr=i, response=r))
    for h in MODELS:
        for m, i in ((None, None), ('hmcode', 'mead2020_feedback'), ('bnl', None), ('fortuna', 'fit')):
            out.append(dict(mode=m, ingr=i, hod=h))
            if tier == 'thorough':
                out += [dict(mode=m, ingr=i, hod=h, response=True), dict(mode=m, ingr=i, hod=h, plin=False, pnl=False), dict(mode=m, ingr=i, hod=h, one_bin=True)]
    for x in (dict(plin=False), dict(pnl=False), dict(plin=False, pnl=False, mode='fortuna'), dict(dewiggle=True), dict(dewiggle=True, plin=False, mode='bnl'), dict(kt=False),
              dict(pointmass=True, ingr='fit'), dict(poisson='power_law'), dict(compute_observable=True), dict(compute_observable=True, obs_unit='1/h'), dict(sovirial=True),
              dict(sovirial=True, ingr='mead2020'), dict(slope=Fraction(0)), dict(slope=Fraction(-1)), dict(one_bin=True), dict(one_bin=True, mode='bnl'), dict(one_bin=True, mode='hmcode', ingr='mead2020'),
              dict(one_bin=True, hod='Zheng'), dict(boost=True), dict(boost=True, hod='Zheng'), dict(vec=True, hod='Zehavi'), dict(vec=True, hod='Zheng'), dict(vec=True, hod='Zhai')):
        out.append(x)
    for a in ('constant', 'luminosity', 'halo_mass'):
        for b in ('constant', 'luminosity', 'halo_mass'):
            out.append(dict(cen=a, sat=b))
            if a == 'luminosity':
                out.append(dict(cen=a, sat=b, two=True))
    return out


def dims(d, nb):
    d = [SAME.get(x, x) for x in (nb if x == 'B' else x for x in d)]
    return [G.ix(x) if x == 1 else G.ixn(x) for x in d]


def run(c, cfg):
    c.it.raise_guards.clear()
    n = name(cfg)
    evaluate(c, cfg, n)
    # a refusal that depends on values: only the wavenumber grid of the de-wiggling is asked to be regular
    free = [(s, x) for s, x in c.it.raise_guards if not (node_syms(x) <= {'k_vec'})]
    for site, x in free:
        c.require('no valid data refused', site[1] if site else '', False, 'gives up depending on the values of its input: ' + G.show(x)[:80], site, n)
    c.require('no valid data refused', 'all quantities', not free, 'see above', None, n)


def evaluate(c, cfg, n):
    it = c.it
    cfg = dict(cfg)
    nb = 1 if cfg.pop('one_bin', False) else 'B'
    boost, vec = cfg.pop('boost', False), cfg.pop('vec', False)
    cen, sat, two = cfg.pop('cen', 'halo_mass'), cfg.pop('sat', 'halo_mass'), cfg.pop('two', False)
    kw = dict(spectra_kw(it, **cfg))
    if nb == 1:
        kw['hod_settings'] = hod_settings('', nb=1)
    if boost or vec:
        from sa.drive import HOD
        kw['hod_params'] = hod_params(it, it.get(HOD, cfg.get('hod', 'Cacciato')), S('A_cen') if boost else None, S('A_sat') if boost else None, vec=vec)
    kw['align_params'] = align_params(cfg.get('slope', Fraction(-2)), cen=cen, sat=sat, two=S('beta_two') if two else None)
    try:
        o = it.call(it.get(PK, 'Spectra'), [], kw)
    except RaiseSig as r:
        c.require('constructs', 'Spectra', False, f'construction raises {r.name} in a valid configuration', r.site, n)
        return
    want = {**SPECTRA, **INGREDIENTS, **GALAXIES, **(OBS if cfg.get('compute_observable') else {})}
    for q, d in want.items():
        v = c.val(o, q)
        if isinstance(v, Top):
            c.require('defined', q, False if v.bad else None, f'{v.why}', v.site, n)
            continue
        if not isinstance(v, Arr):
            c.require('grid', q, None if v is not None else False, f'{q} is a {type(v).__name__}', None, n)
            continue
        w = dims(d, nb)
        ok = len(w) == len(v.shape) and all(G.ixkey(x) == G.ixkey(y) for x, y in zip(w, v.shape))
        c.require('grid', q, ok, f'{q} has shape {list(v.shape)}, not {w}', None, n)
