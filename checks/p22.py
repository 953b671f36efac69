"""Each observable bin and each redshift stands alone: the value graph of a spectrum at bin b and redshift z of a model with
any number of bins and redshifts must have the value number of the same spectrum of a model that was given only that bin and
that redshift."""
from .common import PK
from .p17 import HMI, OBS, kwof
from sa import graph as G
from sa.arrays import Arr
from sa.drive import HOD, A, S, align_params, hm_kw, hod_params, hod_settings, spectra_kw
from sa.values import DictV, ListV, Top

MIN_OBLIGATIONS = 100

CFGS = {
    'default': dict(),
    'mead': dict(ingr='mead2020'), 'virial': dict(sovirial=True),
    'feedback': dict(mode='hmcode', ingr='mead2020_feedback'),
    'bnl': dict(mode='bnl'),
    'fortuna': dict(mode='fortuna', response=True),
    'fit': dict(ingr='fit', pointmass=True, compute_observable=True, poisson='power_law'),
    'computed': dict(plin=False, pnl=False, dewiggle=True, kt=False),
    'Zehavi': dict(hod='Zehavi'), 'Zheng': dict(hod='Zheng'), 'Zhai': dict(hod='Zhai'),
    'luminosity': dict(lum=True),
    'assembly': dict(assembly=True),
    'Zehavi per bin': dict(hod='Zehavi', vec=True), 'Zheng per bin': dict(hod='Zheng', vec=True),
}
PKS = [f'power_spectrum_{s}.{x}' for s in ('gg', 'gm', 'mi', 'ii', 'gi') for x in ('pk_1h', 'pk_2h', 'pk_tot')]
MM = ['power_spectrum_lin.pk_tot'] + [f'power_spectrum_mm.{x}' for x in ('pk_1h', 'pk_2h', 'pk_tot')]
BZ = ['power_spectrum_gg.galaxy_linear_bias', 'mass_avg', 'fstar', 'hod.number_density', 'hod.number_density_cen', 'hod.number_density_sat', 'hod.f_c', 'hod.f_s', 'hod.galaxy_linear_bias',
      'hod.avg_halo_mass_cen', 'hod.avg_halo_mass_sat', 'hod.hod', 'hod.hod_cen', 'hod.hod_sat']
ZZ = ['dndlnm', 'halo_bias', 'nu', 'neff', 'sigma8_z', 'growth_factor', 'scale_factor', 'mean_density0', 'mean_density_z', 'conc_cen', 'conc_sat', 'r_s_cen', 'r_s_sat',
      'rvir_cen', 'rvir_sat', 'u_dm', 'u_sat', 'rho_halo', 'halo_overdensity_mean', 'power', 'nonlinear_power', 'fstar_mm']
AMP = ['wkm_sat', 'C1', 'alignment_amplitude_2h', 'alignment_amplitude_2h_II']


def pick(v, axis_sizes, sel):
    """v with the axes of the given symbolic sizes restricted to one position"""
    if isinstance(v, DictV):
        return DictV({k: pick(x, axis_sizes, sel) for k, x in v.d.items()}, rest=v.rest)
    if isinstance(v, Arr) and v.shape:
        keys = [G.ixkey(s) for s in v.shape]
        if not any(k in sel for k in keys):
            return v
        sh = tuple(G.ix(1) if k in sel else s for k, s in zip(keys, v.shape))
        return Arr(sh, lambda ii: v.at(tuple(sel[k] if k in sel else i for k, i in zip(keys, ii))))
    return v


def jobs(tier):
    return [(n, w, p) for n in CFGS for w in ('bin', 'redshift') for p in ((1,) if tier == 'quick' else (0, 1, 2))]


def kw(c, n):
    cfg = dict(CFGS[n])
    it = c.it
    if cfg.pop('lum', None):
        cfg['align_params'] = align_params(cen='luminosity', sat='luminosity', two=S('beta_two'))
    if cfg.pop('assembly', None):
        cfg['hod_params'] = hod_params(it, it.get(HOD, 'Cacciato'), a_cen=S('A_cen'), a_sat=S('A_sat'))
    if cfg.pop('vec', None):
        cfg['hod_params'] = hod_params(it, it.get(HOD, cfg['hod']), vec=True)
    k = dict(spectra_kw(it, **cfg))
    if 'align_params' in cfg:
        k['align_params'] = cfg['align_params']
    return k


def run(c, job):
    n, w, p = job
    it = c.it
    K = it.get(PK, 'Spectra')
    full = kw(c, n)
    size = 'B' if w == 'bin' else 'Z'
    pos = G.ix(p)
    sel = {G.ixkey(G.ixn(size)): pos}
    one = {k: pick(v, None, sel) for k, v in full.items()}
    a = it.call(K, [], full)
    b = it.call(K, [], one)
    outs = PKS + BZ if w == 'bin' else MM + ZZ + (AMP if n != 'luminosity' else [])  # the luminosity distribution is binned around the given redshifts
    ax = 0 if w == 'bin' else 1
    for q in outs:
        va, vb = c.val(a, q), c.val(b, q)
        if not isinstance(va, Arr) or not isinstance(vb, Arr):
            if isinstance(va, Top) and isinstance(vb, Top):
                c.require(w, q, None, va.why, va.site, n)
                continue
            c.expect(w, q, vb, va, f'{n}')
            continue
        key = next(iter(sel))
        axes = [j for j, s in enumerate(va.shape) if G.ixkey(s) == key]
        if len(va.shape) != len(vb.shape):
            c.require(w, q, False, f'number of axes of {q} depends on the number of {w}s', None, n)
            continue
        if not axes:
            c.expect(w, q, vb, va, n)
            continue
        restricted = Arr(vb.shape, (lambda va, axes: lambda ii: va.at(tuple(pos if j in axes else i for j, i in enumerate(ii))))(va, axes))
        c.expect(w, q, vb, restricted, n)
