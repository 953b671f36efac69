"""The one- and two-halo parts of the matter-, galaxy- and self-correlation of intrinsic shapes are compared, value graph
against value graph, with the specified integrals over central and satellite alignment profiles, the specified signs,
the alignment-specific dampings, and in the non-linear-alignment mode with the rescaled effective power."""
from .common import Ing, build, mode_configs, name, S
from sa.values import Top

MIN_OBLIGATIONS = 60


def jobs(tier):
    out = list(mode_configs())
    for kw in (dict(pointmass=True), dict(kt=False), dict(hod='Zheng'), dict(plin=False, dewiggle=True), dict(ia=('luminosity', 'halo_mass')),
               dict(ia=('constant', 'luminosity')), dict(ia=('halo_mass', 'constant'))):
        out.append(dict(mode=None, ingr=None, **kw))
    out.append(dict(mode='fortuna', ingr=None, plin=False, pnl=False))
    out.append(dict(mode='fortuna', ingr='fit', pointmass=True, kt=False))
    return out


def ia_over(cfg):
    """align_params for a pair of dependence options"""
    from sa.drive import align_params
    ia = cfg.get('ia')
    if not ia:
        return {}
    over = {}
    if ia[0] != 'halo_mass':
        over['mpivot_cen'] = None
    if ia[1] != 'halo_mass':
        over['mpivot_sat'] = None
    if ia[0] == 'constant':
        over['beta_cen'] = None
    if ia[1] == 'constant':
        over['beta_sat'] = None
    return dict(align_params=align_params(cen=ia[0], sat=ia[1], **over))


def run(c, cfg):
    C, H = c.F('spectra'), c.F('halo')
    bcfg = {k: v for k, v in cfg.items() if k != 'ia'}
    o = build(c, **bcfg, **ia_over(cfg))
    if o is None:
        return
    g = Ing(c, o, cfg)
    n = name(cfg)
    p = g.plin()
    wc = g.wc()
    ac, as_ = g.ac(), g.as_()
    d1, d2 = g.d1(True), g.d2(True)
    q = lambda s: g.v(f'power_spectrum_{s}')
    part = lambda s, x: g.v(f'power_spectrum_{s}.{x}')
    w = g.wm_1h(galaxy=True)
    c.expect('alignment-one-halo', 'power_spectrum_mi.pk_1h', part('mi', 'pk_1h'), C.mi_1h(g.one(w, as_), d1), n)
    c.expect('alignment-one-halo', 'power_spectrum_ii.pk_1h', part('ii', 'pk_1h'), C.ii_1h(g.one(as_, as_), d1), n)
    c.expect('alignment-one-halo', 'power_spectrum_gi.pk_1h', part('gi', 'pk_1h'), C.gi_1h(g.one(wc, as_), d1), n)
    if cfg['mode'] == 'bnl':
        return
    ic, im = g.I(wc), g.Im()
    ica, isa = g.Ia(ac), g.Ia(as_)
    if cfg['mode'] == 'fortuna':
        fc = g.v('hod.f_c')
        amp = C.nla_amplitude(g.v('alignment_class.alignment_gi'), g.rho, g.v('growth_factor'))
        nl = g.v('matter_power_nl') if cfg.get('pnl', True) else C.resampled(g.v('kh'), g.v('nonlinear_power'), g.k)
        pe = C.effective_power(nl, C.unbatch(p), g.v('t_eff'))
        want = dict(mi=C.mi_2h_nla(pe, fc, amp, d2), ii=C.ii_2h_nla(pe, fc, amp, d2), gi=C.gi_2h_nla(pe, ic, amp, d2))
    else:
        want = dict(mi=C.mi_2h(p, ica, isa, im, d2), ii=C.ii_2h(p, ica, isa, d2), gi=C.gi_2h(p, ic, ica, isa, d2))
    for s, x in want.items():
        c.expect('alignment-two-halo', f'power_spectrum_{s}.pk_2h', part(s, 'pk_2h'), x, n)
