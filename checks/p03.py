"""The two-halo part of the matter, galaxy and galaxy-matter spectra (outside the beta_NL mode), the linear galaxy bias
and the linear spectrum itself are compared, value graph against value graph, with linear power times the products of
the specified bias integrals times the small-scale damping; the matter integral carries the low-mass correction."""
from .common import Ing, build, mode_configs, name

MIN_OBLIGATIONS = 60


def jobs(tier):
    out = list(mode_configs())
    for kw in (dict(dewiggle=True), dict(plin=False), dict(plin=False, dewiggle=True), dict(kt=False), dict(hod='Zheng'), dict(hod='Simple'), dict(sovirial=True)):
        out.append(dict(mode=None, ingr=None, **kw))
    out.append(dict(mode='hmcode', ingr='mead2020', plin=False))
    out.append(dict(mode='fortuna', ingr='fit', plin=False, pnl=False))
    out.append(dict(mode='bnl', ingr=None, plin=False, dewiggle=True))
    return out


def linear(c, g, cfg):
    """specified linear spectrum [z,k]"""
    H, C = c.F('halo'), c.F('spectra')
    if cfg.get('plin', True):
        p = g.v('matter_power_lin')
    else:
        p = C.resampled(g.v('kh'), g.v('power'), g.k)
    if cfg['mode'] == 'hmcode' or cfg.get('dewiggle'):
        p = H.dewiggled(g.k, p, g.v('n_s'), nowiggle(c, g))
    return p


def nowiggle(c, g):
    """ln T of the no-wiggle Eisenstein-Hu transfer function of the instance's cosmology"""
    return c.F('halo').eh_nowiggle(g.v('cosmo_model'))


def run(c, cfg):
    C = c.F('spectra')
    o = build(c, **cfg)
    if o is None:
        return
    g = Ing(c, o, cfg)
    n = name(cfg)
    p = linear(c, g, cfg)
    c.expect('linear-spectrum', 'power_spectrum_lin.pk_tot', g.v('power_spectrum_lin.pk_tot'), C.batch(p), n)
    p = g.plin()
    ic, is_, im = g.I(g.wc()), g.I(g.ws()), g.Im()
    d2 = g.d2()
    if cfg['mode'] != 'bnl':
        if cfg['mode'] == 'hmcode':
            want = C.mm_2h_mead(p, g.k, g.v('sigma8_z'))
        else:
            want = C.mm_2h(p, im, d2)
        c.expect('two-halo-mm', 'power_spectrum_mm.pk_2h', g.v('power_spectrum_mm.pk_2h'), want, n)
        c.expect('two-halo-gg', 'power_spectrum_gg.pk_2h', g.v('power_spectrum_gg.pk_2h'), C.gg_2h(p, ic, is_, d2), n)
        c.expect('two-halo-gm', 'power_spectrum_gm.pk_2h', g.v('power_spectrum_gm.pk_2h'), C.gm_2h(p, ic, is_, im, d2), n)
    c.expect_any('bias-gg', 'power_spectrum_gg.galaxy_linear_bias', g.v('power_spectrum_gg.galaxy_linear_bias'),
                 [C.gg_bias_sqrt_terms(ic, is_), C.gg_bias_sqrt(ic, is_), C.gg_bias(ic, is_)], n)
    c.expect('bias-gm', 'power_spectrum_gm.galaxy_linear_bias', g.v('power_spectrum_gm.galaxy_linear_bias'), C.gm_bias(ic, is_, im), n)
