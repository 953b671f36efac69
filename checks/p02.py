"""The one-halo part of the matter, galaxy and galaxy-matter spectra is compared, value graph against value graph, with
the mass integral of the specified tracer profiles (matter profile chosen by the ingredients and the point-mass option,
central and satellite galaxy profiles, Poisson factor on satellite pairs only) times the large-scale damping."""
from .common import Ing, build, mode_configs, name

MIN_OBLIGATIONS = 50


def jobs(tier):
    out = list(mode_configs())
    for ingr in (None, 'fit', 'mead2020'):
        out.append(dict(mode=None, ingr=ingr, pointmass=True))
    out.append(dict(mode=None, ingr=None, poisson='power_law'))
    out.append(dict(mode='bnl', ingr='mead2020_feedback', poisson='power_law', pointmass=True))
    out.append(dict(mode=None, ingr=None, kt=False))
    out.append(dict(mode='fortuna', ingr=None, hod='Zheng', pointmass=True))
    out.append(dict(mode=None, ingr='fit', hod='Zhai'))
    return out


def run(c, cfg):
    C = c.F('spectra')
    o = build(c, **cfg)
    if o is None:
        return
    g = Ing(c, o, cfg)
    n = name(cfg)
    w = g.wm_1h()
    if cfg['mode'] == 'hmcode':
        want = C.mm_1h_mead(g.one(w, w), g.k, g.v('sigma8_z'))
    else:
        want = C.mm_1h(g.one(w, w), g.d1())
    c.expect('one-halo-mm', 'power_spectrum_mm.pk_1h', g.v('power_spectrum_mm.pk_1h'), want, n)
    pois = c.F('halo').poisson_factor(g.mass, *poisson(c, cfg))
    want = C.gg_1h(g.one(g.wc(), g.ws()), c.F('halo').one_halo_weighted(g.ws(), g.ws(), pois, g.mass, g.nm), g.d1())
    c.expect('one-halo-gg', 'power_spectrum_gg.pk_1h', g.v('power_spectrum_gg.pk_1h'), want, n)
    w = g.wm_1h(galaxy=True)
    want = C.gm_1h(g.one(g.wc(), w), g.one(g.ws(), w), g.d1())
    c.expect('one-halo-gm', 'power_spectrum_gm.pk_1h', g.v('power_spectrum_gm.pk_1h'), want, n)


def poisson(c, cfg):
    from .common import S
    if cfg.get('poisson') == 'power_law':
        return [S('poisson:poisson'), S('poisson:pivot'), S('poisson:slope')]
    return [S('poisson:poisson'), None, None]
