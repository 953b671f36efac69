"""In the beyond-linear-bias mode the two-halo part of every spectrum is compared, value graph against value graph, with
linear power times (product of bias integrals + the double mass integral of the tabulated halo-bias correction, including
the three low-mass closure terms), for a symbolic correction table that is not assumed symmetric in the two masses."""
from .common import Ing, build, name

MIN_OBLIGATIONS = 20


def jobs(tier):
    out = [dict(mode='bnl', ingr=i) for i in (None, 'mead2020', 'mead2020_feedback', 'fit')]
    out.append(dict(mode='bnl', ingr=None, plin=False))
    out.append(dict(mode='bnl', ingr=None, hod='Zheng', pointmass=True, kt=False))
    return out


def run(c, cfg):
    C, H = c.F('spectra'), c.F('halo')
    o = build(c, **cfg)
    if o is None:
        return
    g = Ing(c, o, cfg)
    n = name(cfg)
    p = g.plin()
    wm, wc, ws = g.wm(), g.wc(), g.ws()
    ic, is_, im = g.I(wc), g.I(ws), g.Im()
    ac, as_ = g.ac(), g.as_()
    ica, isa = g.Ia(ac), g.Ia(as_)
    add = lambda a, b: c.it.binop('Add', a, b)
    gal, ali = add(wc, ws), add(ac, as_)
    want = {
        'mm': [C.mm_2h_bnl(p, im, g.inl(wm, wm))],
        'gg': [C.gg_2h_bnl(p, ic, is_, g.inl(gal, gal))],
        # a cross-spectrum is symmetric under exchange of the two tracers for the symmetric tables that occur
        'gm': [C.gm_2h_bnl(p, ic, is_, im, x) for x in (g.inl(gal, wm), g.inl(wm, gal))],
        'mi': [C.mi_2h_bnl(p, ica, isa, im, x) for x in (g.inl(ali, wm), g.inl(wm, ali))],
        'ii': [C.ii_2h_bnl(p, ica, isa, g.inl(ac, ac), g.inl(as_, as_), x) for x in (g.inl(ac, as_), g.inl(as_, ac))],
        'gi': [C.gi_2h_bnl(p, ic, ica, isa, x, y) for x, y in ((g.inl(ac, wc), g.inl(as_, wc)), (g.inl(wc, ac), g.inl(wc, as_)))],
    }
    for s, w in want.items():
        c.expect_any('beyond-linear-bias', f'power_spectrum_{s}.pk_2h', g.v(f'power_spectrum_{s}.pk_2h'), w, n)
