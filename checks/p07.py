"""With baryonic feedback (HMcode-2020 feedback, the fitted variant, or the point-mass option) the halo matter content is
compared, value graph against value graph, with cold matter plus the gas left after ejection, which follow the halo
profile, plus stars at the centre: the fractions, their redshift and temperature scalings, the pivot mass and its
default, and every spectrum's one-halo term in which that profile appears."""
from .common import PK, Ing, S, A, build, minus, name, spectra_kw
from sa.drive import DictV
from sa.values import Top

MIN_OBLIGATIONS = 25


def jobs(tier):
    out = [dict(mode=m, ingr=i) for m in (None, 'bnl', 'fortuna', 'hmcode') for i in ('mead2020_feedback', 'fit') if not (m == 'hmcode' and i == 'fit')]
    out += [dict(mode=None, ingr=None, pointmass=True), dict(mode='fortuna', ingr=None, pointmass=True), dict(mode=None, ingr='fit', hod='Zheng')]
    out += ['defaults']
    return out


def run(c, cfg):
    C, H = c.F('spectra'), c.F('halo')
    if cfg == 'defaults':
        kw = spectra_kw(c.it, mode=None, ingr='fit')
        del kw['mb']
        o = c.it.call(c.it.get(PK, 'Spectra'), [], kw)
        c.expect('pivot-mass-default', 'mb', c.val(o, 'mb'), H.default_pivot_mass())
        oc, ob = c.val(o, 'omega_c'), c.val(o, 'omega_b')
        th = minus(c.val(o, 'log10T_AGN'), '7.8')
        z, m, fs, mb = A('z', 'Z'), A('m', 'Z'), A('fstar', 'Z'), S('mbx')
        for nm, args, want in (('fs', (z,), H.stellar_fraction(z, th)), ('fg', (m, z, fs), H.gas_fraction(m, H.pivot_mass(z, th), fs, oc, ob)),
                               ('fg_fit', (m, mb, fs), H.gas_fraction(m, mb, fs, oc, ob))):
            f = c.val(o, nm)
            c.expect('baryon-fraction', nm, f if isinstance(f, Top) else c.call(f, *args), want)
        return
    o = build(c, **cfg)
    if o is None:
        return
    g = Ing(c, o, cfg)
    n = name(cfg)
    w, wg = g.wm_1h(), g.wm_1h(galaxy=True)
    one = g.one(w, w)
    want = C.mm_1h_mead(one, g.k, g.v('sigma8_z')) if cfg['mode'] == 'hmcode' else C.mm_1h(one, g.d1())
    c.expect('baryon-profile', 'power_spectrum_mm.pk_1h', g.v('power_spectrum_mm.pk_1h'), want, n)
    c.expect('baryon-profile', 'power_spectrum_gm.pk_1h', g.v('power_spectrum_gm.pk_1h'), C.gm_1h(g.one(g.wc(), wg), g.one(g.ws(), wg), g.d1()), n)
    c.expect('baryon-profile', 'power_spectrum_mi.pk_1h', g.v('power_spectrum_mi.pk_1h'), C.mi_1h(g.one(wg, g.as_()), g.d1(True)), n)
