"""The HMcode-2020 fitting functions (growth equation and its accumulated integral, collapse threshold, virial
overdensity, concentration amplitude, halo bloating, damping scales, one-to-two-halo transition, de-wiggling of the
linear spectrum) are compared, value graph against value graph, with the published formulas."""
from .common import HMI, PK, Ing, build, cosmo_kw, hm_kw, minus, name
from sa.interp import RaiseSig
from sa.values import Top

MIN_OBLIGATIONS = 20


def jobs(tier):
    return ['fits'] + [dict(mode='hmcode', ingr=i, plin=p) for i in ('mead2020', 'mead2020_feedback') for p in (True, False)]


def run(c, job):
    F = c.F('ingredients')
    if job == 'fits':
        o = c.it.call(c.it.get(HMI, 'CosmologyBase'), [], cosmo_kw())
        v = lambda x: c.val(o, x)
        cosmo, z = v('cosmo_model'), v('z_vec')
        a = F.scale_factor(z)
        gf = F.growth_function(cosmo)
        g, gg = F.growth(gf, a), F.accumulated_growth(gf, a)
        c.expect('hmcode-fit', 'scale_factor', v('scale_factor'), a)
        c.expect('hmcode-fit', 'get_mead_growth', v('get_mead_growth'), g)
        c.expect('hmcode-fit', 'get_mead_accumulated_growth', v('get_mead_accumulated_growth'), gg)
        c.expect('hmcode-fit', 'dc_Mead', v('dc_Mead'), F.collapse_threshold(cosmo, z, g, gg))
        c.expect('hmcode-fit', 'Dv_Mead', v('Dv_Mead'), F.virial_overdensity(cosmo, z, g, gg))
        for ingr in (None, 'mead2020', 'mead2020_feedback', 'fit'):
            kw = hm_kw()
            kw['hmcode_ingredients'] = ingr
            h = c.it.call(c.it.get(HMI, 'HaloModelIngredients'), [], kw)
            theta = minus(c.val(h, 'log10T_AGN'), '7.8')
            c.expect('hmcode-concentration', 'K', c.val(h, 'K'), F.hmcode_B(c.val(h, 'z_vec'), ingr, theta), str(ingr))
            if ingr in ('mead2020', 'mead2020_feedback'):
                mdef = c.it.get(HMI, 'SOVirial_Mead')
                m = F.models(h, True, False, mdef, False, True, c.val(h, 'Dv_Mead'), c.val(h, 'dc_Mead'), c.val(h, 'K'))
                c.expect('hmcode-bloating', 'u_dm', c.val(h, 'u_dm'), F.normalised(F.profile(m, c.val(h, 'k_vec'))), ingr)
                c.expect('hmcode-mass-function', 'dndlnm', c.val(h, 'dndlnm'), F.per_z(m, 'dndlnm'), ingr)
                c.expect('hmcode-mass-function', 'halo_bias', c.val(h, 'halo_bias'), F.per_z(m, 'halo_bias'), ingr)
        return
    o = build(c, **job)
    if o is None:
        return
    C, H = c.F('spectra'), c.F('halo')
    g = Ing(c, o, job)
    n = name(job)
    from .p03 import linear
    p = C.batch(linear(c, g, job))
    c.expect('hmcode-dewiggle', 'power_spectrum_lin.pk_tot', g.v('power_spectrum_lin.pk_tot'), p, n)
    w = g.wm_1h()
    p1 = C.mm_1h_mead(g.one(w, w), g.k, g.v('sigma8_z'))
    p2 = C.mm_2h_mead(p, g.k, g.v('sigma8_z'))
    c.expect('hmcode-damping', 'power_spectrum_mm.pk_1h', g.v('power_spectrum_mm.pk_1h'), p1, n)
    c.expect('hmcode-damping', 'power_spectrum_mm.pk_2h', g.v('power_spectrum_mm.pk_2h'), p2, n)
    c.expect('hmcode-transition', 'power_spectrum_mm.pk_tot', g.v('power_spectrum_mm.pk_tot'), C.mm_tot_mead(g.k, g.v('neff'), p1, p2), n)
