"""The background cosmology handed to every component is compared with a flat w0waCDM cosmology built from the public
parameters; derived densities, scale factor, neutrino fraction, mean densities, growth factor, linear and non-linear
spectra are those of that cosmology, for every class that takes cosmological parameters."""
from .common import HMI, PK, cosmo_kw, hm_kw, spectra_kw, build, S
from sa.values import Top

MIN_OBLIGATIONS = 20


def jobs(tier):
    return ['base', 'hmi', 'pk']


def run(c, job):
    F = c.F('ingredients')
    it = c.it
    if job == 'base':
        os_ = [it.call(it.get(HMI, 'CosmologyBase'), [], cosmo_kw())]
    elif job == 'hmi':
        os_ = []
        for ingr in (None, 'mead2020', 'fit'):
            kw = hm_kw()
            kw['hmcode_ingredients'] = ingr
            os_.append(it.call(it.get(HMI, 'HaloModelIngredients'), [], kw))
    elif job == 'pk':
        os_ = [build(c, mode=None), build(c, mode='hmcode', ingr='mead2020_feedback')]
    for o in os_:
        if o is None:
            continue
        v = lambda x: c.val(o, x)
        n = f'{job}/{o.cls.name}'
        cosmo = F.cosmology(*[v(x) for x in ('h0', 'omega_c', 'omega_b', 'w0', 'wa', 'tcmb', 'Neff', 'm_nu')])
        c.expect('cosmology', 'cosmo_model', v('cosmo_model'), cosmo, n)
        c.expect('cosmology', 'omega_m', v('omega_m'), F.om0(cosmo), n)
        c.expect('cosmology', 'scale_factor', v('scale_factor'), F.scale_factor(v('z_vec')), n)
        if job == 'base':
            continue
        ingr = v('hmcode_ingredients')
        mead = ingr in ('mead2020', 'mead2020_feedback')
        mdef = it.get(HMI, 'SOVirial_Mead') if mead else v('mdef_model')
        extra = [v('Dv_Mead'), v('dc_Mead'), v('K')] if mead else [None] * 3
        ms = F.models(o, mead, False, mdef, False, True, *extra)
        c.expect('cosmology', 'fnu', v('fnu'), F.fnu(cosmo, v('z_vec')), n)
        c.expect('cosmology', 'mean_density0', v('mean_density0'), F.per_z(ms, 'mean_density0'), n)
        c.expect('cosmology', 'mean_density_z', v('mean_density_z'), F.per_z(ms, 'mean_density'), n)
        c.expect('cosmology', 'growth_factor', v('growth_factor'), F.growth_factor(ms, v('z_vec')), n)
        c.expect('cosmology', 'power', v('power'), F.per_z(ms, 'power'), n)
        c.expect('cosmology', 'sigma8_z', v('sigma8_z'), F.sigma8(ms), n)
        c.expect('cosmology', 'nonlinear_power', v('nonlinear_power'), F.per_z(ms, 'nonlinear_power'), n)
    if job == 'base':
        # the virial mass definition used with the HMcode fits: overdensity times the mean density at that redshift
        cls = it.get(HMI, 'SOVirial_Mead')
        m = it.call(cls, [], {'overdensity': S('Delta_v')})
        got = c.call(it.getattr(m, 'halo_density'), S('z'), c.val(os_[0], 'cosmo_model'))
        want = it.binop('Mult', S('Delta_v'), it.call(it.getattr(m, 'mean_density'), [S('z'), c.val(os_[0], 'cosmo_model')], {}))
        c.expect('hmcode-mass-definition', 'SOVirial_Mead.halo_density', got, want)
