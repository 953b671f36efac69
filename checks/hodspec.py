"""Specified occupation numbers of one HOD instance."""
from sa.drive import HOD, A, S, class_defaults, hod_params, hod_settings, size
from sa.values import DictV, Top

MODELS = ('Cacciato', 'Simple', 'Zehavi', 'Zheng', 'Zhai')


class HodSpec:
    def __init__(self, c, name, params, settings, mass, dn, bias, z_vec, data=None):
        self.c, self.F, self.name, self.p = c, c.F('hod'), name, params
        F = self.F
        self.m, self.z_vec = mass, z_vec
        nobs = settings.d['nobs']
        if settings.d.get('observables_file') is not None:
            self.sel = F.selection_file(*data, nobs)
        else:
            self.sel = F.selection_bins(settings, settings.d['nz'], nobs)
        self.obs, self.z = F.selection_obs(self.sel), F.selection_z(self.sel)
        self.dn = F.on_selection(z_vec, dn, self.z)
        self.b = F.on_selection(z_vec, bias, self.z)
        if name == 'Cacciato':
            self.cof_c, self.cof_s = F.cacciato_cen(self.obs, mass, params), F.cacciato_sat(self.obs, mass, params)
            nc, ns = F.count(self.cof_c, self.obs), F.count(self.cof_s, self.obs)
            self.fc, self.fs = F.fraction(self.cof_c, self.obs, mass), F.fraction(self.cof_s, self.obs, mass)
        else:
            nc = F.model_cen(name, mass, params)
            ns = None
            self.fc = self.fs = None
        a_c, a_s = params.d.get('A_cen'), params.d.get('A_sat')
        self.nc = F.boosted_cen(nc, a_c)
        if ns is None:
            ns = F.model_sat(name, mass, params, self.nc)
            self.nc = F.spread(self.nc, self.dn)
            self.ns = F.spread(F.boosted_sat(ns, a_s), self.dn)
        else:
            self.ns = F.boosted_sat(ns, a_s)
        self.nt = F.plus(self.nc, self.ns)

    def ex(self, d):
        return self.F.extrapolated(self.z, d, self.z_vec)

    def z0(self, d):
        return self.F.zero_outside(self.z, d, self.z_vec)

    def dens(self, n):
        return self.F.density(n, self.dn, self.m)

    def occupations(self):
        return {'hod_cen': self.ex(self.nc), 'hod_sat': self.ex(self.ns), 'hod': self.ex(self.nt)}

    def stellar(self, h):
        F = self.F
        if self.fc is None:
            z = F.zeros(self.ex(self.dens(self.nt)), self.m)
            return {'stellar_fraction_cen': z, 'stellar_fraction_sat': z, 'stellar_fraction': z}
        o = {'stellar_fraction_cen': self.ex(self.fc), 'stellar_fraction_sat': self.ex(self.fs), 'stellar_fraction': self.ex(F.plus(self.fc, self.fs))}
        return o if h is None else {k: F.times(v, h) for k, v in o.items()}

    def averages(self):
        F = self.F
        dc, ds, dt = self.dens(self.nc), self.dens(self.ns), self.dens(self.nt)
        mw = lambda n: F.mass_weight(n, self.dn, self.m)
        bi = lambda n: F.bias(n, self.b, self.dn, self.m, dt)
        return {
            'number_density_cen': self.ex(dc), 'number_density_sat': self.ex(ds), 'number_density': self.ex(dt),
            'f_c': self.z0(F.ratio(dc, dt)), 'f_s': self.z0(F.ratio(ds, dt)),
            'avg_halo_mass_cen': self.z0(mw(self.nc)), 'avg_halo_mass_sat': self.z0(mw(self.ns)), 'avg_halo_mass': self.z0(mw(self.nt)),
            'galaxy_linear_bias_cen': self.ex(bi(self.nc)), 'galaxy_linear_bias_sat': self.ex(bi(self.ns)), 'galaxy_linear_bias': self.ex(bi(self.nt)),
        }


def make(c, name, vec=False, boost=False, file=False, unit='1/h^2'):
    """(instance, HodSpec) of one HOD model with symbolic inputs"""
    it = c.it
    cls = it.get(HOD, name)
    st = hod_settings('', file=file, unit=unit)
    par = hod_params(it, cls, S('hod:A_cen') if boost else None, S('hod:A_sat') if boost else None, vec=vec)
    mass, dn, b, z = A('mass', 'M'), A('dndlnm', 'Z', 'M'), A('halo_bias', 'Z', 'M'), A('z_vec', 'Z')
    from .common import HMI, cosmo_kw
    cosmo = c.val(it.call(it.get(HMI, 'CosmologyBase'), [], cosmo_kw()), 'cosmo_model')
    o = it.call(cls, [], dict(cosmo=cosmo, mass=mass, dndlnm=dn, halo_bias=b, z_vec=z, hod_settings=st, **par.d))
    data = None
    if file:
        data = it.call(it.get(HOD, 'load_data'), [st.d['observables_file']], {})
    return o, HodSpec(c, name, par, st, mass, dn, b, z, data), cosmo
