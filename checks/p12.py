"""The observable (stellar-mass or luminosity) functions are compared, value graph against value graph, with ln(10) times
the observable times the conditional function integrated over the halo mass function, on the observable grid and
redshifts of their own settings, for centrals, satellites and all galaxies; they exist exactly when requested for the
conditional-function model."""
from .common import build, name
from .hodspec import HodSpec
from sa.values import Top

MIN_OBLIGATIONS = 15
Q = ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z')


def jobs(tier):
    return [dict(mode=None, ingr=None, compute_observable=True), dict(mode='hmcode', ingr='mead2020', compute_observable=True),
            dict(mode=None, ingr=None, compute_observable=True, obs_unit='1/h'),
            dict(mode=None, ingr=None, compute_observable=False), dict(mode=None, ingr=None, compute_observable=True, hod='Zheng')]


def run(c, cfg):
    o = build(c, **cfg)
    if o is None:
        return
    n = name(cfg)
    v = lambda x: c.val(o, x)
    F = c.F('hod')
    if not cfg['compute_observable'] or cfg.get('hod'):
        for q in Q:
            c.expect('observable-function', q, v(q), None, n)
        return
    s = HodSpec(c, 'Cacciato', v('hod_params'), v('obs_settings'), *[v(x) for x in ('mass', 'dndlnm', 'halo_bias', 'z_vec')])
    tot = F.plus(s.cof_c, s.cof_s)
    want = {'obs_func': F.obs_per_dex(s.obs, tot, s.dn, s.m), 'obs_func_cen': F.obs_per_dex(s.obs, s.cof_c, s.dn, s.m),
            'obs_func_sat': F.obs_per_dex(s.obs, s.cof_s, s.dn, s.m), 'obs_func_obs': F.obs_axis(s.obs, s.dn), 'obs_func_z': s.z}
    for q in Q:
        c.expect('observable-function', q, v(q), want[q], n)
