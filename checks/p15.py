"""Non-linear halo bias from the emulator: the cosmology handed to it (clamped to its range, amplitude matched to sigma_8),
the smallest resolved halo, the band limits, the smoothed bias of every pair of masses, its symmetry and its layout on the
spectra's grid, and the wiring from the spectra, compared with the published construction, value graph against value graph."""
from .common import BNL, build
from sa.drive import A, S
from sa.values import Top

MIN_OBLIGATIONS = 20


def jobs(tier):
    return ['fits', 'cosmology', 'pair', ('grid', False), ('grid', True), 'wiring']


def make(c, **over):
    kw = dict(mass=A('mass', 'M'), z_vec=A('z_vec', 'Z'), k_vec=A('k_vec', 'K'), h0=S('h0'), sigma_8=S('sigma_8'), A_s=None,
              omega_b=S('omega_b'), omega_c=S('omega_c'), omega_lambda=S('omega_lambda'), n_s=S('n_s'), w0=S('w0'), z_dep=False)
    kw.update(over)
    return c.it.call(c.it.get(BNL, 'NonLinearBias'), [], kw)


def emu(F, **over):
    d = dict(sigma8=S('sigma_8'), a_s=None)
    d.update(over)
    return F.emulator(S('omega_b'), S('omega_c'), S('omega_lambda'), S('h0'), S('n_s'), S('w0'), d['sigma8'], d['a_s'])


def run(c, job):
    F = c.F('bnl')
    if job == 'fits':
        o = make(c)
        k, kt = A('k', 'K'), S('kt')
        c.expect('band-limit', 'low_k_truncation', c.call(c.attr(o, 'low_k_truncation'), k, kt), F.low_cut2(k, kt))
        c.expect('band-limit', 'high_k_truncation', c.call(c.attr(o, 'high_k_truncation'), k, kt), F.high_cut2(k, kt))
        e = emu(F)
        got, want = c.val(o, 'minimum_halo_mass'), F.smallest_halo(e)
        for i, n in enumerate(('mass', 'wavenumber')):
            c.expect('smallest-halo', n, got if isinstance(got, Top) else c.it.getitem(got, i), c.sp.getitem(want, i))
        m = A('m', 'M')
        c.expect('virial-radius', 'rvir', c.call(c.attr(o, 'rvir'), m), F.virial_radius(e, m))
        p = A('p', 6)
        c.expect('clamping', 'test_cosmo', c.call(c.attr(o, 'test_cosmo'), p), F.clamp(p))
        y = A('y', 'K')
        got = c.call(c.attr(o, 'hl_envelopes_idx'), y)
        c.expect('envelope', 'maxima', got if isinstance(got, Top) else c.it.getitem(got, 1), F.maxima(y))
    elif job == 'cosmology':
        for n, kw, sk in (('sigma_8', {}, {}), ('A_s', dict(A_s=S('A_s'), sigma_8=None), dict(a_s=S('A_s'))),
                          ('both', dict(A_s=S('A_s')), dict(a_s=S('A_s')))):
            o, e = make(c, **kw), emu(F, **sk)
            g = c.val(o, 'emulator')
            k, z, m1, m2 = A('k', 'K'), S('z'), S('m1'), S('m2')
            c.expect('cosmology', 'density', c.val(g, 'cosmo') if isinstance(g, Top) else c.call(c.attr(c.attr(g, 'cosmo'), 'get_Omega0')),
                     c.sp.call(c.sp.getattr(c.sp.getattr(e, 'cosmo'), 'get_Omega0'), [], {}), n)
            for q, args in (('get_sigma8', ()), ('get_pklin_from_z', (k, z)), ('get_phh_mass', (k, m1, m2, z))):
                c.expect('cosmology', q, g if isinstance(g, Top) else c.call(c.attr(g, q), *args), c.sp.call(c.sp.getattr(e, q), list(args), {}), n)
    elif job == 'pair':
        o, e = make(c), emu(F)
        z, lm, k, kmax = S('z'), A('lm', 3), A('kk', 'K'), S('kmax')
        got = c.call(c.attr(o, 'compute_bnl_darkquest'), z, lm, lm, k, kmax)
        c.expect('pair-bias', 'compute_bnl_darkquest', got, F.tabulate(e, z, c.it.binop('Pow', 10, lm), k, kmax))
    elif job == 'wiring':
        s = build(c, mode='bnl', beta=False)
        if s is None:
            return
        e = F.emulator(c.val(s, 'omega_b'), c.val(s, 'omega_c'), c.it.binop('Sub', 1, c.val(s, 'omega_m')), c.val(s, 'h0'), c.val(s, 'n_s'),
                       c.val(s, 'w0'), c.val(s, 'sigma_8'), None)
        c.expect('wiring', 'calc_bnl', c.val(s, 'calc_bnl'), F.table(e, c.val(s, 'z_vec'), c.val(s, 'mass'), c.val(s, 'k_vec'), False))
    else:
        zd = job[1]
        o, e = make(c, z_dep=zd), emu(F)
        c.expect('grid', 'bnl', c.val(o, 'bnl'), F.table(e, A('z_vec', 'Z'), A('mass', 'M'), A('k_vec', 'K'), zd), f'z_dep={zd}')
