"""Composition of the power spectra from tracer profiles and bias integrals."""
import numpy as np

from .halo import mead_one_halo_damping, mead_transition, mead_two_halo_damping


def mm_1h(i_mm, damp):
    return i_mm * damp


def mm_1h_mead(i_mm, k, s8):
    return i_mm * mead_one_halo_damping(k, s8)[None, :, :]


def mm_2h(p, im, damp):
    return p * im**2 * damp


def mm_2h_bnl(p, im, inl):
    return p * (im**2 + inl)


def mm_2h_mead(p, k, s8):
    return p * mead_two_halo_damping(k, s8)[None, :, :]


def mm_tot_mead(k, neff, p1, p2):
    return mead_transition(k, neff, p1, p2)


def gg_1h(i_cs, i_ss, damp):
    """i_ss already carries the Poisson factor"""
    return (2.0 * i_cs + i_ss) * damp


def gg_2h(p, ic, is_, damp):
    return p * (ic + is_) ** 2 * damp


def gg_2h_bnl(p, ic, is_, inl):
    return p * ((ic + is_) ** 2 + inl)


def gm_1h(i_cm, i_sm, damp):
    return (i_cm + i_sm) * damp


def gm_2h(p, ic, is_, im, damp):
    return p * (ic + is_) * im * damp


def gm_2h_bnl(p, ic, is_, im, inl):
    return p * ((ic + is_) * im + inl)


def gg_bias(ic, is_):
    return ic + is_


def gg_bias_sqrt(ic, is_):
    return np.sqrt((ic + is_) ** 2)


def gg_bias_sqrt_terms(ic, is_):
    return np.sqrt(ic * ic + is_ * is_ + 2.0 * ic * is_)


def gm_bias(ic, is_, im):
    return np.sqrt((ic + is_) * im)


def mi_1h(i_ms, damp):
    return -i_ms * damp


def mi_2h(p, ica, isa, im, damp):
    return -p * im * (ica + isa) * damp


def mi_2h_bnl(p, ica, isa, im, inl):
    return -p * (im * (ica + isa) + inl)


def mi_2h_nla(peff, f_c, amp, damp):
    return f_c[:, :, None] * peff[None, :, :] * amp[None, :, None] * damp


def ii_1h(i_ss, damp):
    return i_ss * damp


def ii_2h(p, ica, isa, damp):
    return p * (ica**2 + isa**2 + ica * isa) * damp


def ii_2h_bnl(p, ica, isa, ncc, nss, ncs):
    return p * (ica**2 + ncc + isa**2 + nss + ica * isa + ncs)


def ii_2h_nla(peff, f_c, amp, damp):
    return (f_c[:, :, None] * amp[None, :, None]) ** 2 * peff[None, :, :] * damp


def gi_1h(i_cs, damp):
    return i_cs * damp


def gi_2h(p, ic, ica, isa, damp):
    return p * ic * (ica + isa) * damp


def gi_2h_bnl(p, ic, ica, isa, ncc, ncs):
    return p * (ic * (ica + isa) + ncc + ncs)


def gi_2h_nla(peff, ic, amp, damp):
    return -peff[None, :, :] * ic * amp[None, :, None] * damp


def nla_amplitude(a_ia, rho, growth):
    """-C1 rho_m / D(z), C1 = 5e-14 A_IA"""
    return -5.0e-14 * a_ia * rho / growth


def effective_power(pnl, plin, t):
    return pnl + t * (plin - pnl)


def rescaled(p, nl, mm):
    return p * (nl[None, :, :] / mm)


def mean_mass(m_int, dens):
    return m_int / dens


def resampled(kh, p, k):
    from scipy.interpolate import interp1d
    return interp1d(kh, p, fill_value='extrapolate', bounds_error=False, axis=1)(k)


def zeros(nl):
    return np.zeros_like(nl)[None, :, :]


def total(a, b):
    return a + b


def batch(p):
    return p[None, :, :]


def unbatch(p):
    return p[0]
