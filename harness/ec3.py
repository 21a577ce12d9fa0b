"""Formulas of EN 1993-1-1 written down independently of the code under test (partial factors 1.0)."""
from math import pi, sqrt

E, G = 210000.0, 80769.23076923077      # the code's E; G = E / 2.6


def eps(fy):
    return sqrt(235.0 / fy)


def chi(lam, alpha):
    phi = 0.5 * (1 + alpha * (lam - 0.2) + lam * lam)
    return min(1.0, 1 / (phi + sqrt(phi * phi - lam * lam)))


def euler(I, L):
    return pi ** 2 * E * I / L ** 2


def buckling(A, fy, I, L, alpha):
    """(slenderness, resistance) for flexural buckling"""
    lam = sqrt(A * fy / euler(I, L))
    return lam, chi(lam, alpha) * A * fy


def chi_lt(lam, alpha, med_ratio):
    """specific method of 6.3.2.3; med_ratio = MEd / Mcr"""
    if lam <= 0.4 or med_ratio <= 0.16:
        return 1.0
    phi = 0.5 * (1 + alpha * (lam - 0.4) + 0.75 * lam * lam)
    return min(1.0, 1 / lam ** 2, 1 / (phi + sqrt(phi * phi - 0.75 * lam * lam)))


def k_yy(n, lam, cmy, cls):
    """n = NEd / NbRd"""
    return cmy * (1 + (min(lam - 0.2, 0.8) if cls < 3 else 0.6 * min(lam, 1.0)) * n)


def cm_table(ends, mid=None):
    """Table B.3 for a uniformly distributed load, mid None for no information on the span"""
    a, b = ends
    big, small = (a, b) if abs(a) > abs(b) else (b, a)
    psi = small / big if big else 0.0
    if mid is None or abs(mid - 0.5 * (a + b)) < 1e-6:
        return max(0.6 + 0.4 * psi, 0.4)
    if abs(mid) > abs(big):
        ah = big / mid
        return 0.95 + 0.05 * ah * (1 if ah >= 0 or psi >= 0 else 1 + 2 * psi)
    s = mid / big
    if s >= 0:
        return max(0.2 + 0.8 * s, 0.4)
    return max((0.1 if psi >= 0 else 0.1 * (1 - psi)) - 0.8 * s, 0.4)
