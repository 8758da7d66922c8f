"""Independent physics helpers and constants (cgs), written from textbook formulae."""
import math

G = 6.67428e-8
C = 2.99792458e10
MSUN = 1.9892e33
RSUN = 6.9598e10
LSUN = 3.8418e33
YR = 3.1558149984e7
DAY = 86400.0


def kepler_a(P_day, m1, m2):
    """Semi-major axis [Rsun] from Kepler's third law."""
    n = 2 * math.pi / (P_day * DAY)
    return (G * (m1 + m2) * MSUN / n ** 2) ** (1 / 3) / RSUN


def kepler_P(a_rsun, m1, m2):
    """Period [day]."""
    a = a_rsun * RSUN
    return 2 * math.pi * math.sqrt(a ** 3 / (G * (m1 + m2) * MSUN)) / DAY


def eggleton(q):
    """Roche-lobe radius over separation, q = m_this / m_other."""
    c = q ** (1.0 / 3.0)
    return 0.49 * c * c / (0.6 * c * c + math.log(1.0 + c))


def peters_time_myr(m1, m2, a_rsun, e, n=4000):
    """Merger time by direct quadrature of Peters 1964 with a different variable.

    T = 12/19 c0^4/beta int_0^e e^(29/19) (1+121/304 e^2)^(1181/2299) (1-e^2)^(-3/2) de
    evaluated with e = sin(theta) and y = theta substitution (removes the singularity).
    """
    beta = 64.0 / 5.0 * G ** 3 * m1 * m2 * (m1 + m2) * MSUN ** 3 / C ** 5
    a = a_rsun * RSUN
    if e == 0.0:
        return a ** 4 / (4 * beta) / YR / 1e6
    # work with y = (1-e^2)^(-1/2) form: de/(1-e^2)^(3/2) = d tan(theta), e = sin(theta);
    # tan(theta) = sinh(w)  -> smooth in w
    import numpy as np
    w1 = math.asinh(e / math.sqrt(1 - e * e))
    x, wt = np.polynomial.legendre.leggauss(200)
    # substitute w = w1 * s^3 to soften e^(29/19) at 0
    s = 0.5 * (x + 1)
    w = w1 * s ** 3
    dw = w1 * 3 * s ** 2 * 0.5 * wt
    ee = np.tanh(w)          # e = sin(theta) = tanh(w)
    f = ee ** (29.0 / 19.0) * (1 + 121.0 / 304.0 * ee ** 2) ** (1181.0 / 2299.0) * np.cosh(w)
    integral = float(np.sum(f * dw))
    g = e ** (-12.0 / 19.0) * (1 - e * e) * (1 + 121.0 / 304.0 * e * e) ** (-870.0 / 2299.0)
    c0 = a * g
    return 12.0 / 19.0 * c0 ** 4 / beta * integral / YR / 1e6
