"""Reference model: what the documentation says, written independently of the code.

All quantities are computed from logarithms with long doubles and stable sums, so the
model has no underflow and no cancellation where the code may have some.
"""
import math
import numpy as np

KB = np.longdouble("8.617333262145e-5")     # eV/K
H = np.longdouble("4.135667696e-3")         # eV/THz
LD = np.longdouble

# rotational symmetry numbers of the geometries of gen.GEOMS are stored there
MASS = {}


def masses():
    if not MASS:
        from ase.data import atomic_masses, chemical_symbols
        for s, m in zip(chemical_symbols, atomic_masses):
            MASS[s] = float(m)
    return MASS


def moments(symbols, pos):
    """Principal moments of inertia (amu A^2) about the centre of mass."""
    ms = masses()
    m = np.array([ms[s] for s in symbols])
    x = np.asarray(pos, float)
    x = x - (m[:, None] * x).sum(0) / m.sum()
    r2 = (x * x).sum(1)
    inertia = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            inertia[i, j] = (m * ((r2 if i == j else 0.0) - x[:, i] * x[:, j])).sum()
    return np.linalg.eigvalsh(inertia)


def temperatures(tmin, tmax):
    n = int(math.floor(tmax - tmin + 1e-9)) + 1
    return [tmin + k for k in range(max(n, 0))]


def tables(isomers, flags, temps):
    """isomers: dicts with E, g, freqs, sigma, moments (3 values).
    flags: set of 'e','s','c','q','r'.  Returns (C[M], P[N][M], info) with info the rows for
    which the shipped code is known to deviate (see known_findings)."""
    n = len(isomers)
    E = np.array([LD(i["E"]) for i in isomers])
    rel = E - E.min()
    M = len(temps)
    C = np.zeros(M, LD)
    P = np.zeros((n, M), LD)
    zero_conv = {}
    scale = np.zeros(M, LD)
    under, small = set(), set()
    use_e = bool(flags & {"e", "s"})
    for k, t in enumerate(temps):
        t = LD(t)
        low = False
        lnz = np.zeros(n, LD)           # finite part
        w = np.zeros(n, LD)
        v = np.zeros(n, LD)
        if "s" in flags:
            lnz += np.log(np.array([LD(i["g"]) for i in isomers]))
        if "r" in flags:
            for a, i in enumerate(isomers):
                # a linear isomer has no moment about its axis
                mo = [LD(x) for x in i["moments"] if x > 1e-6 * max(i["moments"])]
                lnz[a] += LD(0.5) * sum(np.log(x) for x in mo) - np.log(LD(i["sigma"]))
            w -= LD(1.5)
            v += LD(1.5)
        if "c" in flags:
            for a, i in enumerate(isomers):
                lnz[a] -= sum(np.log(LD(x)) for x in i["freqs"])
                w[a] -= len(i["freqs"])
                v[a] += len(i["freqs"])
        if t > 0:
            b = 1 / (KB * t)
            if use_e:
                lnz = lnz - b * rel
                w -= b * rel
                low = b * rel > 690         # exp() underflows a double
            if "q" in flags:
                absq = np.zeros(n, LD)
                for a, i in enumerate(isomers):
                    for f in i["freqs"]:
                        x = LD(0.5) * H * LD(f) * b
                        absq[a] += -x - np.log1p(-np.exp(-2 * x))
                        em = np.exp(-2 * x)
                        w[a] -= x * (1 + em) / (1 - em)
                        v[a] += 4 * x * x * em / (1 - em) ** 2
                lnz = lnz + absq
                # outside the range of (long) doubles the code's products vanish
                if absq.max() < -11330 or lnz.max() < -11330:
                    under.add(k)
            p = np.exp(lnz - lnz.max())
            p /= p.sum()
            # a weight the code loses although it matters (zero-point energy outweighs it)
            if use_e and bool(np.any(low & (p > 1e-18))):
                under.add(k)
            if (use_e and bool(np.any(low))) or lnz.min() < -11300:
                small.add(k)
            scale[k] = (p * w * w).sum()
            wb = (p * w).sum()
            C[k] = (p * v).sum() + (p * (w - wb) ** 2).sum()
            P[:, k] = p
        else:
            # limit T -> 0: minima of lowest energy, weights by the finite prefactors.
            # prefactors of the classical / rotational parts share their T-dependence.
            key = np.zeros(n, LD)
            if use_e:
                key += rel
            if "q" in flags:
                key += np.array([sum(LD(0.5) * H * LD(f) for f in i["freqs"]) for i in isomers])
            sel = key <= key.min() + LD(1e-15)
            p = np.where(sel, np.exp(lnz - lnz[sel].max()), LD(0))
            p /= p.sum()
            P[:, k] = p
            C[k] = (p * v).sum() + (p * (w - (p * w).sum()) ** 2).sum()
            if "q" in flags:            # the code's convention at exactly T=0: no zero-point energy
                sel = rel <= (LD(0) if use_e else LD(1e300))
                p = np.where(sel, np.exp(lnz - lnz[sel].max()), LD(0))
                zero_conv[k] = p / p.sum()
    return C, P, {"zero": zero_conv, "under": under, "small": small, "scale": scale}
