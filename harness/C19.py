"""C19 design and response spectra"""
import numpy as np
from hlib import harness

META = dict(
    functions=["GB50010.__init__", "GB50010.spectrum", "GB50011_spectrum", "duhamel", "wave2spectrum", "read_wave", "amptitude"],
    bounds="any maximum coefficient, any damping ratio from 0 to 0.6 (all branches of the damping limits), characteristic periods of 0.20, 0.35, 0.55 and 0.90 s, all 601 "
           "periods of GB50010; thorough: all of the code's characteristic periods and eight windows of 0.001 s in between. Waves of up to five samples, any samples, step and damping for the "
           "Duhamel integral; listed wave files with any damping and peak for the response spectrum",
    outside="the Fourier-transform variant of the response spectrum and the artificial waves (numpy/scipy FFT of thousands of samples); plots; rounding",
    warm="hyperstatic.app.design.GB.seismic.spectrum,hyperstatic.app.seismic.wave2spec",
)
TGS = [(20, 100), (25, 100), (30, 100), (35, 100), (40, 100), (45, 100), (55, 100), (65, 100), (75, 100), (90, 100)]


def reference(cx, ts, amax, Tg, xi):
    """GB 50011 5.1.5"""
    gamma = cx.q(9, 10) + (cx.q(5, 100) - xi) / (cx.q(3, 10) + 6 * xi)
    eta1 = cx.q(2, 100) + (cx.q(5, 100) - xi) / (4 + 32 * xi)
    eta2 = 1 + (cx.q(5, 100) - xi) / (cx.q(8, 100) + cx.q(16, 10) * xi)
    if eta1 < 0:
        eta1 = 0
    if eta2 < cx.q(55, 100):
        eta2 = cx.q(55, 100)
    low = cx.pow(cx.q(2, 10), gamma)
    out = []
    for t in ts:
        if t < cx.q(1, 10):
            out.append((cx.q(45, 100) + (eta2 - cx.q(45, 100)) * t / cx.q(1, 10)) * amax)
        elif t <= Tg:
            out.append(eta2 * amax)
        elif t <= 5 * Tg:
            out.append(cx.pow(Tg / t, gamma) * eta2 * amax)
        else:
            out.append((eta2 * low - eta1 * (t - 5 * Tg)) * amax)
    return out


def damping(cx):
    return cx.real("xi", lo=0, hi=cx.q(6, 10), nom=(0.01, 0.5))


@harness(cases=[(20, 100), (35, 100), (55, 100), (90, 100)], thorough=TGS)
def design_spectrum(cx):
    n, d = cx.case
    G = cx.mod("hyperstatic.app.design.GB.seismic.spectrum").GB50010
    amax, xi, Tg = cx.real("amax", pos=True), damping(cx), cx.q(n, d)
    s = G(amax, Tg, xi).spectrum
    T = [cx.q(k, 100) for k in range(601)]
    cx.eq("periods", list(s["T"]), T)
    cx.eq("influence coefficient", list(s["alpha"]), reference(cx, T, amax, Tg, xi), tol=1e-5)


@harness(tier="thorough", cases=[2005, 2505, 3505, 4005, 5525, 6505, 7505, 8985], seconds=180)
def any_period(cx):
    """any characteristic period in a window between two steps of the table"""
    n = cx.case
    G = cx.mod("hyperstatic.app.design.GB.seismic.spectrum").GB50010
    amax, Tg = cx.real("amax", pos=True), cx.real("Tg", lo=cx.q(n, 10000), hi=cx.q(n + 10, 10000), nom=(n / 10000 + .0001, n / 10000 + .0009), pos=True)
    xi = cx.q(5, 100)
    s = G(amax, Tg, xi).spectrum
    T = [cx.q(k, 100) for k in range(601)]
    cx.eq("influence coefficient", list(s["alpha"]), reference(cx, T, amax, Tg, xi), tol=1e-5)


@harness(cases=[(35, 100, 1, 50), (90, 100, 1, 4), (20, 100, 1, 20)], thorough=[(55, 100, 1, 100), (75, 100, 1, 50)])
def target_spectrum(cx):
    """the target spectrum of the wave tools, by period"""
    n, d, a, b = cx.case
    f = cx.mod("hyperstatic.app.seismic.wave2spec").GB50011_spectrum
    amax, xi, Tg, dt = cx.real("amax", pos=True), damping(cx), cx.q(n, d), cx.q(a, b)
    s = f(amax, Tg, xi, dt)
    T = [k * dt for k in range(6 * b // a)]
    cx.eq("periods", list(s.keys()), T)
    cx.eq("influence coefficient", list(s.values()), reference(cx, T, amax, Tg, xi), tol=1e-5)


def response(cx, w, z, p, dt):
    """displacement of a damped oscillator under the samples p: Duhamel's integral as a sum"""
    wd = w * cx.sqrt(1 - z * z)
    out = []
    for n in range(len(p)):
        x = 0
        for k in range(n + 1):
            x = x + p[k] * cx.exp(-z * w * (n - k) * dt) * cx.sin(wd * (n - k) * dt)
        out.append(x * dt / wd)
    return out, wd


@harness(cases=[2, 3, 5])
def duhamel(cx):
    n = cx.case
    f = cx.mod("hyperstatic.app.seismic.wave2spec").duhamel
    w = cx.real("w", lo=cx.q(1, 10), hi=100, nom=(1, 4), pos=True)
    z = cx.real("z", lo=0, hi=cx.q(9, 10), nom=(0.01, 0.5))
    dt = cx.real("dt", lo=cx.q(1, 1000), hi=1, nom=(0.1, 0.5), pos=True)
    p = np.array([cx.real("p%d" % k) for k in range(n)])
    t = np.array([k * dt for k in range(n)])
    Sa, Sv, Sd = f(w, z, t, p)
    x, wd = response(cx, w, z, p, dt)
    cx.eq("displacement", list(Sd), x)
    cx.eq("pseudo-velocity", list(Sv), [wd * v for v in x])
    cx.eq("pseudo-acceleration", list(Sa), [wd * wd * v for v in x])


@harness(cases=[(2, ("1", "-0.5", "0.25")), (3, ("0.5", "-2", "0.75")), (6, ("-1", "-0.25", "0.5", "1.5"))])
def wave_spectrum(cx):
    """peaks of a wave's response, whichever sign they have, for the wave scaled to the given peak"""
    dt, wave = cx.case
    m = cx.mod("hyperstatic.app.seismic.wave2spec")
    w = cx.workdir()
    cx.write(w + "/wave.txt", "\n".join(wave) + "\n")
    z = cx.real("z", lo=0, hi=cx.q(9, 10), nom=(0.01, 0.5))
    peak = cx.real("peak", pos=True, nom=(10, 50))
    T, sa, sv, sd = m.wave2spectrum(w + "/wave.txt", dt, z, peak)
    Ts = list(range(dt, 7, dt))
    cx.eq("periods", list(T), Ts)
    g = [cx.q(v) for v in wave]
    top = max(abs(v) for v in g)
    for k, P in enumerate(Ts):
        x, wd = response(cx, 2 * cx.pi / P, z, [v * peak / top / 100 for v in g], dt)
        cx.eq("spectral displacement", sd[k], cx.max_abs(x))
        cx.eq("spectral velocity", sv[k], wd * cx.max_abs(x))
        cx.eq("spectral acceleration in g", sa[k], wd * wd * cx.max_abs(x) / cx.q(98, 10))


@harness(cases=[1, 3])
def scaled_wave(cx):
    """a wave scaled to a peak keeps its shape and has that peak"""
    m = cx.mod("hyperstatic.app.seismic.wave2spec")
    p = [cx.real("p%d" % k) for k in range(cx.case)]
    a = cx.real("a", pos=True)
    top = cx.max_abs(p)
    cx.assume(top > cx.q(1, 100))
    r = m.amptitude(p, a)
    cx.eq("samples", [v * top for v in r], [v * a for v in p])
    cx.eq("peak", cx.max_abs(r), a)
