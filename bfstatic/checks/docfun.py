"""C03: every model evaluates the function its documentation gives"""
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup, crash

HALFPI = pi / 2


def K_pos(f, lim=True):
    return lambda u: where(fabs(u) <= 1, f(u), 0)


KERNELS = {
    "Gauss": lambda u: exp(-0.5 * u * u),
    "Lorentz": lambda u: 1 / (1 + u * u),
    "Sinc": lambda u: sin(pi * u) / (pi * u),
    "Huber": lambda u: where(fabs(u) < 1, 1, 1 / fabs(u)),
    "Cosine": K_pos(lambda u: cos(HALFPI * u)),
    "CosSquare": K_pos(lambda u: cos(HALFPI * u) ** 2),
    "Parabola": K_pos(lambda u: 1 - u * u),
    "Triangle": K_pos(lambda u: 1 - fabs(u)),
    "Tricube": K_pos(lambda u: (1 - fabs(u) ** 3) ** 3),
    "Triweight": K_pos(lambda u: (1 - u * u) ** 3),
    "Biweight": K_pos(lambda u: (1 - u * u) ** 2),
    "Uniform": K_pos(lambda u: E(1)),
    "Tophat": lambda u: where(fabs(u) <= 0.5, 1, 0),
}


def spline(knots, order):
    """segment parameters: polynomial of the order, then the change in the highest coefficient at each knot"""
    def f(x, p):
        r = E(0)
        for i in range(order):
            r = r + p[i] * x ** i
        n = order
        ks = list(knots[1:-1])
        pos = [x ** order] + [where(x >= k, (x - k) ** order, 0) for k in ks] + [E(0)]
        for j in range(len(pos) - 1):
            r = r + p[n + j] * (pos[j] - pos[j + 1])
        return r
    return f


def nspline(knots, order):
    return len(knots) + order - 1


def bspline_basis(knots, order, x):
    """Cox - de Boor recursion on clamped knots"""
    t = [knots[0]] * order + list(knots) + [knots[-1]] * order
    n = len(t) - 1
    B = []
    for i in range(n):
        if t[i] == t[i + 1]:
            B.append(E(0))
        else:
            lo = x >= t[i]
            B.append(where(lo, where(x < t[i + 1], 1, 0), 0))
    for k in range(1, order + 1):
        N = []
        for i in range(n - k):
            r = E(0)
            if t[i + k] > t[i]:
                r = r + (x - t[i]) / (t[i + k] - t[i]) * B[i]
            if t[i + k + 1] > t[i + 1]:
                r = r + (t[i + k + 1] - x) / (t[i + k + 1] - t[i + 1]) * B[i + 1]
            N.append(r)
        B = N
    return B


def orbit(x, p):
    e, a, P, T0 = p[:4]
    M = 2 * pi * x / P - T0
    EA = kepler(e, M)
    r = a * (1 - e * cos(EA))
    v = 2 * atan2(sqrt((1 + e) / (1 - e)) * sin(EA), 1 + cos(EA))
    return r, v


def stellar(spherical):
    def f(x, p):
        r, v = orbit(x, p)
        i, Om, om = p[4:7]
        s = sin(v + om) * cos(i)
        c = cos(v + om)
        th = atan2(s, c) + Om
        rho = r * sqrt(s * s + c * c)
        if spherical:
            return [rho, th]
        return [rho * sin(th), -rho * cos(th)]
    return f


def radvel(x, p):
    r, v = orbit(x, [p[0], E(1), p[2], p[3]])
    return p[1] * (cos(v + p[4]) + p[0] * cos(p[4]))


def cheb(n):
    def f(x, p):
        t = [E(1), x]
        while len(t) <= n:
            t.append(2 * x * t[-1] - t[-2])
        return sum((p[k] * t[k] for k in range(n + 1)), E(0))
    return f


def poly(n, o=0):
    return lambda x, p: sum((p[o + k] * x ** k for k in range(n + 1)), E(0))


def surface(deg):
    def f(x, p):
        n, r = 0, E(0)
        for d in range(deg + 1):
            for k in range(d + 1):
                r = r + p[n] * x[0] ** (d - k) * x[1] ** k
                n += 1
        return r
    return f


def pade(num, den):
    # the constant of the denominator is fixed to 1 by default
    return lambda x, p: poly(num)(x, p) / (1 + sum((p[num + k] * x ** k for k in range(1, den + 1)), E(0)))


def harmonic(n, period):
    return lambda x, p: sum((p[2 * (j - 1)] * cos(2 * pi * j * x / period) + p[2 * (j - 1) + 1] * sin(2 * pi * j * x / period)
                             for j in range(1, n + 1)), E(0))


def polysine(deg, w):
    return lambda x, p: (poly(deg)(x[1], p) * cos(2 * pi * w * x[0]) + poly(deg, deg + 1)(x[1], p) * sin(2 * pi * w * x[0]))


def softmax(ndim, ndout, offset, normed):
    def f(x, p):
        q = []
        for n in range(ndout):
            s = sum((x[k] * p[n * ndim + k] for k in range(ndim)), E(0))
            if offset:
                s = s + p[ndim * ndout + n]
            q.append(s)
        if ndout == 1:
            return 1 / (1 + exp(-q[0]))
        if not normed:
            return q
        tot = sum((exp(s) for s in q), E(0))
        return [exp(s) / tot for s in q]
    return f


def sinespline(w, knots, order):
    n = nspline(knots, order)
    f = spline(knots, order)
    return lambda x, p: f(x, p[:n]) * cos(2 * pi * w * x) + f(x, p[n:]) * sin(2 * pi * w * x)


def sinesplinedrift(knots, order, degree):
    n = nspline(knots, order)
    f = spline(knots, order)

    def g(x, p):
        ph = 2 * pi * x * poly(degree)(x, p)
        return f(x, p[degree + 1:degree + 1 + n]) * cos(ph) + f(x, p[degree + 1 + n:]) * sin(ph)
    return g


def kern2d(K, shape):
    def f(x, p):
        u, v = x[0] - p[1], x[1] - p[2]
        if shape == 3:
            c, s = cos(p[5]), sin(p[5])
            u, v = u * c - v * s, u * s + v * c
        u = u / p[3]
        v = v / p[3 if shape == 1 else 4]
        return p[0] * K(sqrt(u * u + v * v))
    return f


def bsp(knots, order):
    def f(x, p):
        B = bspline_basis(knots, order, x)
        return sum((p[k] * B[k] for k in range(len(B))), E(0))
    return f


def kern(K):
    return lambda x, p: p[0] * K((x - p[1]) / p[2])


def voigt(x, p):
    s = p[2] * sqrt(2)
    z0 = E(1j) * p[3] / s
    z = (x - p[1]) / s + z0
    return p[0] * re(wofz(z)) / re(wofz(z0))


def football(c):
    """rows : matches (0,1) and (1,0) of two teams"""
    def goals(h, a, p):
        P = [p[c * h:c * h + c], p[c * a:c * a + c]]
        d = [[t[k] if k < c else (None, 0, 1, 1, 1)[k] for k in range(5)] for t in P]
        if c == 1:
            return [d[0][0], d[1][0]]
        (a1, b1, c1, d1, e1), (a2, b2, c2, d2, e2) = d
        m = E(c1) * d1 / c2
        return [a1 * sqrt(m * e1) * (1 - b2 ** (m * e2)), a2 * sqrt(E(e2) / m) * (1 - b1 ** (E(e1) / m))]
    return lambda x, p: [goals(0, 1, p), goals(1, 0, p)]


KN4 = [-1.0, 0.2, 1.1, 2.0]
KN3 = [-1.0, 0.2, 1.1]

REF = {
    "ArctanModel": lambda x, p: p[0] * atan(p[2] * (x - p[1])),
    "ChebyshevPolynomialModel(1)": cheb(1), "ChebyshevPolynomialModel(4)": cheb(4),
    "ConstantModel": lambda x, p: E(0),
    "EtalonModel": lambda x, p: p[0] / (1 + p[1] * sin(pi * x * p[2] + p[3]) ** 2),
    "EtalonDriftModel": lambda x, p: p[0] / (1 + p[1] ** 2 * sin(pi * (p[2] * x[0] + p[3] + p[4] * x[1])) ** 2),
    "ExpModel": lambda x, p: p[0] * exp(p[1] * x), "ExpModel(decay)": lambda x, p: p[0] * exp(-p[1] * x),
    "FootballModel(1)": football(1), "FootballModel(2)": football(2), "FootballModel(3)": football(3),
    "FootballModel(4)": football(4), "FootballModel(5)": football(5),
    "GaussModel": kern(KERNELS["Gauss"]), "LorentzModel": lambda x, p: p[0] * p[2] ** 2 / ((x - p[1]) ** 2 + p[2] ** 2),
    "SincModel": kern(KERNELS["Sinc"]),
    "HarmonicModel(2)": harmonic(2, 1.7), "HarmonicDynamicModel(2)": harmonic(2, 1.3),
    "LogisticModel": lambda x, p: p[0] / (1 + exp((p[1] - x) / p[2])),
    "PadeModel(2,1)": pade(2, 1), "PadeModel(1,2)": pade(1, 2),
    "PolySineAmpModel(1)": polysine(1, 1.3), "PolySineAmpModel(2)": polysine(2, 0.7),
    "PolySurfaceModel(1)": surface(1), "PolySurfaceModel(3)": surface(3),
    "PolynomialModel(0)": poly(0), "PolynomialModel(3)": poly(3), "PolynomialDynamicModel(2)": poly(2),
    "PowerLawModel": lambda x, p: p[0] * (x - p[1]) ** p[2],
    "PowerModel(0)": lambda x, p: p[0], "PowerModel(-1)": lambda x, p: p[0] / x, "PowerModel(3)": lambda x, p: p[0] * x ** 3,
    "PseudoVoigtModel": lambda x, p: p[3] * p[0] * p[2] ** 2 / ((x - p[1]) ** 2 + p[2] ** 2) + (1 - p[3]) * kern(KERNELS["Gauss"])(x, p),
    "VoigtModel": voigt,
    "RadialVelocityModel": radvel, "StellarOrbitModel(sph)": stellar(True), "StellarOrbitModel(cart)": stellar(False),
    "SineModel": lambda x, p: p[1] * cos(2 * pi * p[0] * x) + p[2] * sin(2 * pi * p[0] * x),
    "SineModel(phase)": lambda x, p: p[0] * sin(2 * pi * p[1] * x + p[2]),
    "SineAmpModel": lambda x, p: p[0] * cos(2 * pi * 1.3 * x) + p[1] * sin(2 * pi * 1.3 * x),
    "SineDriftModel": lambda x, p: (p[1] * cos(2 * pi * x * (p[0] + x * p[3])) + p[2] * sin(2 * pi * x * (p[0] + x * p[3]))),
    "SplinesModel(3)": spline(KN4, 3), "SplinesModel(2)": spline(KN3, 2),
    "SineSplineModel": sinespline(1.3, KN4, 3), "SineSplineModel(2)": sinespline(0.7, KN3, 2),
    "SineSplineDriftModel": sinesplinedrift(KN4, 3, 1), "SineSplineDriftModel(2,2)": sinesplinedrift(KN3, 2, 2),
    "BasicSplinesModel(3)": bsp(KN4, 3), "BSplinesModel(3)": bsp(KN4, 3), "SplinesDynamicModel(2)": bsp([-1.0, 0.2, 2.0], 2),
    "SoftMaxModel(2x1)": softmax(2, 1, False, True), "SoftMaxModel(2x2)": softmax(2, 2, False, True),
    "SoftMaxModel(2x2o)": softmax(2, 2, True, True), "SoftMaxModel(2x2on)": softmax(2, 2, True, False),
    "KernelModel": kern(KERNELS["Biweight"]),
    "Kernel2dModel(1)": kern2d(KERNELS["Gauss"], 1), "Kernel2dModel(2)": kern2d(KERNELS["Gauss"], 2),
    "Kernel2dModel(3)": kern2d(KERNELS["Gauss"], 3),
}
REF.update({
    "PolynomialModel(7)": poly(7), "ChebyshevPolynomialModel(0)": cheb(0), "ChebyshevPolynomialModel(8)": cheb(8), "HarmonicModel(5)": harmonic(5, 1.7),
    "HarmonicDynamicModel(5)": harmonic(5, 1.3), "PolynomialDynamicModel(6)": poly(6), "PadeModel(5,4)": pade(5, 4), "PadeModel(0,3)": pade(0, 3),
    "PadeModel(3,0)": pade(3, 0), "PolySineAmpModel(5)": polysine(5, 1.3), "PolySurfaceModel(0)": surface(0), "PolySurfaceModel(5)": surface(5),
    "PowerModel(1)": lambda x, p: p[0] * x, "PowerModel(6)": lambda x, p: p[0] * x ** 6, "PowerModel(-3)": lambda x, p: p[0] / x ** 3,
    "PowerModel(1.5)": lambda x, p: p[0] * x ** 1.5, "SplinesModel(5k6)": spline(zoo.KN6, 5), "SplinesModel(1k6)": spline(zoo.KN6, 1),
    "SplinesModel(3k6)": spline(zoo.KN6, 3), "SplinesModel(3k2)": spline((-1.0, 2.0), 3), "SineSplineModel(k6)": sinespline(1.3, zoo.KN6, 1),
    "SineSplineDriftModel(k6)": sinesplinedrift(zoo.KN6, 1, 3), "SoftMaxModel(3x4o)": softmax(3, 4, True, True), "SoftMaxModel(4x2)": softmax(4, 2, False, True),
    "SoftMaxModel(3x1o)": softmax(3, 1, True, True),
})
for _k, _f in KERNELS.items():
    REF["KernelModel(%s)" % _k] = kern(_f)
for _k, _s in (("Lorentz", 1), ("Lorentz", 3), ("Triangle", 2), ("Cosine", 3), ("Biweight", 2), ("Huber", 2)):
    REF["Kernel2dModel(%s%d)" % (_k, _s)] = kern2d(KERNELS[_k] if _k != "Biweight" else K_pos(lambda u: (1 - u * u) ** 2), _s)
REF["Kernel2dModel(Tophat3)"] = kern2d(KERNELS["Triangle"], 3)
REF["KernelModel(Tophat1)"] = kern(KERNELS["Triangle"])
INSIDE = {"BasicSplinesModel", "BSplinesModel", "SplinesDynamicModel"}


def run_doc(R):
    I0 = setup()
    for lab, name, mod, build in list(zoo.instances(I0, big=True)):
        ref = REF.get(lab)
        key = "function:" + lab
        if ref is None:
            R.undecided(key, "no reference formula")
            continue
        I = setup()
        wh = zoo.where(I, name, "baseResult")
        try:
            m = build(I)
            x = zoo.xdata_of(m)
            p = zoo.model_params(I, m)
            xs = [E(t) for t in x.a.flat] if x.a.ndim == 2 else E(x.a.flat[0])
            want = ref(xs, [E(t) for t in p.a.flat])
            res = I.call(I.getattr_(m, "result"), [x, p])
        except AbsRaise as e:
            if crash(e):
                R.fail(key + ":raises", "evaluating the model on valid input raises %s (%s)" % (e.name, e.value), wh)
            else:
                R.undecided(key, "raises %s" % e.name)
            continue
        except (Unsupported, IndexError) as e:
            R.undecided(key, "unsupported %s" % e)
            continue
        R.functions |= I.visited
        if isinstance(want, E):
            want = [[want]]
        elif isinstance(want[0], E):
            want = [want]
        if not isinstance(res, Arr) or res.a.size != sum(len(w) for w in want):
            R.undecided(key, "result %r" % (res,))
            continue
        assume = None
        if name in INSIDE:
            xx = xs
            assume = T.land((xx > KN4[0]).t, (xx < (KN4[-1])).t)
        got = res.a.reshape(len(want), -1)
        for i in range(len(want)):
            for j in range(len(want[0])):
                kk = key + ("[%d,%d]" % (i, j) if res.a.size > 1 else "")
                v = T.equal(got[i, j], want[i][j].t, seed=kk, assume=assume)
                R.decide(kk, v, "the result is not the documented function of input and parameters", wh)
