"""the planted changes: substitutions in non-test source files of /repo, with a demonstration (see plant.py)"""

SEEDS = []


def seed(id, property, subs, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, subs=subs, needs=needs, breaks=breaks, demo=demo))


HEAD = """
import sys, math
import numpy as np
from BayesicFitting import *

def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)
"""

seed("p01", "C05", [("HarmonicModel.py", "j = 1 + kp // 2", "j = 1 + k // 2")],
     "a HarmonicModel of which a parameter is fixed, and the parameters after it belong to another order",
     "the columns of partial after the fixed parameter belong to the wrong harmonic", HEAD + """
x = np.linspace(0, 2, 11)
full = HarmonicModel(3)
m = HarmonicModel(3, fixed={0: 0.0, 1: 0.0})
p = np.array([0.3, -0.2, 0.5, 0.1])
sys.exit(0 if close(m.partial(x, p), full.partial(x, np.append([0, 0], p))[:, 2:]) else 1)
""")

seed("p02", "C04", [("Model.py", "res = numpy.divide( res, next )", "res = numpy.divide( res, numpy.maximum( next, 1e-150 ) )")],
     "a quotient of models of which the denominator is negative somewhere", "the guard against division by zero changes the result where the denominator is negative",
     HEAD + """
x = np.linspace(-2, 2, 11)
m = ExpModel() / PolynomialModel(1)
p = np.array([1.2, 0.4, 0.3, 1.9])
r = p[0] * np.exp(p[1] * x) / (p[2] + p[3] * x)
sys.exit(0 if close(m.result(x, p), r) else 1)
""")

seed("p03", "C05", [("FixedModel.py", "fl = list( self.fixed.keys() )", "fl = sorted( self.fixed.keys() )")],
     "two or more parameters fixed with a dictionary that is not in the order of the indices", "the values are given to the wrong fixed parameters",
     HEAD + """
x = np.linspace(0.1, 2, 11)
m = GaussModel(fixed={2: 0.4, 0: 1.7})
r = 1.7 * np.exp(-0.5 * ((x - 0.9) / 0.4) ** 2)
sys.exit(0 if close(m.result(x, np.array([0.9])), r) else 1)
""")

seed("p06", "C09", [("Model.py", "hi = None if k >= nh else highLimits[k]", "hi = None if k >= min( nl, nh ) else highLimits[k]")],
     "setLimits with less low limits than high limits", "the high limits beyond the number of low limits are ignored", HEAD + """
m = PolynomialModel(2)
m.setLimits(lowLimits=[-1.0], highLimits=[1.0, 2.0, 3.0])
sys.exit(0 if close(m.getLimits()[1], [1, 2, 3]) else 1)
""")

seed("p08", "C01", [("LogisticModel.py", "a * x / ( s * s ) * f2 * e", "a * x / ( abs( s ) * s ) * f2 * e")],
     "a logistic with negative slope", "the partial to the slope has the wrong sign", HEAD + """
x = np.linspace(-1, 1, 6)
m = LogisticModel()
p = np.array([1.2, 0.3, -0.6])
sys.exit(0 if close(m.partial(x, p), m.strictNumericPartial(x, p), 1e-3) else 1)
""")

seed("p09", "C02", [("ChebyshevPolynomialModel.py", "um = uu\n            uu = up\n            der += ( i + 1 ) * uu * params[i+1]",
                     "um, uu = uu, up\n            der += ( i + 1 ) * uu * params[i if i > 4 else i+1]")],
     "a Chebyshev polynomial of degree more than 5", "the derivative takes the wrong coefficients", HEAD + """
x = np.linspace(-0.9, 0.9, 7)
m = ChebyshevPolynomialModel(7)
p = np.array([0.2, 0.1, -0.3, 0.5, 0.7, -1.2, 0.8, 0.4])
num = (m.result(x + 1e-5, p) - m.result(x - 1e-5, p)) / 2e-5
sys.exit(0 if close(m.derivative(x, p), num, 1e-3) else 1)
""")

PROB = """
x = np.linspace(0, 1, 6)
y = np.array([0.1, 0.4, 0.3, 0.9, 0.7, 1.2])
w = np.array([1, 2, 3, 0.5, 1, 2.])
a = np.array([0.3, 0.1, 0.2, 0.5, 0.4, 0.6])
m = PolynomialModel(1)
par = np.array([0.1, 0.9])
"""

seed("p19", "C12", [("SalesmanProblem.py", "return res * self.weights[params]", "return res * self.weights")],
     "nodes with weights, visited in another order than they are listed", "the distances are multiplied by the weights of other nodes", HEAD + """
x = np.array([[0., 0], [3, 0], [3, 4], [0, 4.]])
w = np.array([1., 2, 3, 5])
p = SalesmanProblem(xdata=x, weights=w, scale=1.0)
o = np.array([2, 0, 3, 1])
d = np.array([5, 4, 5, 4.])
sys.exit(0 if close(p.result(o), d * w[o]) else 1)
""")

seed("p20", "C13", [("CauchyPrior.py", "return CauchyPrior( prior=self, center=self.center, scale=self.scale,\n                 limits=self.limits, circular=self.circular )",
                     "return CauchyPrior( prior=self, center=self.center, scale=self.scale,\n                 limits=self.limits )")],
     "a circular CauchyPrior that is copied", "the copy is not circular any more", HEAD + """
p = CauchyPrior(center=1.0, scale=0.5, circular=True, limits=[0, 2])
q = p.copy()
sys.exit(0 if q.isCircular() and close(q.unit2Domain(0.7), p.unit2Domain(0.7)) else 1)
""")

NEST = """
def sampler(n=5, **kw):
    m = PolynomialModel(1)
    m.setLimits(lowLimits=[-4, -4], highLimits=[4, 4])
    x = np.linspace(0, 1, 7)
    return NestedSampler(x, m, 0.5 + x + 0.1 * np.sin(30 * x), ensemble=n, verbose=0, **kw)
"""

seed("p22", "C15", [("NestedSampler.py", "self.logWidth -= 1.0 / ( self.ensemble - kw )", "self.logWidth -= 1.0 / self.ensemble")],
     "more than one walker discarded in an iteration, or the last update", "the prior volume shrinks too slowly", HEAD + NEST + """
ns = sampler()
ns.initSample()
ns.logZ, ns.info, ns.logdZ, ns.lowLhood, ns.logWidth = -100.0, 0.0, 0.0, -10.0, -2.0
ns.updateEvidence(3)
sys.exit(0 if close(ns.logWidth, -2 - 1 / 5 - 1 / 4 - 1 / 3) else 1)
""")

seed("p23", "C15", [("NestedSampler.py", "kcp = self.rng.randint( worst, self.ensemble )\n            self.walkers.copy( kcp, k, start=self.iteration )",
                     "kcp = self.rng.randint( k + 1, self.ensemble )\n            self.walkers.copy( kcp, k, start=self.iteration )")],
     "more than one walker discarded in an iteration", "a discarded walker can be replaced by another discarded one", HEAD + NEST + """
for seed in range(40):
    ns = sampler(6, discard=4, seed=seed)
    ns.initSample()
    for k, w in enumerate(ns.walkers):
        w.logL = float(k)
    ns.copyWalker(4)
    if min(w.logL for w in ns.walkers) < 4:
        sys.exit(1)
""")

seed("p24", "C15", [("NestedSampler.py", "self.updateEvidence( self.ensemble )", "self.updateEvidence( self.ensemble - self.worst )")],
     "more walkers than discarded at the end of the run", "the best walkers are not in the samples nor in the evidence", HEAD + NEST + """
ns = sampler()
ns.minimumIterations, ns.maxIterations = 3, 2
ns.sample()
sys.exit(0 if len(ns.samples) == 3 + 5 and close(ns.samples[-1].logL, max(w.logL for w in ns.walkers)) else 1)
""")

seed("p25", "C16", [("NestedSampler.py", """                seed = self.rng.randint( self.TWOP31 )
                self.initialEngine = StartEng(""", """                seed = numpy.random.randint( self.TWOP31 )
                self.initialEngine = StartEng(""")],
     "two runs in a row in the same process, with the same seed",
     "the starting walkers are drawn with a seed of the global generator", HEAD + """
def run():
    m = PolynomialModel(1)
    m.setLimits([-10, -10], [10, 10])
    x = np.arange(6.0)
    ns = NestedSampler(x, m, 1 + 2 * x + 0.1 * np.sin(7 * x), seed=4321, ensemble=10, verbose=0)
    ns.distribution.setLimits([0.01, 10])
    ns.sample()
    return ns.samples.getParameterEvolution()
a, b = run(), run()
sys.exit(0 if close(a, b, 1e-12) else 1)
""")

seed("p26", "C16", [("PhantomCollection.py", """    MINPARS = 5

    def __init__""", """    MINPARS = 5
    dynamics = {}

    def __init__"""), ("PhantomCollection.py", """            self.phantoms = {}
            self.lowLhood = {}""", """            self.phantoms = self.dynamics
            self.lowLhood = {}""")],
     "two dynamic runs in the same process: the phantoms of the first one are seen in the second",
     "all phantom collections of dynamic models share one dictionary, so a run depends on what was done before", HEAD + """
def run():
    m = PolynomialDynamicModel(1)
    m.setLimits(lowLimits=[-10], highLimits=[10])
    x = np.arange(6.0)
    ns = NestedSampler(x, m, 1 + 2 * x + 0.1 * np.sin(7 * x), seed=4321, ensemble=10, verbose=0)
    ns.distribution.setLimits([0.01, 10])
    ns.minimumIterations = 20
    ns.maxIterations = 40
    ns.sample()
    return [float(s.logL) for s in ns.samples]
a, b = run(), run()
sys.exit(0 if a == b else 1)
""")

seed("p27", "C17", [("Dynamic.py", "kh = kol if dnp > 0 else kol + dnp", "kh = kol + 1 if dnp > 0 else kol + dnp")],
     "a dynamic model that grows while it is followed by another model in the chain",
     "the list of fitted parameters gets one index twice and lacks another", HEAD + """
m = PolynomialDynamicModel(1)
m += ExpModel()
f = m.alterFitindex(np.array([0, 1, 2, 3, -1]), 2, 1, 0)
sys.exit(0 if list(f) == [0, 1, 2, 3, 4, -1] else 1)
""")

seed("p28", "C17", [("GibbsEngine.py", """                else :
                    self.reportFailed()
                    param[c] = save
                    break""", """                else :
                    self.reportFailed()
                    param = ptry
                    break""")],
     "a parameter for which all trials are rejected, followed by another one that is accepted",
     "the value rejected for one parameter is stored together with the next accepted parameter: the walker's logL is not that of its parameters, or what was not accepted is stored", HEAD + """
m = PolynomialModel(1)
m.setLimits([-10, -10], [10, 10])
x = np.arange(6.0)
p = ClassicProblem(m, xdata=x, ydata=1 + 2 * x)
e = GaussErrorDistribution(scale=0.1)
class Script(object):
    def __init__(self): self.k = 0
seen = []
org = e.updateLogL
count = [0]
def scripted(problem, allpars, parval=None):
    count[0] += 1
    L = 0.0 if count[0] == eng.maxtrials + 1 else -5.0
    return L
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.Walker import Walker
from BayesicFitting.source.PhantomCollection import PhantomCollection
from BayesicFitting.source.GibbsEngine import GibbsEngine
w = Walker(0, p, np.array([1.0, 2.0, 0.1]), np.array([0, 1]))
w.logL = -1.0
wl = WalkerList(walker=w, ensemble=4)
for k in range(4):
    wl[k].logL = -1.0
    wl[k].id = k
ph = PhantomCollection()
for q in wl:
    ph.storeItems(q)
eng = GibbsEngine(wl, e, phantoms=ph, seed=3)
object.__setattr__(e, "updateLogL", scripted)
eng.execute(0, -1.0, append=False)
new = wl[0].allpars
changed = int(np.sum(new[:2] != np.array([1.0, 2.0])))
sys.exit(0 if changed == 1 else 1)
""")

seed("p29", "C17", [("GalileanEngine.py", "allpars = ptry.copy( )", "allpars = ptry")],
     "a walk of the GalileanEngine that tries another step after a successful one",
     "the parameters of a walker are moved along with trials that are refused", HEAD + """
m = PolynomialModel(1)
m.setLimits([-10, -10], [10, 10])
x = np.arange(6.0)
ns = NestedSampler(x, m, 1 + 2 * x, verbose=0, ensemble=20, engines=["galilean"], distribution="gauss", seed=321)
ns.distribution.setLimits([0.1, 10])
ns.distribution.setLimits([0.1, 10])
ns.maxIterations = 30
ns.sample()
for w in list(ns.walkers) + list(ns.samples):
    if not close(w.logL, ns.distribution.logLikelihood(ns.problem, w.allpars)):
        sys.exit(1)
""")

seed("p31", "C18", [("LevenbergMarquardtFitter.py", "nres = ( self.normdata - numpy.inner( self.normdfdp, params ) ) * self.normweight",
                     "nres = ( self.normdata - numpy.inner( self.normdfdp, params ) ) * numpy.sqrt( self.normweight )")],
     "a normalisation of which the weight is not 1", "the first step is not downhill: the fit ends at the wrong place", HEAD + """
x = np.linspace(0, 2, 21)
m = GaussModel()
y = 2 * np.exp(-0.5 * ((x - 1) / 0.3) ** 2)
f = LevenbergMarquardtFitter(x, m)
f.normalize([1.0, 0, 0], 3.0, weight=40.0)
p = f.fit(y, par0=[2.2, 1.02, 0.28], tolerance=1e-12)
m.parameters = p
def chi(q):
    return np.sum((y - m.result(x, np.array(q))) ** 2) + 40 * (q[0] - 3) ** 2
c = chi(p)
for k in range(3):
    for d in (-1e-3, 1e-3):
        q = list(p)
        q[k] += d
        if chi(q) < c - 1e-9:
            sys.exit(1)
""")

seed("p32", "C18", [("CurveFitter.py", "sigma = numpy.append( sigma, 1.0 / numpy.sqrt( nw ) )", "sigma = numpy.append( sigma, 1.0 / nw )")],
     "a normalisation of which the weight is not 1", "the normalisation gets the square of its weight", HEAD + """
x = np.linspace(0, 2, 21)
y = 1.0 + 0.0 * x
m = PolynomialModel(0)
f = CurveFitter(x, m)
f.normalize([1.0], 3.0, weight=21.0)
p = f.fit(y)
sys.exit(0 if close(p, [2.0], 1e-4) else 1)
""")

seed("p33", "C18", [("MaxLikelihoodFitter.py", "return - self.errdis.hessianLogL( self.problem, param, self._index )",
                     "return - self.errdis.hessianLogL( self.problem, param, range( len( par ) ) )")],
     "a fitter that uses second derivatives, with an error distribution and a parameter that is kept, not being the last one",
     "the second derivatives are those of other parameters", HEAD + """
x = np.linspace(0, 2, 21)
m = PolynomialModel(2)
m.parameters = [0.1, 0.2, 0.3]
f = NewtonCgFitter(x, m, errdis="gauss", scale=0.5)
fi, d, w = f.fitprolog(x ** 2, keep={0: 0.4})
fun, grad, hess = f.makeFuncs(d, weights=w, index=fi)
h = hess(np.array([0.2, 0.3]))
sys.exit(0 if close(h, [[np.sum(x ** 2) / 0.25, np.sum(x ** 3) / 0.25], [np.sum(x ** 3) / 0.25, np.sum(x ** 4) / 0.25]]) else 1)
""")

seed("p34", "C19", [("AnnealingAmoeba.py", "trypar[k] = ( oldpar[k] + self.lolimits[k] ) / 2", "trypar[k] = 2 * self.lolimits[k] - trypar[k]")],
     "limits that are close together compared to the step", "the mirrored point is beyond the other limit", HEAD + """
seen = []
def f(x):
    seen.append(x.copy())
    return (x[0] - 0.1) ** 2 + (x[1] + 30) ** 2 * 0.01
from BayesicFitting.source.AnnealingAmoeba import AnnealingAmoeba
AnnealingAmoeba(f, [0.5, 40.0], size=[-2.0, 5.0], limits=[[0.0, -40.0], [1.0, 50.0]])
s = np.array(seen)
sys.exit(0 if np.all(s[:, 0] >= 0) and np.all(s[:, 0] <= 1) else 1)
""")

seed("p35", "C19", [("AnnealingAmoeba.py", """            if i == 0 or self.values[i] < self.fopt:
                self.fopt = self.values[i]
                self.xopt = corner.copy()""", """            if i == 0 or self.values[i] < self.fopt:
                self.fopt = self.values[i]
                self.xopt = corner""")],
     "no better point is found than the best corner of the starting simplex", "xopt changes with the simplex: it is not the place of the lowest value", HEAD + """
from BayesicFitting.source.AnnealingAmoeba import AnnealingAmoeba
for k in range(3):
    def f(x):
        return float(np.sum((x - best) ** 2))
    best = np.array([1.0, 2.0])
    if k < 2:
        best[k] += 1
    a = AnnealingAmoeba(f, [1.0, 2.0], size=1)
    x = a.minimize()
    if f(x) != a.fopt:
        sys.exit(1)
""")

seed("p36", "C18", [("BaseFitter.py", "self.normweight = numpy.append( self.normweight, weight )", "self.normweight = numpy.append( weight, self.normweight )")],
     "two normalisations with different weights", "the normalisations get each other's weights", HEAD + """
x = np.linspace(0, 2, 21)
m = PolynomialModel(0) 
f = LevenbergMarquardtFitter(x, m)
f.normalize([1.0], 3.0, weight=21.0)
f.normalize([1.0], 1.0, weight=0.001)
p = f.fit(1.0 + 0.0 * x, tolerance=1e-13)
sys.exit(0 if close(p, [2.0], 1e-3) else 1)
""")

seed("p37", "C20", [("LaplaceErrorDistribution.py", "return sumres / problem.sumweight", "return sumres / problem.ndata")],
     "a problem with weights", "the scale of weighted Laplace noise is not its most likely value", HEAD + """
m = PolynomialModel(0)
x = np.arange(5.0)
y = np.array([1.0, -2.0, 4.0, 0.5, -1.0])
w = np.array([1.0, 2.0, 3.0, 2.0, 1.0])
pr = ClassicProblem(m, xdata=x, ydata=y, weights=w)
ed = LaplaceErrorDistribution()
ap = np.array([0.1, 1.0])
sc = ed.getScale(pr, allpars=ap)
best = ed.logLikelihood(pr, np.array([0.1, sc]))
sys.exit(0 if all(ed.logLikelihood(pr, np.array([0.1, sc * f])) <= best for f in (0.7, 0.9, 0.99, 1.01, 1.1, 1.5, 2.0)) else 1)
""")

seed("p38", "C20", [("UniformErrorDistribution.py", "return numpy.max( numpy.abs( res ) )", "return numpy.max( res )")],
     "data of which the largest residual is below the model", "the scale of the uniform noise leaves residuals outside", HEAD + """
m = PolynomialModel(0)
x = np.arange(5.0)
y = np.array([1.0, -2.0, 1.5, 0.5, -1.0])
pr = ClassicProblem(m, xdata=x, ydata=y)
ed = UniformErrorDistribution()
ap = np.array([0.0, 1.0])
sys.exit(0 if close(ed.getScale(pr, allpars=ap), 2.0) else 1)
""")

seed("p39", "C21", [("Prior.py", """        rm = self.logResult( p - self.deltaP )
        rp = self.logResult( p + self.deltaP )
        return ( rp - rm ) / ( 2 * self.deltaP )""", """        rm = self.logResult( p )
        rp = self.logResult( p + self.deltaP )
        return ( rp - rm ) / self.deltaP""")],
     "a prior that leaves partialLog to its parent", "the numeric partial of log prior is one sided", HEAD + """
class MyPrior(Prior):
    def result(self, p):
        return math.exp(-p * p)
    def logResult(self, p):
        return -p * p
    def copy(self):
        return MyPrior()
pr = MyPrior()
pr.deltaP = 0.1
sys.exit(0 if close(pr.partialLog(0.5), -1.0) else 1)
""")

seed("p40", "C21", [("ErrorDistribution.py", """            i += 1
            p[k]= allpars[k]
        return dL""", """            i += 1
        return dL""")],
     "a likelihood in which the parameters interact", "the numeric partials are taken at displaced values of the earlier parameters", HEAD + """
m = PolynomialModel(1)
x = np.arange(5.0)
y = np.array([1.0, -2.0, 1.5, 0.5, -1.0])
pr = ClassicProblem(m, xdata=x, ydata=y)
ed = GaussErrorDistribution(scale=0.5)
ed.deltaP = 0.1
ap = np.array([0.3, 0.2, 0.5])
fi = np.array([0, 1])
sys.exit(0 if close(ed.numPartialLogL(pr, ap, fi), ed.partialLogL(pr, ap, fi)) else 1)
""")

seed("p42", "C22", [("RobustShell.py", "residuals /= ( scale * domain )", "residuals /= ( scale * self.domain )")],
     "a domain given in the call of fit", "the domain given in the call has no effect", HEAD + """
np.random.seed(1)
x = np.linspace(-1, 1, 51)
y = 1 + x + 0.1 * np.sin(37 * x)
y[[3, 20, 44]] += 2
m = PolynomialModel(1)
a = RobustShell(Fitter(x, m))
pa = a.fit(y, domain=3.0)
b = RobustShell(Fitter(x, m), domain=3.0)
pb = b.fit(y)
sys.exit(0 if close(pa, pb) and close(a.weights, b.weights) else 1)
""")

seed("p43", "C23", [("ImageAssistant.py", "        if center :\n            xdata += 0.5", "        if center and deproject is None :\n            xdata += 0.5")],
     "positions of the centers of the pixels with a deprojection", "the deprojection is given the corners of the pixels", HEAD + """
im = np.arange(6.0).reshape(2, 3)
a = ImageAssistant().getPositions(im, deproject=lambda q: 10 * q)
b = ImageAssistant().getPositions(im)
sys.exit(0 if close(a, 10 * b) and close(a.min(), 5.0) else 1)
""")

seed("p44", "C24", [("SplinesModel.py", """        if k > self.order :
            k = self.order
        return self.yUnit / ( self.xUnit ** k )""", """        if k > 3 :
            k = 3
        return self.yUnit / ( self.xUnit ** k )""")],
     "a spline of another order than 3", "the units of the parameters beyond the order are those of cubic splines", HEAD + """
from astropy import units
m = SplinesModel(knots=[0.0, 1.0, 2.0, 3.0], order=2)
m.xUnit = units.m
m.yUnit = units.kg
sys.exit(0 if m.getParameterUnit(4) == units.kg / units.m ** 2 else 1)
""")

seed("p45", "C24", [("Model.py", "for u in self.xUnit : unit *= u", "for u in set( self.xUnit ) : unit *= u")],
     "a model with more inputs in the same unit", "the unit of the integral has every unit of the inputs once only", HEAD + """
from astropy import units
m = PolySurfaceModel(1)
m.xUnit = [units.m, units.m]
m.yUnit = units.kg
sys.exit(0 if m.getIntegralUnit() == units.kg * units.m ** 2 else 1)
""")

seed("p46", "C25", [("HarmonicDynamicModel.py", "basePrior( k % self.deltaNpar )", "basePrior( k )")],
     "a HarmonicDynamicModel with limits on its first two parameters, that has grown", "the priors of the sines and cosines of higher order are that of the sine", HEAD + """
m = HarmonicDynamicModel(1)
m.setLimits([-4.0, 1.0], [5.0, 2.0])
m.grow(rng=np.random.RandomState(3))
sys.exit(0 if m.getPrior(2).lowLimit == -4.0 and m.getPrior(3).lowLimit == 1.0 else 1)
""")

seed("p47", "C25", [("SplinesDynamicModel.py", "if nrknots <= self.minKnots :\n            return False", "if nrknots < self.minKnots :\n            return False")],
     "a spline with the minimum number of knots that shrinks", "it gets less than the minimum number of knots", HEAD + """
m = SplinesDynamicModel(knots=[0.0, 1.0, 2.0, 3.0], minKnots=4)
m.setLimits([-10.0], [10.0])
r = m.shrink(rng=np.random.RandomState(1))
sys.exit(0 if r is False and len(m.knots) == 4 else 1)
""")

seed("p48", "C25", [("Dynamic.py", "value[k] = head.unit2Domain( rng.rand(), k + k1 )", "value[k] = head.unit2Domain( rng.rand(), k + location )")],
     "a dynamic model that comes after other models in the chain", "the new parameters are drawn from the priors of other parameters", HEAD + """
m = GaussModel()
m.setLimits([10.0, 10.0, 10.0], [20.0, 20.0, 20.0])
h = HarmonicDynamicModel(1)
h.setLimits([-1.0, -1.0], [1.0, 1.0])
m += h
q = m._next
q.grow(offset=3, rng=np.random.RandomState(3))
sys.exit(0 if len(m.parameters) == 7 and np.all(np.abs(m.parameters[5:]) <= 1) else 1)
""")

seed("p49", "C26", [("DecisionTreeModel.py", "setatt( dtm.left, \"parent\", dtm )\n            setatt( dtm, \"rite\", self.rite.copy() )\n            setatt( dtm.rite, \"parent\", dtm )", "setatt( dtm.left, \"parent\", dtm )\n            setatt( dtm, \"rite\", self.rite.copy() )\n            setatt( dtm.rite, \"parent\", self )")],
     "a copy of a tree of which a leaf on the right is removed", "the copy removes the leaf from the original tree", HEAD + """
m = DecisionTreeModel(ndim=1, kdim=[0], depth=1)
c = m.copy()
c.shrink(location=1)
sys.exit(0 if m.countLeaf() == 2 and c.countLeaf() == 1 else 1)
""")

seed("p50", "C26", [("DecisionTreeModel.py", "cmp = ( xd & self.mask ) != 0", "cmp = ( xd & self.mask ) == self.mask")],
     "a categorial axis and a mask of more than one category", "inputs in one of the categories of the mask go to the wrong side", HEAD + """
x = np.array([[1], [2], [4], [1], [4]])
m = DecisionTreeModel(ndim=1, kdim=[0], depth=1, itypes=[3], split=0.6)
r = m.result(x, np.array([1.0, 2.0]))
sys.exit(0 if m.mask == 5 and close(r, [1, 2, 1, 1, 1]) else 1)
""")

seed("p51", "C26", [("DecisionTreeModel.py", "cmp = xd > split if self.split < 0.5 else", "cmp = xd > split if self.split <= 0.7 else")],
     "unknown values on an axis with a split between 0.5 and 0.7", "the unknown values go to the larger side", HEAD + """
x = np.array([0.0, 0.2, 0.4, 0.6, 0.8, 1.0, np.nan])
m = DecisionTreeModel(ndim=1, kdim=[0], depth=1, split=0.65)
r = m.result(x, np.array([1.0, 2.0]))
sys.exit(0 if close(r, [2, 2, 2, 2, 1, 1, 1]) else 1)
""")

seed("p52", "C26", [("DecisionTreeModel.py", "left, kbr = left.decode( code[0], kdim, splim, kbr+1 )", "left, kbr = left.decode( code[0], kdim, splim, min( kbr, 1 ) + 1 )")],
     "a tree made from a code, with branches at three levels", "a deep branch gets the cut of another one", HEAD + """
m = DecisionTreeModel(ndim=4, kdim=[0], depth=0)
for k in range(4):
    m.grow(location=0, kdim=k, split=0.2 + 0.1 * k)
c, d, s = m.encode()
n = DecisionTreeModel(ndim=4, code=c, kdim=d, split=s)
sys.exit(0 if n.encode() == m.encode() else 1)
""")
