"""oracle, bounds and cost per property, for DESIGN.md"""
DETAILS = {
    "C01": dict(oracle="the symbolic derivative of the value graph of result", bounds="every class x the constructor variants of zoo.py (orders, dimensions, numbers of knots); data axis and parameters symbolic", cost="10-30 s"),
    "C02": dict(oracle="the symbolic derivative of result to the input", bounds="as C01", cost="10-20 s"),
    "C03": dict(oracle="the formulas of the documentation, transcribed by hand", bounds="as C01; classes without closed form are listed as undecided", cost="10 s"),
    "C04": dict(oracle="composition of the components' value graphs, and its symbolic derivatives", bounds="all shapes up to 4 components with the 5 operators and brackets; one- and two-dimensional leaves", cost="31 s"),
    "C05": dict(oracle="the value graph of the unfixed model with constants (or other value graphs) substituted", bounds="every class; single, paired and mixed positions; thorough: all pairs", cost="76 s"),
    "C06": dict(oracle="the documented normalised density of each distribution", bounds="9 distributions x weights x accuracies x problem kinds", cost="20 s"),
    "C07": dict(oracle="the symbolic derivative of the log-likelihood's value graph", bounds="as C06, several lists of indices", cost="23 s"),
    "C08": dict(oracle="the documented density and its integral, in closed form", bounds="7 classes x limits (none, low, high, both) x circular x way of setting", cost="20 s"),
    "C09": dict(oracle="the table of what was set", bounds="19 model structures up to 4 components; all patterns of limits", cost="25 s"),
    "C10": dict(oracle="symbolic derivative, quadrature and evaluation of result's graph", bounds="all kernels, Tophat 0-6", cost="10 s"),
    "C11": dict(oracle="the normal equations and the definitions of the derived quantities", bounds="linear models up to 3 parameters; histories of two fits", cost="36 s"),
    "C12": dict(oracle="the same quantities made from data and model; distances between nodes", bounds="2-3 data for errors in both; 3-5 nodes", cost="15 s"),
    "C13": dict(oracle="the value graphs of the original, before the change", bounds="every concrete class and 30 compound structures; one change at a time", cost="46 s"),
    "C14": dict(oracle="weighted sums over the samples", bounds="1-4 samples, up to 3 parameters, symbolic weights", cost="26 s"),
    "C15": dict(oracle="the nested sampling sums; a reference course of the run", bounds="one update: symbolic; runs: given likelihoods, 3-50 walkers, 1-4 discarded", cost="5 s"),
    "C16": dict(oracle="none needed (lint, effects); the first of two equal runs", bounds="all files; 8 kinds of sampler run of a few iterations", cost="27 s"),
    "C17": dict(oracle="the landscape: which proposals are acceptable, and the state before", bounds="all patterns of 4 outcomes; 7 settings of kept and hyperparameters; 8 dynamic models x 4 places in a chain", cost="160 s"),
    "C18": dict(oracle="chisq and -logL written down from data and model, and their symbolic derivatives; the problem given to the fitter", bounds="11 scipy methods + 3 other fitters x error distributions x weights x accuracies x kept (fitter / fit) x limits x settings; two subsequent fits; Levenberg-Marquardt: all outcomes of the first 4 comparisons (thorough 6)", cost="27 s"),
    "C19": dict(oracle="the scripted landscape and the rules of the downhill simplex", bounds="1-3 dimensions, all scripts of 3 (thorough 4) outcomes out of 7 x orders of the first values; 16 pairs of limits x 7 starts x 4 sizes", cost="28 s"),
    "C20": dict(oracle="closed forms of the maximum likelihood scale and of the variance, and the derivative of the log likelihood found by the interpreter", bounds="7 distributions x weights x accuracies x 3 ways to give parameters", cost="2 s"),
    "C21": dict(oracle="symbolic derivatives of quadratic functions written down in the check", bounds="7 kinds of user models x 8 ways to fix x copies x 3 kinds of steps; 42 compound models; 2-d and multi-output models; 2 error distributions; 4 priors", cost="9 s"),
    "C22": dict(oracle="the documented weights written down from data, parameters and scale of the previous round", bounds="all kernels and a function of the user x sides x weights x ways to set them; 7 courses of chisq x 3 tolerances x 5 maxIter; two subsequent fits", cost="4 s"),
    "C23": dict(oracle="the image itself, pixel by pixel", bounds="13 shapes up to 4 dimensions x orders x centers", cost="4 s"),
    "C25": dict(oracle="a new model of the same size; the documented effect on the parameters", bounds="14 dynamic models x 3 (thorough: 5) chains x 12 histories up to 3 calls x without or with random generator", cost="70 s"),
    "C24": dict(oracle="result at inputs and parameters scaled with their units = the result scaled with the unit of y", bounds="every model in the zoo, the special compounds; parameters fixed by numbers and by models; 5 operators x 9 chains", cost="5 s"),
    "C26": dict(oracle="the tree as nested tuples, with the rules of the statement, kept up separately", bounds="trees up to 4 leafs by every series of locations x 4 sets of 8 inputs x every location, and draws; 4 places in a chain; constructor to depth 2 (thorough: one more everywhere)", cost="30 s"),
}
CAUGHT = {}
