"""property id -> (module, function, rule, floor)"""
import importlib
from .report import Report

CHECKS = {
    "C01": ("models", "run_partial", "abstract interpretation of every concrete model class to a value graph of "
            "result and partial in generic input and parameters; each column of partial is compared with the symbolic "
            "derivative of result (identity test of the two value graphs)", 60),
    "C02": ("models", "run_derivative", "value graph of derivative compared with the symbolic derivative of result to "
            "the input, for every concrete model class", 25),
    "C03": ("docfun", "run_doc", "value graph of the result of every concrete model class compared with the formula in its "
            "documentation", 35),
    "C04": ("compound", "run_compound", "value graphs of result, partial and derivative of compound models, for every shape of "
            "composition up to four components, compared with the composition of the component functions and its symbolic "
            "derivatives", 150),
    "C05": ("fixedpar", "run_fixed", "value graphs of result, partial and derivative of every model class with constants or models "
            "at its parameter positions, compared with the value graph of the full model at those values", 100),
    "C06": ("likelihood", "run_logl", "value graph of the log-likelihood of every error distribution, with and without weights and "
            "accuracies, compared with the reduction over the data of the documented log density", 20),
    "C07": ("likelihood", "run_grad", "value graph of the gradient of the log-likelihood of every error distribution compared with the "
            "symbolic derivatives of its log-likelihood", 20),
    "C08": ("priors", "run_priors", "value graphs of both maps, density, log density and its derivative of every prior class, for every combination of limits "
            "and circularity and every way to set them, compared with the documented density and its integral", 40),
    "C09": ("limits", "run_limits", "abstract interpretation of the ways to set limits and priors on models of every structure, with symbolic limits: "
            "the limits, priors and unit maps found for every (hyper)parameter are compared with what was set", 40),
    "C10": ("kernels", "run_kernels", "value graphs of result, partial and resultsq of every kernel; identity of partial with the symbolic derivative, of resultsq with "
            "result, and the declared constants (fwhm, integral, range) compared with those of the value graph of result", 30),
    "C11": ("fitters", "run_linear", "value graphs of the parameters returned by the linear fitters and of everything derived from the fit compared with the solution of the "
            "normal equations, for generic data, weights, accuracies and kept parameters, also after a second fit", 40),
    "C12": ("problems", "run_problems", "value graphs of result, residuals, weightedResSq, partial and derivative of every problem class, with and without weights and "
            "(co)variances, compared with the same quantities made from data and model; distances of routes compared with those of the nodes", 40),
    "C13": ("copies", "run_copies", "abstract interpretation of copy() of every model, prior, error distribution and problem: the copy has the same value graphs, and after "
            "every public change of one of the two the value graphs of the other are what they were", 40),
    "C14": ("samples", "run_samples", "value graphs of every summary of a list of weighted samples (averages, deviations, median, modus, evolutions, results) with symbolic "
            "weights and parameters compared with the weighted sums over the samples; walkers, their copies and their conversion to samples", 40),
    "C15": ("evidence", "run_evidence", "value graphs of logZ, information, widths and samples after one update with symbolic likelihoods compared with the nested sampling "
            "sums; abstract interpretation of complete runs with given likelihoods: which walkers are discarded, replaced and recorded", 40),
    "C16": ("reprod", "run_reprod", "name resolution over every source file: no use of a generator that is global or has no seed; abstract interpretation of everything that takes a seed: the seeds of all "
            "generators that are made, the samples of repeated runs, and the values in modules, classes and default arguments before and after use", 200),
    "C17": ("engines", "run_engines", "abstract interpretation of every engine with given random numbers in every landscape of accepted and rejected proposals: what is proposed, accepted, "
            "stored and reported", 40),
    "C18": ("nlfit", "run_nlfit", "value graphs of the function, gradient, Hessian, start and limits handed to the minimizer by every iterative fitter compared with the documented cost of "
            "data and model; the answer of the minimizer, as fresh symbols, compared with what the fitter returns and reports", 40),
    "C19": ("amoeba", "run_amoeba", "interpretation of the simplex minimizer in every landscape of relative outcomes up to a length: evaluated points against the limits, best value and point, values and sum "
            "of the simplex, moves of the downhill simplex method, end and counters, arguments of the caller", 40),
    "C20": ("scale", "run_scale", "value graphs of getScale and toSigma of every error distribution, for generic data, weights, accuracies and parameters, compared with the scale at which "
            "the log likelihood is stationary (or that solves the documented equation) and with the documented standard deviation", 40),
    "C21": ("numeric", "run_numeric", "value graphs of the numeric partials, derivatives and gradients of models, error distributions and priors without derivatives of their own, for functions of which "
            "the central differences are exact, compared with the symbolic derivative", 40),
    "C22": ("robust", "run_robust", "value graphs of the weights RobustShell hands to a recording fitter in every round, for generic data, compared with the kernel at the deviants of the "
            "previous round; number of rounds in scripted landscapes of chisq; what is returned and kept", 40),
    "C23": ("images", "run_images", "value graphs of indices, positions, values and reshaped results of images of symbols, for shapes up to four dimensions and both orders, compared pixel by pixel", 40),
    "C24": ("units", "run_units", "units of the parameters of every model, found by abstract interpretation of its unit methods, as scale factors: the value graph of result at scaled inputs and parameters compared with the scaled result", 40),
    "C25": ("dynamic", "run_dynamic", "abstract interpretation of histories of grow, shrink and vary of every dynamic model, alone and in chains: value graphs, priors, names and units compared with those of a new model of that size, parameters with the documented ones", 40),
    "C26": ("trees", "run_trees", "abstract interpretation of histories of grow, shrink and vary of decision trees, alone and in chains, with symbols as parameters: value graphs, structure, code and numbers compared with those of the tree written down separately", 40),
}
def run(pid, tier):
    mod, fun, rule, floor = CHECKS[pid]
    m = importlib.import_module("bfstatic.checks." + mod)
    R = Report(pid, tier, rule, floor)
    try:
        getattr(m, fun)(R)
    except Exception as e:      # what was decided before stands
        import os
        import traceback
        if os.environ.get("BF_DEBUG"):
            raise
        R.undecided("internal", traceback.format_exc().strip().replace("\n", " | ")[-280:])
    return R.finish()
