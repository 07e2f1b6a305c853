"""The properties: the single source of properties.jsonl and MANIFEST.json"""

VG = ("The analysis decides the identity of two value graphs by evaluating both at points of a fixed pseudo-random set with "
      "high precision (a difference is a witness; agreement means identical up to measure zero). Trusted: the abstract "
      "transfer functions for Python and numpy in bfstatic/. Constructs the interpreter cannot represent are listed as "
      "undecided in the evidence and raise no alarm.")

NA = {}

PROPS = [
    dict(id="C01", title="Partial derivatives of every model are the exact derivatives of its result",
         statement="For every model class that provides analytic partials, each column of the matrix returned by partial(xdata, params) "
         "equals the derivative of result(xdata, params) with respect to that parameter, for all inputs and all parameter values "
         "where the model is differentiable. The columns are in the order of the parameters, one column per free parameter, and "
         "one such matrix per output for models with more outputs.",
         over=["inputs"], forall="all model classes and constructor variants; all x and all parameter values in the domain of the model",
         why="The tests compare a numeric with an analytic derivative at a few points for a few models; a term that vanishes at those points, or a "
         "variant that no test constructs, goes unseen.",
         files=["Model.py", "FixedModel.py", "GaussModel.py", "SplinesModel.py", "BasicSplinesModel.py", "StellarOrbitModel.py"],
         mech=[("basePartial of every concrete model", "*Model.py"), ("Model.partial assembling the columns", "Model.py:Model.partial")],
         note="Every concrete model class in every constructor variant of the table in bfstatic/zoo.py. " + VG),
    dict(id="C02", title="The derivative of every model to its input is exact",
         statement="For every model class that provides an analytic derivative, derivative(xdata, params) equals the derivative of "
         "result(xdata, params) to the input, for all inputs and all parameter values where it is differentiable. For inputs of more "
         "dimensions it has one column per input dimension, and for more outputs there is one such array per output.",
         over=["inputs"], forall="all model classes with an analytic derivative; all x and parameter values in their domain",
         why="The derivative is used only by errors-in-both-variables fitting and by piped models; the tests sample it at a few points of a few classes.",
         files=["Model.py", "SplinesModel.py", "EtalonDriftModel.py", "SineSplineModel.py", "StellarOrbitModel.py"],
         mech=[("baseDerivative of every concrete model", "*Model.py"), ("Model.derivative", "Model.py:Model.derivative")],
         note="Same technique and assumptions as C01. " + VG),
    dict(id="C03", title="Every model computes the function its documentation states",
         statement="The result of every model class equals the mathematical function documented for that class (its formula, "
         "with the documented meaning and order of the parameters), for all inputs and parameter values in its domain.",
         over=["inputs"], forall="all model classes with a documented closed form; all x and parameter values",
         why="Tests check a handful of values, mostly at default parameters where several terms vanish or are equal to 1.",
         files=["GaussModel.py", "VoigtModel.py", "EtalonModel.py", "HarmonicModel.py", "SplinesModel.py", "StellarOrbitModel.py", "PadeModel.py"],
         mech=[("baseResult of every concrete model", "*Model.py"), ("kernel functions", "kernels/*.py")],
         note="The documented formulas are transcribed once, by hand, in bfstatic/checks/docfun.py. " + VG),
    dict(id="C04", title="Compound models are the composition of their components",
         statement="A model built from other models with +, -, *, / or |, to any depth and with any bracketing, evaluates to the same "
         "composition of the components' functions, each component taking its own consecutive block of the parameters in order of "
         "appearance. Its partial and derivative are the exact derivatives of that composition. The same holds for product, repeating, "
         "combined, constant and kernel composite models.",
         over=["programs", "inputs"], forall="all expressions over models and the five operators; all inputs and parameters",
         why="The number of expressions is unbounded; tests try a few two- and three-component ones, mostly sums.",
         files=["Model.py", "BracketModel.py", "Brackets.py", "ProductModel.py", "CombiModel.py", "RepeatingModel.py", "ConstantModel.py"],
         mech=[("operator overloads and chaining", "Model.py:Model.addModel"), ("parameter slicing per component", "Model.py:Model.result"),
               ("product, quotient and chain rule", "Model.py:Model.partial")],
         note="All expression shapes up to four components, with one- and more-dimensional leaves; the loops over components treat each "
         "component alike, so longer chains repeat the analysed steps. " + VG),
    dict(id="C05", title="Fixing parameters leaves the model otherwise unchanged",
         statement="A model constructed with some parameters fixed at constants equals the unfixed model evaluated with those parameters at "
         "the constants, and when a parameter is replaced by another model it equals the unfixed model with that parameter equal to the "
         "other model's result. The free parameters keep their order, their number is reduced accordingly, and partial and derivative "
         "are those of the resulting function of the free parameters.",
         over=["configurations", "inputs"], forall="all model classes, all choices of fixed parameters (constants and models), all inputs and free parameter values",
         why="There are 2^n choices per model; tests fix one or two parameters of a few models.",
         files=["FixedModel.py", "Model.py", "PseudoVoigtModel.py", "SoftMaxModel.py", "PowerModel.py", "FreeShapeModel.py"],
         mech=[("expansion of the parameter list", "FixedModel.py:FixedModel.expand"), ("column selection", "FixedModel.py:FixedModel.partial")],
         note="Every single parameter, several pairs (thorough: all pairs) and mixtures of constants and polynomial models, for every class. " + VG),
    dict(id="C06", title="The log-likelihood is the sum over the data of the log of the documented density",
         statement="For every error distribution (Gauss, Laplace, Cauchy, Uniform, Exponential, Poisson, Bernoulli, Mixed and Gauss2d) the "
         "log-likelihood of a problem at given parameters and hyperparameters is the sum over all data of the logarithm of the documented, "
         "normalised probability density of the residual, multiplied by the weight of the datum where the distribution accepts weights, "
         "and with the accuracy of the data combined with or substituted for the scale as documented. That holds for one and for more "
         "outputs, for all ways in which weights and accuracies can be given, for both code paths (from the individual data and the direct one), "
         "and the standard deviation (toSigma) belonging to a scale is that of the density.",
         over=["inputs", "configurations"], forall="all data, weights, accuracies, models, parameters and hyperparameters",
         why="Tests compare the two code paths with each other at some data; a normalisation error common to both, or one that shows only with weights, "
         "accuracies or more outputs, is not seen. Evidences and scales depend on it.",
         files=["ErrorDistribution.py", "ScaledErrorDistribution.py", "GaussErrorDistribution.py", "LaplaceErrorDistribution.py", "CauchyErrorDistribution.py",
                "UniformErrorDistribution.py", "ExponentialErrorDistribution.py", "PoissonErrorDistribution.py", "BernoulliErrorDistribution.py",
                "MixedErrorDistribution.py", "Gauss2dErrorDistribution.py", "LogFactorial.py"],
         mech=[("log density per datum", "*ErrorDistribution.py:logLdata"), ("residuals, weights and accuracies", "Problem.py, MultipleOutputProblem.py, ErrorsInXandYProblem.py")],
         note="Each distribution x weights x accuracy (none, one, one per datum), multi-output and errors-in-x-and-y problems, pairs of mixed distributions; the data "
         "axis is symbolic (three concrete generic data for errors in x and y). " + VG),
    dict(id="C07", title="The gradient of the log-likelihood is exact",
         statement="For every error distribution the gradient returned by partialLogL (and by partialLogL_alt where implemented) contains, for every index "
         "in fitIndex and in that order, the exact derivative of the log-likelihood to that parameter or (negative index) hyperparameter, with the same "
         "weights and accuracies as the log-likelihood itself. (The derivative to the scale of a non-Gaussian distribution with given accuracies "
         "is documented as not implemented.)",
         over=["inputs", "configurations"], forall="all data, weights, accuracies, models, (hyper)parameters and lists of fitted indices",
         why="Tests compare with numeric derivatives for a few problems and one order of fitIndex; gradients are used by the engines and the maximum "
         "likelihood fitters, where a wrong one shows only as poor convergence.",
         files=["ErrorDistribution.py", "GaussErrorDistribution.py", "LaplaceErrorDistribution.py", "CauchyErrorDistribution.py", "ExponentialErrorDistribution.py",
                "PoissonErrorDistribution.py", "BernoulliErrorDistribution.py", "MixedErrorDistribution.py", "Gauss2dErrorDistribution.py"],
         mech=[("partials per datum", "*ErrorDistribution.py:nextPartialData"), ("summation", "ErrorDistribution.py:ErrorDistribution.partialLogL")],
         note="Same configurations as C06, with several lists of indices. " + VG),
    dict(id="C08", title="Every prior is a normalised density with exact maps to the unit interval",
         statement="For every prior class (Uniform, Jeffreys, Gauss, Laplace, Cauchy, Exponential, CircularUniform), with no, one or two limits and circular or not, "
         "and however those limits are obtained (constructor, copy, setLimits, setAttributes, changed again, removed): domain2Unit is the cumulative "
         "distribution of the documented density restricted to the limits, unit2Domain is its inverse and maps (0,1) into the limits, result is the normalised "
         "density (zero outside the limits), logResult is its logarithm, and partialLog the derivative of that. Circular priors wrap with the period. "
         "Arrays are treated as their elements.",
         over=["inputs", "configurations"], forall="all prior classes, limits, centers, scales, periods and values",
         why="Nested sampling draws all its walkers through unit2Domain; a wrong map biases every posterior while each single value looks plausible. "
         "Tests check a few values at fixed limits given to the constructor.",
         files=["Prior.py", "UniformPrior.py", "JeffreysPrior.py", "GaussPrior.py", "LaplacePrior.py", "CauchyPrior.py", "ExponentialPrior.py", "CircularUniformPrior.py"],
         mech=[("limits and circularity", "Prior.py:Prior.setLimits, setPriorAttributes"), ("maps and density per class", "*Prior.py")],
         note="Limits, center, scale, value and unit value are symbolic. " + VG),
    dict(id="C09", title="Limits and priors reach the parameter they are set for",
         statement="When limits or priors are set on a model of any structure (single, compound, with brackets, repeated, with fixed parameters), the prior found for parameter k - by "
         "getPrior, getLimits, and by the maps unit2Domain, domain2Unit and partialDomain2Unit for one parameter or for all parameters together - is the one set for parameter k; "
         "when only low or only high limits are given, or None at a place, that side is unlimited. hasPriors and hasLimits are true only when all components have them; setting them"
         " on a compound does not change the models it was made of. The maps of the engines use the prior of each parameter and, for negative indices, that of each hyperparameter "
         "of the error distribution.",
         over=["configurations", "programs"], forall="all model structures, all limits and priors, all parameter indices",
         why="Priors are looked up through chains of components and nested brackets with shifting indices; tests use simple chains, mostly with the same limits everywhere.",
         files=["Model.py", "BaseModel.py", "RepeatingModel.py", "HyperParameter.py", "ErrorDistribution.py", "ScaledErrorDistribution.py", "Engine.py", "Problem.py"],
         mech=[("index shift along the chain", "Model.py:Model.getPrior, setPrior"), ("all parameters", "Model.py:Model.nextPrior"), ("engine maps", "Engine.py:Engine.unit2Domain")],
         note="Nineteen model structures up to four components, all patterns of limits; symbolic limits. " + VG),
    dict(id="C10", title="The constants and derivative of every kernel are those of its function",
         statement="For every kernel (Gauss, Lorentz, Sinc, Huber, Biweight, Triweight, Tricube, Triangle, Parabola, Cosine, CosSquare, Uniform and Tophat convolved 0 to 6 times): "
         "result is an even function with maximum 1 at 0; partial is its exact derivative; resultsq( x^2 ) equals result( x ); result at half of the attribute fwhm is half the maximum; "
         "the attribute integral is the integral of result; result is zero outside the attribute range and not inside, and isBound tells whether that range is finite.",
         over=["inputs"], forall="all kernels, all inputs",
         why="Kernels feed models, robust weights and noise of data with the constants trusted as they are; tests compare a few values.",
         files=["kernels/Kernel.py", "kernels/Tophat.py", "kernels/Sinc.py", "kernels/Tricube.py", "kernels/Huber.py", "Kernel2dModel.py", "KernelModel.py"],
         mech=[("function, derivative and constants per kernel", "kernels/*.py")],
         note="Every kernel class found in the source. The integral and the fwhm are obtained by quadrature and evaluation of the value graph of result (relative error 1e-6). " + VG),
    dict(id="C11", title="Linear fitters return the least squares solution and what is derived from it",
         statement="For every model that is linear in its parameters, Fitter and QRFitter return (and put into the model) the parameters that minimise the sum of the squared residuals, each "
         "multiplied by its weight and divided by the square of its accuracy, including the terms added with normalize(), over all parameters that are not kept; the kept ones have "
         "the value in keep. Afterwards chisq, sumwgt, npfit, scale, hessian, covariance, stdevs, yfit, logLikelihood, logOccam and logZ (with limits given as numbers, lists or "
         "priors, and with noiseLimits in the Gaussian approximation) are those of that fit, according to their definitions, whatever was fitted before with the same fitter: other "
         "data, weights, accuracies or kept parameters; monteCarloError() draws its parameters with the mean and the covariance of that fit; a keep given to fit() holds for that "
         "fit only. A map is fitted as the list of its pixels; NaN or infinity in the data, weights or accuracies, and accuracies that are not positive are refused with a "
         "ValueError.",
         over=["inputs", "configurations", "histories"], forall="all data, weights, accuracies, kept parameters, normalisations and earlier fits",
         why="Tests fit one data set with a fresh fitter and compare to a few digits; combinations (weights with accuracies, a keep in the constructor or in fit, a second fit) are hardly tested.",
         files=["BaseFitter.py", "Fitter.py", "QRFitter.py", "ImageAssistant.py"],
         mech=[("solution", "Fitter.py:Fitter.fit, QRFitter.py:QRFitter.fit"), ("derived quantities", "BaseFitter.py:BaseFitter.__getattr__, getLogZ, getHessian"),
               ("kept parameters", "BaseFitter.py:BaseFitter.keepFixed, fitprolog")],
         note="Polynomial, harmonic, surface, compound and partly fixed models of up to 3 parameters; the data axis is symbolic (concrete generic data for normalisations and maps); "
         "numpy.linalg solve, inv and qr are taken as exact. " + VG),
    dict(id="C12", title="Problems compare data and model the way they say",
         statement="For every problem class the residuals are the data minus the result of the model (modulo the period where the result is cyclic: the shortest way round), "
         "weightedResSq is the weight times the squared residual - for errors in both variables the squared distance in units of the inverse covariance of the accuracies "
         "(single number, per coordinate, per datum, covariance matrix per datum) plus scale squared - and its second item half its derivative to the residuals; partial is the derivative of "
         "the result to all parameters (model parameters followed by the targets in x), sumweight counts every datum with its weight. Weights and accuracies of the caller are not changed. "
         "The distances of a SalesmanProblem are those between subsequent nodes of the order given (euclidean, manhattan, over the sphere, from a table, or of the user), in units of scale and "
         "multiplied by the weight of the node where the leg starts, without the last leg when the trip is oneway; the cost of DistanceCostFunction is minus their sum.",
         over=["inputs", "configurations"], forall="all data, weights, accuracies, parameters; all combinations of weights and accuracies",
         why="Problems translate data to likelihoods by many routes (weights or not, scalar, vector or matrix accuracies, cyclic results); tests use one or two, with accuracy 1.",
         files=["Problem.py", "ClassicProblem.py", "ErrorsInXandYProblem.py", "MultipleOutputProblem.py", "EvidenceProblem.py", "OrderProblem.py", "SalesmanProblem.py", "DistanceCostFunction.py"],
         mech=[("residuals", "Problem.py:Problem.residuals, cyclicCorrection"), ("weighted squares", "*Problem.py:weightedResSq"), ("covariances", "ErrorsInXandYProblem.py:setAccuracy"),
               ("routes", "SalesmanProblem.py:SalesmanProblem.result")],
         note="Symbolic data, weights and (co)variances; two or three data for errors in both variables; three to five nodes. " + VG),
    dict(id="C13", title="Copies behave as the original and are independent of it",
         statement="copy() of a model (also compound, bracketed, repeating, with fixed parameters or pipes), a prior, an error distribution, a noise scale or a problem has the same results, "
         "derivatives, parameters, names, priors, limits and hyperparameters as the original; and no change made afterwards through the public methods of one of the two (parameters, limits, priors, "
         "fixing, growing, shuffling, hyperparameters, accuracies) is seen in the other. The operands of model arithmetic (+, -, *, /, |) and isolateModel are left as they were, and the result does "
         "not follow later changes in an operand's parameters or priors.",
         over=["inputs", "histories"], forall="all classes and structures; all sequences copy - change - evaluate; all parameter values",
         why="Tests copy a few models and compare one result; sharing of mutable state shows only when one of the two changes later.",
         files=["Model.py", "BracketModel.py", "CombiModel.py", "RepeatingModel.py", "DecisionTreeModel.py", "*Prior.py", "*ErrorDistribution.py", "HyperParameter.py", "NoiseScale.py", "*Problem.py"],
         mech=[("copy of every class", "*.py:copy"), ("operators", "Model.py:Model.addModel, __add__, __or__; BaseModel.py"), ("isolation", "Model.py:Model.isolateModel")],
         note="Every concrete model class and the compound structures of C04, with and without limits. The accuracy attribute of errors-in-both problems, which is not used once the covariances are made, "
         "is not compared. " + VG),
    dict(id="C14", title="Summaries of posterior samples are those of the weighted samples",
         statement="For a SampleList all averages and deviations (parameters, hyperparameters, nuisance parameters, scale, results of the model by average(), monteCarloError()) are the "
         "averages and standard deviations over the samples, weighted with the normalised exp( logW ); circular parameters are averaged on the circle. normalize() makes the weights"
         " sum to 1 and keeps their ratios, median, modus and maximum likelihood indices point to the samples of that name, weed() removes the smallest weights at either end only, "
         "evolutions and indices are those of the samples, zero-padded for dynamic models, and an answer does not depend on what was asked before; walkers become samples with their"
         " own parameters, hyperparameters and nuisance parameters; WalkerList insert, crop and copy keep order, identity and content. Tools.average and its error are the weighted "
         "average and deviation.",
         over=["inputs", "histories"], forall="all weights, parameters and numbers of samples (up to the bound), all orders of asking",
         why="Tests look at a finished run where all weights come from the sampler and everything is asked once.",
         files=["SampleList.py", "Sample.py", "Walker.py", "WalkerList.py", "Tools.py"],
         mech=[("weighted averages", "SampleList.py:SampleList.averstd, average, monteCarloError"), ("indices", "SampleList.py:SampleList.getMedianIndex"), ("conversion", "Walker.py:Walker.toSample")],
         note="Lists of one to four samples with symbolic weights, parameters, hyperparameters and nuisance parameters. " + VG),
    dict(id="C15", title="Nested samplers keep the books of evidence, information and samples right",
         statement="In every iteration NestedSampler and PhantomSampler order the walkers in likelihood, discard the lowest ones and record each of them once as a sample with its own "
         "parameters, hyperparameters and logL, and logW = logWidth + logL + logPrior, where logWidth starts at log( 1 - exp( -1 / N ) ) and decreases by 1 / (number of walkers "
         "remaining); at the end the remaining walkers are recorded too, in order. logZ is the log of the sum of all those weights, information is the weighted average of logL "
         "minus logZ, logdZ the relative weight of the last one, precision sqrt( H / N ), evidence is logZ / ln( 10 ) and is what sample() returns; the weights of the samples are "
         "normalised, samples.logZ, evidence and info are those of the sampler, and the model gets the weighted averages as parameters and stdevs; discarded walkers are replaced by"
         " copies of survivors only (or of phantoms above the limit), any of them, with parent and start recorded, never sharing parameters or problem with another walker, and then"
         " explored with the likelihood of the worst discarded one as lower limit. Sampling stops as documented by minimumIterations, maxIterations, tolerance and end.",
         over=["inputs", "histories"], forall="all likelihoods and priors in one update; complete runs with given likelihoods for several sizes of ensemble and numbers of discarded walkers",
         why="A run is random and its results are compared within wide margins, so a biased weight, a lost or doubled walker or an unsorted list disappears in the noise.",
         files=["NestedSampler.py", "PhantomSampler.py", "WalkerList.py", "Walker.py", "SampleList.py"],
         mech=[("weights and sums", "NestedSampler.py:NestedSampler.updateEvidence"), ("course of the run", "NestedSampler.py:NestedSampler.sample, nextIteration, updateWalkers, copyWalker"),
               ("phantoms", "PhantomSampler.py:PhantomSampler.updateWalkers")],
         note="What the engines do is abstracted: an exploration sets any likelihood above the limit. One update is decided for symbolic likelihoods, priors, widths and earlier sums; the course of complete runs for given "
         "likelihoods, ensembles of 3 to 50 walkers. " + VG),
    dict(id="C16", title="Same seed, same run: all random numbers are seeded and no state is shared",
         statement="All random numbers in the package come from generators made with the seed given by the user (default: a fixed number), or with a seed drawn from such a generator, each a different one; the global generators of numpy and random "
         "are never used, nor unseeded ones or seeds from the clock or the operating system. So two runs of NestedSampler, PhantomSampler or NestedSolver with the same seed and data give the same samples, whatever was done before in the process, and "
         "another seed gives others. Using models, fitters, samplers, priors or error distributions never changes what all objects share: globals of modules, attributes of classes, default arguments, the settings of numpy, warnings and the process (those of the Formatter excepted).",
         over=["inputs", "histories"], forall="every function, class and default argument in the package; everything that takes a seed",
         why="A draw from another generator gives results that are just as good: no test notices. State that leaks from one object to the next shows only in the order in which a user happens to use them.",
         files=["NestedSampler.py", "NestedSolver.py", "PhantomSampler.py", "Engine.py", "Explorer.py", "AnnealingAmoeba.py", "MonteCarlo.py", "Tools.py", "(all source files)"],
         mech=[("generators", "NestedSampler.py:NestedSampler.__init__, setEngines, setInitialEngine"), ("engines", "Engine.py:Engine.__init__"), ("others", "AnnealingAmoeba.py, MonteCarlo.py")],
         note="Name resolution and effect analysis over the syntax trees of all source files; plus interpretation of what makes the generators and of short repeated runs with given random numbers. "
         "Not covered: threads, and generators hidden behind names that are computed at run time. " + VG),
    dict(id="C17", title="Engines move walkers only within likelihood limit, priors and fitted parameters",
         statement="In a sampler without threads, an engine replaces (or, in PhantomSampler, appends) walkers only by proposals of which the calculated logL is at least the limit (never NaN "
         "or less), storing exactly the proposed parameters, the model structure and that logL; it reports moves if and only if something was accepted, leaves the original walker "
         "and all other walkers untouched, shares no parameter arrays, gives proper identifications, and puts what is accepted in the list of phantoms, which stays sorted and loses"
         " nothing above the limit. Galilean, Chord, Gibbs, Step and Random propose only within the limits of the priors, change only fitted parameters, Gibbs one at a time, and "
         "move each of those; the box of Random holds all phantoms above the limit; Birth adds and Death removes exactly one component of the dynamic model, keeping the other "
         "components, the parameters of other models in the chain, the noise and the list of fitted parameters right; Structure moves only the inner knots of splines; order engines"
         " propose permutations only (Reverse and Loop cut 2 edges, Move and Near 3, Switch exchanges 2). Starting walkers have finite logL, kept values, lie within the limits, and"
         " are tried again otherwise; keep, the limits of the hyperparameters and keepFixed() of the error distribution decide which parameters are fitted; the directions of the chords are orthonormal; the Explorer calls each selected engine once per round with the"
         " right arguments, until enough moves or trials are made, and notices inconsistent walkers.",
         over=["inputs", "histories"], forall="every course of accepted, rejected, equal, infinite and NaN proposals up to four (and some longer), for 5 static, 2 dynamic, 6 order and 1 structure engine, 8 dynamic models alone and in chains, 7 settings of kept and fixed (hyper)parameters",
         why="Engines are random; a proposal at the edge, a rejected one that is stored, or a parameter that follows a wrong index only shows as a slightly wrong evidence. The tests of the samplers need minutes and look at wide margins.",
         files=["Engine.py", "GalileanEngine.py", "ChordEngine.py", "GibbsEngine.py", "StepEngine.py", "RandomEngine.py", "BirthEngine.py", "DeathEngine.py", "StructureEngine.py", "StartEngine.py", "OrderEngine.py", "MoveEngine.py", "ReverseEngine.py",
                "ShuffleEngine.py", "SwitchEngine.py", "LoopEngine.py", "NearEngine.py", "StartOrderEngine.py", "Explorer.py", "PhantomCollection.py", "WalkerList.py", "NestedSampler.py", "Dynamic.py"],
         mech=[("acceptance", "Engine.py:Engine.setWalker and the execute methods of all engines"), ("growth", "Dynamic.py:Dynamic.alterParameters, alterFitindex"), ("phantoms", "PhantomCollection.py:PhantomCollection"),
               ("selection", "NestedSampler.py:NestedSampler.makeFitlist"), ("calls", "Explorer.py:Explorer.exploreWalker")],
         note="Interpretation of the source with a landscape that is scripted (the likelihood of the k-th proposal is above, at or below the limit, NaN or infinite) and given random numbers; not covered: threads, plotting, and whether the engines sample uniformly. " + VG),
    dict(id="C18", title="Iterative fitters hand over the right problem and report its answer",
         statement="For any model, data, weights, accuracies and kept parameters, LevenbergMarquardtFitter, CurveFitter, AmoebaFitter and the fitters around scipy.optimize minimise exactly chisq (the sum of "
         "weight times squared residual, over the accuracy squared, plus normalisations), or minus the log-likelihood of the error distribution asked for, as a function of the parameters that are not "
         "kept, with its exact gradient (and second derivatives of the linearised model), and with the initial values, limits, number of iterations and tolerance given to the fitter or to fit(). What the "
         "minimizer finds is returned and put into the model, with kept parameters at the value in keep (of the fitter, or of this fit only); chisq, scale, hessian, covariance, stdevs and yfit are "
         "those of these parameters and data, whatever was fitted before with the same fitter, and the caller's data, weights and initial values are left alone. LevenbergMarquardtFitter starts "
         "downhill, does not move when the model equals the data, takes no step unless chisq was found not to be more than before (the first step: before plus 1), and returns only parameters for which it calculated chisq.",
         over=["inputs", "histories"], forall="all data, weights, accuracies, initial values, limits, kept parameters and outcomes of the minimizer; two subsequent fits",
         why="Whether a minimum is found says nothing about whether it is the minimum of the right function: weights applied twice, a limit for the wrong parameter or a gradient that is slightly off still converge to something "
         "that looks fine; the tests look at a few well-behaved data sets without weights, limits and kept parameters.",
         files=["MaxLikelihoodFitter.py", "ScipyFitter.py", "AmoebaFitter.py", "CurveFitter.py", "LevenbergMarquardtFitter.py", "IterativeFitter.py", "BaseFitter.py", "ErrorDistribution.py", "GaussErrorDistribution.py"],
         mech=[("cost", "MaxLikelihoodFitter.py:MaxLikelihoodFitter.makeFuncs"), ("scipy", "ScipyFitter.py:ScipyFitter.fit"), ("amoeba", "AmoebaFitter.py:AmoebaFitter.fit"), ("curve_fit", "CurveFitter.py:CurveFitter.fit"),
               ("Levenberg-Marquardt", "LevenbergMarquardtFitter.py:LevenbergMarquardtFitter.trialfit")],
         note="The minimizers themselves (scipy.optimize, AnnealingAmoeba) are replaced by a recorder that returns fresh symbols. Not covered: chisq after a fit with an error distribution, errdis together with accuracies, "
         "limits in LevenbergMarquardtFitter (not used, by design), robust fits. " + VG),
    dict(id="C19", title="The amoeba stays within its limits and returns the best it has seen",
         statement="For any function (also infinite in places), start, size, limits (none, one or both sides, per item) and temperature, AnnealingAmoeba evaluates the function within the limits only, starts with "
         "the corners xini and xini plus size in each direction as far as these are within limits, always has as values the function at the corners of the simplex (of which sum is the sum), and has in the end the "
         "lowest value it ever found in fopt and the place of it in xopt, which is not part of the simplex and is returned by minimize(); what the caller provides is left unchanged. At temperature zero each iteration is a "
         "step of the downhill simplex method: reflect the worst corner, extrapolate when that is the best, contract when it is bad, shrink on the best when that is no better, replacing a corner by a lower value only; with "
         "annealing a step below all corners is always taken. It ends when the corners are within abstol and reltol, raises ConvergenceError after maxiter iterations otherwise, also when the function is flat, and counts iterations and calls.",
         over=["inputs", "histories"], forall="all landscapes (as the relative order of the values found), starts, sizes and limits",
         why="A minimizer that loses its best point, walks outside a limit or stops too early still ends near the minimum in the few smooth landscapes of the tests.",
         files=["AnnealingAmoeba.py"], mech=[("steps", "AnnealingAmoeba.py:AnnealingAmoeba.temperatureStep, trialStep, inflateSimplex"), ("limits", "AnnealingAmoeba.py:AnnealingAmoeba.stayInLimits, makeSimplex"),
                                              ("end", "AnnealingAmoeba.py:AnnealingAmoeba.minimize")],
         note="Interpretation of the source with scripted landscapes: every sequence of up to three (thorough: four) outcomes (below all corners, equal to the lowest, between, equal to the highest, above all, infinite) and "
         "given random numbers; coordinates are numbers, 1-3 dimensions. Not covered: functions that are NaN, callbacks that change the parameters, and that the extrapolated corner replaces a better reflected one. " + VG),
    dict(id="C20", title="The noise scale is that of the residuals, toSigma its standard deviation",
         statement="For every problem, with or without weights, getScale() of an error distribution gives the scale at which its log likelihood is stationary for the residuals of the parameters given (in any array_like; "
         "the others are those of the model when none are given): the root of the (weighted) mean square for Gauss and Poisson, the (weighted) mean absolute residual for Laplace, the largest absolute residual for Uniform and "
         "Bernoulli, ( power * mean |r|^power )^(1/power) for Exponential; for Cauchy it is where the average of log( 1 + (r/s)^2 ) is log( 4 ), however large or small the residuals are. "
         "toSigma() turns the scale (and power) into the standard deviation of the distribution; parameters of the caller are left unchanged.",
         over=["inputs"], forall="all data, weights and parameters",
         why="The scale is compared in the tests with the one that generated the noise, within the wide margin that its randomness needs, mostly for residuals of order 1 and without weights.",
         files=["ErrorDistribution.py", "GaussErrorDistribution.py", "LaplaceErrorDistribution.py", "CauchyErrorDistribution.py", "UniformErrorDistribution.py", "ExponentialErrorDistribution.py",
                "PoissonErrorDistribution.py", "BernoulliErrorDistribution.py"],
         mech=[("scale", "*ErrorDistribution.py:getScale"), ("sums", "ErrorDistribution.py:ErrorDistribution.getGaussianScale, getResiduals, getChisq"), ("sigma", "*ErrorDistribution.py:toSigma")],
         note="The equation that is solved for Cauchy is compared, not its solution by scipy; weights are not used for Cauchy and Bernoulli, which do not accept them; Exponential needs its power, hence the parameters. "
         "The scale that a fit with an error distribution reports is in C18. " + VG),
    dict(id="C21", title="Numeric derivatives are central differences where none are provided",
         statement="A model that does not define its partials or its derivative (a class of the user, a UserModel, an AstropyModel) gets numeric ones, alone, fixed (by a number or by a model), copied, or as part of a compound model; "
         "numPartial, numDerivative, strictNumericPartial and strictNumericDerivative of any model, numPartialLogL of an error distribution and the numeric methods of a prior (also where a user's one falls back on them) are "
         "central differences of the function, for each (fitted) parameter or input in its own place, for all steps deltaP, so exact for functions that are quadratic in each of them. Parameters and inputs of the caller are left unchanged. "
         "A UserModel uses the partials and derivative of the user when given.",
         over=["inputs"], forall="all functions, parameters, inputs, fixed parameters and steps",
         why="The derivatives of the library are tested against the numeric ones, not the other way around; models without derivatives are hardly combined with fixed parameters, copies or other models.",
         files=["FixedModel.py", "Model.py", "UserModel.py", "AstropyModel.py", "ErrorDistribution.py", "Prior.py"],
         mech=[("models", "FixedModel.py:FixedModel.basePartial, baseDerivative, numPartial, numDerivative"), ("chain", "Model.py:Model.strictNumericPartial, strictNumericDerivative"),
               ("user", "UserModel.py:UserModel.basePartial"), ("likelihood", "ErrorDistribution.py:ErrorDistribution.numPartialLogL"), ("prior", "Prior.py:Prior.numPartialLog, numPartialDomain2Unit")],
         note="The functions of the analysis are quadratic in every parameter and input, where central differences are exact in real arithmetic; a one-sided difference is not. AstropyModel is analysed around an object that behaves as a model of astropy (which is outside the repository). " + VG),
    dict(id="C22", title="Robust fitting weighs the data by the kernel of their deviants",
         statement="In RobustShell.fit() the first fit uses the weights as given; in every next round the embedded fitter gets the data and the weights kernel( d ) times the weights given, where d = residual of the previous round / "
         "( domain * noise scale of the previous round ); with onesided only the residuals of that sign are affected, the others keep weight 1. Rounds are repeated until chisq changes less than the tolerance (relative to chisq when it "
         "is above 1), or maxIter. The parameters, chisq, hessian and weights are those of the last round; a next fit starts afresh; data and weights of the caller are left unchanged. The default domain is 6 times noise / fwhm of the kernel. Kernels and "
         "sides that can not be interpreted raise a ValueError.",
         over=["inputs"], forall="all data, weights, kernels, sides, domains, noise scales and courses of chisq",
         why="The tests compare the robust parameters with the true ones within the noise; wrong weights give nearly the same parameters.",
         files=["RobustShell.py"],
         mech=[("rounds", "RobustShell.py:RobustShell.fit"), ("side", "RobustShell.py:RobustShell.setOneSided, getOneSidedWeights"), ("kernel", "RobustShell.py:RobustShell.setKernel")],
         note="The embedded fitter is a recorder: the fitters themselves are in C11 and C18, the kernels in C10. " + VG),
    dict(id="C23", title="Pixels, positions and values of an image pertain to each other",
         statement="For an image of any number of dimensions, with order C or F (in the constructor or in the call), getIndices() of ImageAssistant lists every pixel once, as (slow ... fast) or (fast ... slow) index; getPositions() the "
         "positions of the centers (or the corners) of the same pixels in the same order; getydata() their values, as a copy; and resizeData() puts results in that order back at the pixels they belong to.",
         over=["inputs"], forall="all images",
         why="The tests go back and forth between image and list, which does not notice that the list is not the one of the pixels, for one shape each.",
         files=["ImageAssistant.py"],
         mech=[("pixels", "ImageAssistant.py:ImageAssistant.getIndices"), ("positions", "ImageAssistant.py:ImageAssistant.getPositions"), ("values", "ImageAssistant.py:ImageAssistant.getydata"), ("back", "ImageAssistant.py:ImageAssistant.resizeData")],
         note="Shapes up to 4 dimensions are analysed, with symbols as values. Fits with map=True are in C11. " + VG),
    dict(id="C24", title="The units of the parameters make the result come out in the unit of y",
         statement="With xUnit and yUnit set, getParameterUnit(k) of a model is such that for inputs in the unit of x (in a model with more inputs: each in its own) and parameters in their units the result is in the unit of y: "
         "it follows a change of units. Fixing parameters leaves the units of the others; components of a chain (also within brackets) keep the units of their own; ProductModel, CombiModel and RepeatingModel pass their units on; a "
         "parameter beyond the last raises IndexError; the unit of the integral is that of y times those of the inputs, dimensionless if none were given; a copy has the same units.",
         over=["inputs"], forall="all models, parameters, inputs and units",
         why="The tests print the units; only Monte Carlo of many conversions could notice a wrong one, and nobody reads what is printed.",
         files=["Model.py", "FixedModel.py", "EtalonModel.py", "SineModel.py", "KernelModel.py", "CombiModel.py"],
         mech=[("unit", "Model.py:Model.getParameterUnit"), ("fixed", "FixedModel.py:FixedModel.getParameterUnit"), ("combi", "CombiModel.py:CombiModel.baseParameterUnit"), ("etalon", "EtalonModel.py:EtalonModel.baseParameterUnit")],
         note="x of ChebyshevPolynomialModel (an interval) and PowerModel (documented) has no unit; PowerLawModel has (y, x, 1), as it documents; in SoftMaxModel and on the sphere in StellarOrbitModel some outputs are "
         "without unit. ConstantModel, FootballModel, DecisionTreeModel and CombiModel with oper='mul' or with constants are not claimed. " + VG),
    dict(id="C25", title="A dynamic model that grew and shrank is the same as a new one of that size",
         statement="After any history of grow() and shrink(), alone or anywhere in a chain, PolynomialDynamicModel, HarmonicDynamicModel, RepeatingModel (also of a compound model, and with parameters that are the same) and "
         "SplinesDynamicModel have one component (spline: one inner knot) more or less per call that returns True, never more than the maximum or less than the minimum: there the call returns False and nothing changes. They then "
         "are equal to a newly made model of that size (on those knots) in result, partial, derivative, numbers, names, units and priors of the parameters. Parameters of other models and of other components keep their values; new "
         "ones are 0, or drawn from their prior when a random generator is given. vary() moves one inner knot (by location) between its neighbours, at the minimum distance. Numbers of components outside the range raise ValueError, "
         "fixed parameters AttributeError; the growPrior is as given, by default Exponential of scale 2, or Uniform over the range; a static model does not grow or shrink.",
         over=["histories", "inputs"], forall="all dynamic models, chains, and histories of grow, shrink and vary",
         why="The tests grow and shrink a model once or twice, and print it. An index that is off by the parameters in front, or a prior that goes with the wrong component, shows after some steps in a chain.",
         files=["Dynamic.py", "RepeatingModel.py", "PolynomialDynamicModel.py", "HarmonicDynamicModel.py", "SplinesDynamicModel.py", "Modifiable.py"],
         mech=[("grow", "Dynamic.py:Dynamic.grow"), ("shrink", "Dynamic.py:Dynamic.shrink"), ("repeat", "RepeatingModel.py:RepeatingModel.grow, shrink"), ("knots", "SplinesDynamicModel.py:SplinesDynamicModel.grow, shrink, vary")],
         note="Histories up to three calls from several starts are analysed, with the size as the only state that matters (the comparison with a new model makes longer ones follow). In splines the value of the parameters next to the knot is not claimed, only "
         "that they are within their limits. DecisionTreeModel is in C26. How engines use it is in C17. " + VG),
    dict(id="C26", title="A decision tree gives each input the parameter of the one leaf it falls in",
         statement="In a DecisionTreeModel an input goes to the left branch when it is more than the split of the axis of that branch (a fraction of the range of the known values that come there), or when its category is in the mask; an unknown value "
         "(NaN) goes to the smaller side; a boolean axis separates its two values. Leafs, and their parameters, count from left to right. Result is the parameter of its leaf, partial is 1 for that parameter and 0 for other ones, the derivative "
         "is 0; sortXdata is a permutation that puts the inputs in the order of the leafs. grow() splits one leaf in two with one new parameter (0, or from its prior with a random generator); shrink() removes one leaf, what was next to it takes "
         "the place of their branch; vary() gives one branch another cut of the kind that belongs to its axis; all other cuts and parameters stay, in a chain too, and growing stops at the bounds. Numbers of leafs, branches, parameters, "
         "names and components agree; encode() lists the cuts, and the constructor makes the same tree from it; a copy is the same and on its own; a fixed parameter is as if it had that value. Lists given to the constructor do not change.",
         over=["histories", "inputs"], forall="all trees, inputs with or without NaNs, float, boolean and categorial axes, and histories of grow, shrink and vary",
         why="The tests print trees. What happens to the other parameters after several changes, in a chain, or with unknown values is not looked at.",
         files=["DecisionTreeModel.py", "Dynamic.py"],
         mech=[("partition", "DecisionTreeModel.py:DecisionTreeModel.partitionList"), ("grow", "DecisionTreeModel.py:DecisionTreeModel.grow"), ("shrink", "DecisionTreeModel.py:DecisionTreeModel.shrink"), ("vary", "DecisionTreeModel.py:DecisionTreeModel.vary"), ("code", "DecisionTreeModel.py:DecisionTreeModel.encode, decode")],
         note="Which side is left in a split is as the code has it (the class documentation says it the other way round; which of the two parameters of a split leaf is the new one is not claimed). All trees up to 4 (thorough: 5) leafs are analysed, on four sets "
         "of inputs that are numbers, with symbols as parameters; after each call the tree is the only state that matters. Masks drawn by vary() may be empty or full; that is not claimed otherwise. " + VG),
    dict(id="N01", title="The samples of a nested sampling run represent the posterior",
         statement="The weighted samples of NestedSampler and PhantomSampler are distributed as the posterior, and the evidence is that of the problem within the reported precision.",
         over=["inputs", "histories"], forall="all problems, all seeds", why="It is a statement about distributions over seeds.",
         files=["NestedSampler.py", "PhantomSampler.py", "GalileanEngine.py"], mech=[("exploration", "*Engine.py:execute")], note="",
         na="Depends on how well random walks mix inside a likelihood contour: a statistical property of runs. No argument over the source bounds it; only the bookkeeping (C15), the acceptance rules (C17) and the seeds (C16) are decided."),
    dict(id="N02", title="Iterative fitters find the minimum",
         statement="LevenbergMarquardtFitter, AmoebaFitter, ScipyFitter, CurveFitter and MaxLikelihood fitters converge to the (global) optimum of their landscape.",
         over=["inputs"], forall="all models, data, starting values", why="Landscapes are unbounded in variety.",
         files=["LevenbergMarquardtFitter.py", "AmoebaFitter.py", "AnnealingAmoeba.py", "ScipyFitter.py"], mech=[("iterations", "LevenbergMarquardtFitter.py:fit")], note="",
         na="Convergence is a run-time quantity of an iterative numerical process; the documentation itself says the optimum is not guaranteed. What they minimise and what they report of it is decided elsewhere as far as it is reachable."),
    dict(id="N03", title="Results are finite and accurate to rounding for all finite inputs",
         statement="No model, likelihood, prior or kernel overflows, underflows or loses its precision for finite input in its domain.",
         over=["inputs"], forall="all floating point inputs", why="The number of floating point inputs is too large to sample.",
         files=["*Model.py", "*ErrorDistribution.py", "*Prior.py"], mech=[("formulas", "*.py:baseResult, logLdata, unit2Domain")], note="",
         na="The analysis works in real arithmetic. An interval analysis of rounding gives no useful bound for exponentials of unbounded parameters, and the property is false as stated (exp overflows)."),
    dict(id="N04", title="Kepler's equation is solved to its tolerance for all orbits",
         statement="The eccentric and true anomaly of StellarOrbitModel and RadialVelocityModel solve Kepler's equation for all eccentricities below 1.",
         over=["inputs"], forall="all mean anomalies and eccentricities", why="The number of iterations needed grows without bound near eccentricity 1.",
         files=["Kepplers2ndLaw.py", "StellarOrbitModel.py", "RadialVelocityModel.py"], mech=[("solver", "Kepplers2ndLaw.py")], note="",
         na="The accuracy of a fixed number of Newton steps is a run-time numerical quantity. The formulas around the solver are decided in C01-C03 with the solution as a symbol defined by the equation."),
    dict(id="N05", title="Sampling with threads gives a valid run",
         statement="With threads=True the explorer threads do not interfere: each walker is updated by one thread and all errors are reported.",
         over=["schedules"], forall="all interleavings of the explorer threads", why="Tests do not control the schedule.",
         files=["Explorer.py", "NestedSampler.py", "Engine.py"], mech=[("threads", "Explorer.py:ExplorerThread")], note="",
         na="All threads share the walkers, phantoms, the model of the problem and the generators of the engines without locks by design, so results depend on the schedule; an ownership analysis finds no discipline to verify, only that there is none."),
]
