"""Writes properties.jsonl (single source for the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))
g = "gwpopulation/"
prop("C01", "Backend selection is coherent, atomic and retryable",
 "After a successful backend selection every registered module of the package and of every plugin (array namespace, special functions, and every arbitrary function it registered, several per module included) uses the selected backend, and jax computes in 64 bit. A selection that fails (unknown backend, backend not installed, plugin that cannot be imported, function missing in the backend) raises and leaves every registered module and the active backend exactly as they were. Selecting the active backend again changes nothing, and a failed selection can be retried and then succeeds once the cause is gone.",
 ["histories", "configurations", "fault_sequences"], "every sequence of selections of supported, unsupported and missing backends, with every set of plugin registrations and every point at which loading a plugin fails",
 "The tests switch between two backends in a fixed order with no plugin installed and never look at the state left by a failing selection.",
 [g+"backend.py", "pyproject.toml"], [("set_backend", g+"backend.py"), ("modules_to_update", g+"backend.py"), ("_load_arbitrary", g+"backend.py")],
 [("active backend", "name of the selected backend", g+"backend.py"), ("xp/scs of each registered module", "array namespace in use", "every registered module")], ["return or exception of set_backend, then the attributes of all registered modules"])
prop("C02", "numpy, jax and jit-compiled jax give the same densities",
 "Every population model and elementary density returns, up to rounding, the same values, shape and support for the same dataset and hyperparameters with the numpy backend, with the jax backend, and with the jax backend under jit compilation with traced hyperparameters. This includes hyperparameters given as Python numbers or as zero-dimensional arrays, and datasets of any shape. Spline models are compiled after a first uncompiled evaluation, which fixes their nodes.",
 ["inputs", "configurations"], "every model, hyperparameters in its domain, dataset shape and backend",
 "The tests check each backend against fixed expectations at a few points, and never compare the backends or compiled code with each other over the hyperparameter domain.",
 [g+"utils.py", g+"models/mass.py", g+"models/spin.py", g+"models/redshift.py", g+"models/interped.py"], [("backend specific branches", g+"utils.py, "+g+"models/mass.py"), ("xp/scs indirection", "every module")])
prop("C03", "Elementary densities equal their normalised definitions",
 "The power law, truncated normal, beta and von Mises densities equal their textbook normalised definition at every point of the support where the density is finite (end points included), including the special spectral index -1, far tails and vector-valued bounds or parameters, are exactly zero outside the closed support (power law: at positive arguments outside it), and integrate to one; the correlated two-dimensional Gaussian equals exp(-r' S^-1 r / 2) for the covariance matrix S with correlation rho. No value is negative, or non-finite where the density is finite. With numpy, named parameters outside the domain (non-positive width, shape or scale, negative lower bound) raise ValueError and valid ones never do; the decorator which states such domains raises ValueError exactly when a named argument violates its condition (comparison or callable, for every element) and otherwise calls the function unchanged.",
 ["inputs"], "all points and all parameters of the domain, scalar or array valued",
 "The tests sample random hyperparameters and check normalisation on one grid with 1% tolerance, so wrong tails, wrong boundary handling and errors in rarely taken branches go unnoticed.",
 [g+"utils.py"], [("powerlaw, truncnorm, beta_dist, von_mises, unnormalized_2d_gaussian, apply_conditions", g+"utils.py")])
prop("C04", "Closed-form mass models are the documented mixtures and pairings",
 "Each closed-form mass model equals its documented composition: power law, (broken) power law continuous at the break, mixtures with one or two Gaussian peaks truncated between the minimum mass and the peak maximum with the stated mixing fractions, mass-ratio power law on [mmin/m1, 1], and the ordered primary/secondary pairing with its factor of two. Densities vanish exactly for masses outside the range, for mass ratios outside [mmin/m1, 1] and for m2 > m1, and the one-dimensional, mass-ratio and identical pairings integrate to one.",
 ["inputs"], "all positive masses, mass ratios and hyperparameters of the domain",
 "The tests check normalisation of some of the models on a coarse grid for random hyperparameters; mislabelled components or an error confined to part of the domain keep them green.",
 [g+"models/mass.py"], [("double_power_law_*, power_law_*, two_component_*, three_component_single", g+"models/mass.py")])
prop("C05", "Smoothed mass models are tapered, truncated and normalised",
 "A smoothed mass model equals the closed-form primary-mass model times the Planck-taper window over [mmin, mmin + delta_m], renormalised over the model's mass range, times the tapered mass-ratio power law renormalised at each primary mass; with delta_m = 0 it equals the unsmoothed model. It is zero for m1 < mmin, m2 < mmin, m1 above the model maximum or q > 1, and never negative or NaN. With numpy, hyperparameters extending beyond the mass range of the model raise ValueError, and all four families obey this for every mass range and normalisation grid they are built with.",
 ["inputs", "configurations"], "all masses, hyperparameters, delta_m (including 0) and model configurations",
 "The tests only check that the default configurations integrate to one within a few per cent at random hyperparameters.",
 [g+"models/mass.py"], [("BaseSmoothedMassDistribution.p_m1/p_q/smoothing/norm_p_q", g+"models/mass.py")])
prop("C06", "Model evaluation does not depend on evaluation history",
 "Evaluating a model object on a dataset at some hyperparameters gives the same values whatever hyperparameters it was evaluated at before, however often, and in whatever order, and whatever happened to other instances, as a fresh instance gives (the positions of spline nodes are fixed by the first evaluation and are not changed, and their number only grows). Evaluations inside jax-compiled code and evaluations that fail leave later ones unaffected. Building the smoothed mass models with caching disabled extends this to any change of the dataset, and with caching enabled a dataset whose shape cannot be combined with the earlier one is handled as a fresh one. Spline models re-evaluated with more nodes than they were built for keep their range, order and regularisation.",
 ["histories"], "every sequence of evaluations on any models, datasets (as scoped above) and hyperparameters",
 "The tests evaluate each object once or twice; stale caches need particular orders of evaluations.",
 [g+"models/mass.py", g+"models/interped.py", g+"models/redshift.py", g+"models/spin.py"], [("mass-ratio normalisation cache", g+"models/mass.py"), ("spline caches and infer_n_nodes", g+"models/interped.py")],
 [("cached interpolant", "interpolation setup of the dataset seen first", g+"models/mass.py"), ("data/norm splines", "interpolation setup of the first dataset and nodes", g+"models/interped.py")])
prop("C07", "Parametric spin models equal their documented densities",
 "The iid and independent spin-magnitude models are products of the beta densities of the two components with each component's own parameters and maximum, the orientation models are, for cosines in [-1, 1], (1 - xi)/4 plus xi times the product of normals truncated to [-1, 1], the chi_eff and chi_p models are normals truncated to [-1, 1] and [0, 1], and the joint model is the correlated Gaussian truncated to and normalised over [-1, 1] x [0, 1]. Each is non-negative, zero outside the range of its truncated components and integrates to one; the iid models equal the independent ones with equal parameters.",
 ["inputs"], "all spins and hyperparameters of the domain",
 "The tests check limits (xi=0, maximum spins) and normalisation; swapped components or a wrong correlation keep them green.",
 [g+"models/spin.py", g+"utils.py"], [("spin models", g+"models/spin.py")])
prop("C08", "Spline models interpolate their nodes, are truncated and normalised",
 "A spline model is proportional to the product over its parameters of the exponential of the interpolating spline (of the requested order) through the node values at the (evenly or logarithmically spaced) node positions, is zero outside the first and last node, and is normalised over the node range; adding a constant to all node values leaves it unchanged when not regularised, and with regularisation the node values are rescaled to the requested root mean square. The spline mass model multiplies the tapered power law by this factor and stays normalised over its mass range. Additional nodes supplied to a spin spline model at evaluation are used.",
 ["inputs", "configurations"], "all node values, node counts, orders, ranges and evaluation points",
 "The tests check the normalisation and the number of nodes for random node values only.",
 [g+"models/interped.py", g+"models/spin.py", g+"models/mass.py"], [("InterpolatedNoBaseModelIdentical", g+"models/interped.py"), ("InterpolatedPowerlaw", g+"models/mass.py")])
prop("C09", "Redshift models follow the comoving volume and are normalised",
 "The redshift density is psi(z)/(1+z) dVc/dz divided by its integral up to the model's maximum redshift, with psi the documented power law or Madau-Dickinson form normalised to psi(0) = 1 and dVc/dz the full-sky comoving volume element of the selected (fixed or sampled) flat cosmology in Mpc^3. It is zero above the maximum redshift and integrates to one. The normalisation is the rate-weighted spacetime volume, and the total four-volume is its psi=(1+z)^lambda case in Gpc^3 yr, proportional to the analysis time.",
 ["inputs", "configurations"], "all redshifts, evolution parameters, maximum redshifts and cosmologies",
 "The tests check the normalisation and one fixed four-volume; an error that cancels in the normalisation or that needs a sampled cosmology is not seen.",
 [g+"models/redshift.py", g+"experimental/cosmo_models.py"], [("_Redshift, PowerLawRedshift, MadauDickinsonRedshift, total_four_volume", g+"models/redshift.py"), ("CosmoMixin.cosmology", g+"experimental/cosmo_models.py")])
prop("C10", "Detector-to-source-frame conversion and its Jacobian",
 "Converting detector-frame samples yields the redshift at which the selected cosmology has the given luminosity distance (or the given redshift, where one is given), every quantity labelled as detector frame divided by 1 + z under its source-frame name, and every other quantity unchanged, independently of the order of the keys; the Jacobian is (1 + z) to the number of converted quantities, times dDL/dz at the redshift of the distance when a distance was given. The cosmological population model returns the product of its component models at the source-frame samples divided by that Jacobian for each set of cosmological parameters, irrespective of earlier evaluations. Without distance and redshift it raises ValueError.",
 ["inputs", "histories", "configurations"], "all sample sets, key orders, numbers of detector-frame quantities, cosmologies and sequences of cosmological parameters",
 "The tests use one cosmology and a few fixed key orders and rarely look at values.",
 [g+"experimental/cosmo_models.py"], [("detector_frame_to_source_frame, CosmoModel.prob", g+"experimental/cosmo_models.py")])
prop("C11", "The likelihood is the documented Monte Carlo estimator",
 "For every population model, set of posteriors, sampling prior, selection function and conversion function, the log-likelihood ratio is the sum over events of the log of the mean over samples of model/prior, minus N times the log of the detection probability, evaluated at the converted parameters. The reported variance is the sum of the events' relative variances of the mean plus N^2 times the relative variance of the detection probability. The log-likelihood adds the sum of the given evidences, and reordering events or samples does not change the result.",
 ["inputs", "configurations"], "all data, models, selection functions, priors and hyperparameters, for both backends",
 "The tests use models that return constants or one column, so weights, priors, events and samples can be confused without consequence.",
 [g+"hyperpe.py"], [("HyperparameterLikelihood.ln_likelihood_and_variance / log_likelihood_ratio / log_likelihood", g+"hyperpe.py")])
prop("C12", "Rate likelihood and rate posterior are consistent Poisson statements",
 "The rate likelihood is N ln R minus R times the detection probability plus the event terms, with selection variance R^2 times the variance of the detection probability; maximised over or integrated over R with a 1/R prior it agrees with the marginalised likelihood up to a constant depending only on N. Rate posterior samples of the marginalised likelihood are Gamma(N) distributed with inverse scale equal to the surveyed four-volume times the detection efficiency (or the value of a plain selection function) at the converted hyperparameters, and the rate likelihood returns its rate parameter.",
 ["inputs", "configurations"], "all rates, event numbers, selection functions, seeds and data",
 "The tests check one analytic value and the mean of one rate distribution within a few per cent.",
 [g+"hyperpe.py", g+"vt.py"], [("RateLikelihood, generate_rate_posterior_sample", g+"hyperpe.py")])
prop("C13", "Likelihood ratios are always finite numbers and enforce the uncertainty cut",
 "The log-likelihood ratio is a finite number for every input: whenever the estimate is undefined, infinite or zero (zero or infinite weights for an event, vanishing, infinite or undefined detection probability in the marginalised likelihood, NaN from the model) or the uncertainty (square root of the variance) exceeds the maximum uncertainty, it is the lowest finite float, and otherwise it is the estimate. An uncertainty that does not exceed the maximum never changes the value, and no maximum means no cut. The null likelihood is zero wherever the cut is passed and the lowest value elsewhere.",
 ["inputs"], "all weights including zeros, NaN and infinities, all thresholds, both backends",
 "The tests take one threshold far above or below the variance, so comparing with the variance instead of the uncertainty went unnoticed.",
 [g+"hyperpe.py"], [("log_likelihood_ratio, maximum_uncertainty, NullHyperparameterLikelihood", g+"hyperpe.py")])
prop("C14", "Posterior ingestion keeps samples intact, aligned and equal in number",
 "For any list of posterior tables the likelihood holds, for every column, an array of shape (events, samples) where the number of samples is the smaller of the shortest table and the requested maximum, event i's rows are drawn without replacement from table i, and all columns of a drawn row come from the same row of the table. The prior column is used as the sampling prior, removed from the data, and stays aligned with the samples; without it the prior is one. Tables may have different lengths and arbitrary row labels.",
 ["inputs", "configurations"], "all table sizes, labels, column sets, maxima and random draws",
 "The tests use tables of identical rows, so misaligned, duplicated or swapped samples cannot be seen.",
 [g+"hyperpe.py"], [("resample_posteriors, __init__", g+"hyperpe.py")])
prop("C15", "Predictive resampling draws aligned samples with the population weights",
 "Posterior predictive resampling returns for every event as many samples as the data hold, each a copy of one sample of the same event with all columns from the same sample, drawn with replacement with probability equal to the reported weight. The weights of an event are the average over the given hyperparameter samples (after conversion) of model/prior normalised over the event's samples, sum to one, and samples of zero weight are never drawn. A dictionary, a list or a table of hyperparameter samples are equivalent.",
 ["inputs", "configurations"], "all data, hyperparameter sample sets and input forms, seeds and both backends",
 "The tests use identical samples and check only the shape.",
 [g+"hyperpe.py"], [("posterior_predictive_resample", g+"hyperpe.py")])
prop("C16", "Extra statistics and metadata agree with the likelihood",
 "The extra statistics added to a hyperparameter sample are, for each event in order, the log Bayes factor and its variance, the detection probability and its relative variance, and the total variance, and they combine to exactly the log-likelihood ratio and the variance reported by the likelihood at that sample, for the marginalised and the rate likelihood; the sampled parameters already in the sample are kept as they were and none of the converted parameters is added. The metadata report the model names, the data, the number of events, the sampling prior and the number of samples actually used, as plain numpy values.",
 ["inputs", "configurations"], "all likelihoods, data and hyperparameter samples",
 "The tests check that constant data give constant statistics.",
 [g+"hyperpe.py"], [("generate_extra_statistics, meta_data", g+"hyperpe.py")])
prop("C17", "Injection-based selection is the documented estimator with its cuts",
 "The detection efficiency is the sum over found injections of model/prior divided by the total number generated (by default the number of found injections), and its variance is the sum of squared weights over the squared total minus the squared efficiency over the total. With convergence enforced the efficiency is infinite exactly when efficiency^2 <= 4 n_events variance and untouched otherwise; without it there is no cut; with uncertainty marginalisation it is the efficiency times exp(-(3 + n_events)/(2 n_eff)), infinite below the same threshold. The surveyed hypervolume is the redshift model's normalisation in Gpc^3 times the analysis time, or the unweighted Planck15 volume to z = 2.3 without a redshift model.",
 ["inputs", "configurations"], "all injection sets, totals, thresholds on either side of the cut, model lists and options",
 "The tests check a handful of constants and one unconverged case, mostly with unit weights.",
 [g+"vt.py"], [("ResamplingVT", g+"vt.py")])
prop("C18", "Grid selection integrates model times sensitivity over every axis",
 "The grid selection function returns the multi-dimensional trapezoidal integral, over every parameter of the grid, of the model density times the sensitivity, for any number of axes, unequal or equal axis lengths, non-uniform spacing and any order of the keys. It is linear in the sensitivity and equals the integral of the model itself for unit sensitivity.",
 ["inputs", "configurations"], "all grids, dimensions, axis lengths and key orders",
 "The tests use a single uniform one- or two-dimensional grid.",
 [g+"vt.py", g+"utils.py"], [("GridVT", g+"vt.py"), ("trapezoid", g+"utils.py")])
prop("C19", "Beta-parameter conversion: correct case analysis and exact round trip",
 "Converting mean and variance (with maximum) to beta shape parameters and back is the identity, and the shape parameters give a beta distribution on [0, maximum] with that mean and variance. The dictionary conversion adds the shape parameters of exactly those components (first, second, or common when neither component is specified) that lack them and have mean and variance, reports exactly the added keys when asked, and leaves everything else and the input dictionary unchanged.",
 ["inputs"], "all presence/absence/None combinations of the parameters of the components and all values",
 "The tests cover four dictionaries.",
 [g+"conversions.py"], [("convert_to_beta_parameters, mu_var_max_to_alpha_beta_max, alpha_beta_max_to_mu_var_max", g+"conversions.py")])
prop("C20", "The numpyro model reproduces the likelihood",
 "The numpyro formulation reports the same per-event log Bayes factors and variances, selection term and its variance, log likelihood and total variance as the likelihood it is built from, at every hyperparameter sample; without selection the selection terms are zero, and with a variance limit the result is the lowest finite float exactly when the variance exceeds the limit or the value is undefined or infinite. The rate site is Gamma distributed with mean N over the surveyed volume times efficiency. Predictive draws of event i are samples of event i, aligned over all keys and drawn with that event's weights, and only for the requested keys.",
 ["inputs", "configurations"], "all likelihoods, hyperparameters, options and data",
 "The tests run a short sampler and check that sites exist.",
 [g+"experimental/numpyro.py"], [("gwpopulation_likelihood_model, posterior_predictive_resample", g+"experimental/numpyro.py")])
prop("C21", "The jit-compiled likelihood wrapper is transparent",
 "The compiled wrapper returns, at every parameter point and in every order of evaluation, the log-likelihood ratio of the wrapped likelihood as a finite Python float, or what the supplied likelihood function with the supplied keyword arguments gives. Undefined or infinite values become finite floats of the corresponding sign, and all other attributes (data, metadata, noise likelihood, extra statistics) are those of the wrapped likelihood; copies of the wrapper (copy and deepcopy) evaluate the same. Hyper models supplied by the caller are built without cache, as compilation requires.",
 ["inputs", "histories"], "all likelihoods, parameter sequences, custom functions and keyword arguments",
 "The tests compile one likelihood and evaluate it at one point.",
 [g+"experimental/jax.py"], [("JittedLikelihood", g+"experimental/jax.py")])
prop("C22", "No operation modifies what the caller passed in",
 "Building likelihoods and selection functions, evaluating densities, models and selection functions, converting parameters or frames, resampling and computing likelihoods leave the caller's arrays, tables, lists and dictionaries (datasets, posteriors, injections, grids, hyperparameters, hyperparameter samples) unchanged in keys and values, so that the same objects can be used again with the same result. The only exception is the sample passed to the extra-statistics function, to which keys are added.",
 ["inputs", "histories"], "all public operations and all inputs",
 "The tests build fresh inputs for each call.",
 [g+"hyperpe.py", g+"vt.py", g+"conversions.py", g+"utils.py", g+"models/", g+"experimental/"], [("copies instead of in-place operations", "throughout")])
prop("C23", "Models declare exactly the hyperparameters they use",
 "Every model object reports the names of exactly the hyperparameters it needs for its configuration (number of nodes, regularisation, cosmology, fixed arguments excluded), so that evaluating it through a hyper model with any superset of them uses exactly those, missing ones raise an error naming the parameter, and unrelated parameters have no effect. The report does not change by being read or by evaluating any model, nor does it depend on other instances.",
 ["configurations", "histories"], "all models, configurations, parameter supersets and sequences of reads",
 "The tests compare the names once for one configuration.",
 [g+"models/mass.py", g+"models/redshift.py", g+"models/interped.py", g+"experimental/cosmo_models.py"], [("variable_names", "each model class")])
prop("C24", "A complete analysis is the composition of its parts",
 "For any combination of the package's mass, spin and redshift models (multiplied in one hyper model, in any order), the log-likelihood ratio and its variance, the detection efficiency and the surveyed volume from injections, the extra statistics and the resampling weights are those obtained by evaluating the documented densities at every sample and injection and combining them with the documented estimators: whether the model objects are shared between the posterior samples and the injections or not, whether samples are given in the source frame or in the detector frame with the cosmology-aware hyper model, whether spin magnitudes are parametrised by shape parameters or by mean and variance with the conversion function, for the marginalised and the rate likelihood, with numpy, with jax and through the compiled wrapper, and in every order of these operations at different hyperparameter points on the same objects.",
 ["configurations", "histories", "inputs"], "all combinations of models, options, frames, parametrisations and backends, and all sequences of operations",
 "The tests exercise parts separately, with toy models in the likelihood; no test compares a complete analysis with an independent evaluation.",
 [g+"hyperpe.py", g+"vt.py", g+"models/", g+"conversions.py", g+"experimental/"], [("HyperparameterLikelihood, ResamplingVT, CosmoModel over the model modules", g+"hyperpe.py")])
out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
