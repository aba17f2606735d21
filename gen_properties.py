"""Writes properties.jsonl (kept as a script so that the prose stays readable)."""
import json
G="src/smolgp/gp.py"; KB="src/smolgp/kernels/base.py"; KI="src/smolgp/kernels/integrated.py"; KD="src/smolgp/kernels/dense.py"; H="src/smolgp/helpers.py"
S="src/smolgp/solvers/solver.py"; SK="src/smolgp/solvers/kalman.py"; SR="src/smolgp/solvers/rts.py"
PS="src/smolgp/solvers/parallel/solver.py"; PK="src/smolgp/solvers/parallel/kalman.py"; PR="src/smolgp/solvers/parallel/rts.py"
IS="src/smolgp/solvers/integrated/solver.py"; IK="src/smolgp/solvers/integrated/kalman.py"; IR="src/smolgp/solvers/integrated/rts.py"
IPS="src/smolgp/solvers/integrated/parallel/solver.py"; IPK="src/smolgp/solvers/integrated/parallel/kalman.py"; IPR="src/smolgp/solvers/integrated/parallel/rts.py"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Likelihood of point data equals the dense GP likelihood",
"For every kernel built from the library's instantaneous covariance functions (alone, scaled, summed or multiplied), every non-decreasing sequence of coordinates (any spacing, repeats included) and every positive noise variance (one for all data or one per datum), the log-likelihood the Gaussian process reports with the default solver equals that of the dense Gaussian process with the documented covariance function. It does so for every data vector, from the log-likelihood call and from conditioning alike.",
["inputs","programs","configurations"],
"all kernel expressions, all sorted coordinate sequences of every length (gaps from zero to thousands of correlation lengths), all noise vectors, all data vectors",
"The tests try two data sets (evenly spaced, one length, equal errors) and one or two parameter values per kernel; repeated times, one or two data, unequal errors, huge gaps and the other damping regimes are never reached, and no finite sample of data vectors settles 'every y'.",
[G,S,SK,KB],[("forward filter with innovations","%s:kalman_filter"%SK),("sum of Gaussian innovation log-densities","%s:GaussianProcess._compute_log_prob"%G),("closed-form transition and process-noise matrices","%s"%KB)],
[("(m, P)","filtered mean and covariance carried along the time axis",SK),("v, S","innovation and its variance per datum",SK)],["GaussianProcess.log_probability","GaussianProcess.condition(y).log_probability"])
prop("C02","Conditioning on point data gives the dense posterior at the data",
"After conditioning on any data vector, the mean and the variance reported at the data coordinates equal the dense Gaussian-process posterior of the noise-free process, one entry per datum in the order given. This holds for every instantaneous kernel expression, every non-decreasing coordinate sequence (including one datum and repeated coordinates) and every positive noise vector.",
["inputs","programs","configurations"],
"all kernel expressions, sorted coordinate sequences, noise vectors and data vectors",
"The tests condition on one evenly spaced data set per kernel; the first and last datum, ties, very unequal gaps and unequal errors are where a smoother goes wrong.",
[G,S,SR,KB],[("backward smoothing recursion","%s:rts_smoother"%SR),("projection of smoothed states at the data","%s:ConditionedStates.project_at_data"%G)],
[("smoothed_mean/smoothed_cov","posterior state at each datum","%s:ConditionedStates"%G)],["condition(y).gp.loc","condition(y).gp.variance","predict(y=y)"])
prop("C03","Prediction at any coordinate equals the dense posterior there",
"Predicting at any set of test coordinates gives the dense Gaussian-process posterior mean and variance at each of them, in the order asked, wherever they lie: before the first datum, between data, exactly on a datum (or on repeated data), after the last, repeated or unsorted. One test point or one datum gives arrays of length one, and the answer for a test point does not depend on which others are asked for with it.",
["inputs","programs","configurations"],
"all placements of test points relative to all sorted data sets, all kernel expressions, noise vectors and data vectors",
"The tests predict on one regular grid around one data set; ties with data, unsorted or single test points and tests far outside the data are not tried together with unequal gaps.",
[G,S,KB],[("three-way split: before, between, after the data","%s:StateSpaceSolver.predict"%S),("projection of predicted states","%s:GaussianProcess.predict"%G)],
[("k_next","index of the next datum for each test point","%s:StateSpaceSolver.predict"%S)],["GaussianProcess.predict(X_test, y, return_var=True)","condition(y, X_test).gp.loc/.variance","predict(..., return_full_state=True)"])
prop("C04","Likelihood of exposure data is exact for every exposure timeline",
"For data that are averages of the process over exposures, the log-likelihood equals that of the dense Gaussian process whose covariances are the documented covariance function averaged over both exposures. This holds for every timeline of exposures in which no instrument has two exposures open at once: overlapping, nested, back-to-back, simultaneous or zero-length exposures of several instruments, listed in any order.",
["schedules","inputs","configurations"],
"all interleavings of exposure starts and ends of all instruments, all orders of the rows, all integrated kernels, noise vectors and data vectors",
"The one test has two instruments on two regular schedules at one parameter setting; ties between starts and ends, nested and zero-length exposures, round-off at shared edges and other kernels are interleavings it never produces.",
[G,IS,IK,KI,H],[("exposure start/end event ordering","%s:IntegratedStateSpaceSolver.__init__"%IS),("reset of the running integral at exposure start","%s:integrated_kalman_filter"%IK),("augmented transition and process noise","%s:IntegratedStateSpaceModel"%KI)],
[("z_i","running integral of the process for instrument i",KI),("stateid/obsid","event kind and datum of each event",IS)],["GaussianProcess.log_probability","condition(y).log_probability"])
prop("C05","Conditioning on exposure data is exact and in the order given",
"After conditioning on exposure-averaged data, the mean and variance reported for each datum equal the dense Gaussian-process posterior of that exposure's noise-free average, and entry n belongs to row n of the input whatever order the rows are in. This holds for every timeline of exposures in which no instrument has two exposures open at once. For the integrated cosine, a process without driving noise whose smoothing step is numerically singular, it is claimed for one instrument and exposures of positive length.",
["schedules","inputs","configurations"],
"all interleavings of exposure events, all row orders, all integrated kernels, noise vectors and data vectors",
"The test conditions on one data set whose instruments follow two regular schedules; smoothing through resets that coincide with other events, and the bookkeeping from time order back to input order, depend on the interleaving.",
[G,IS,IR,KI,H],[("smoothing through exposure starts","%s:integrated_rts_smoother"%IR),("re-ordering of exposure ends to input order","%s:ConditionedStates.project_at_data"%G)],
[("obsid","datum each event belongs to",IS)],["condition(y).gp.loc","condition(y).gp.variance"])
prop("C06","Predicting the process from exposure data is exact at any time",
"Predicting the underlying (instantaneous) process at any times from exposure-averaged data gives the dense Gaussian-process posterior mean and variance at each time, in the order asked. It holds at times before, inside, at the exact edge of, between and after exposures, for every timeline in which no instrument has two exposures open at once. For the integrated cosine, a process without driving noise whose smoothing step is numerically singular, it is claimed for one instrument and exposures of positive length.",
["schedules","inputs","configurations"],
"all positions of test times in all interleavings of exposure events, all integrated kernels, noise and data vectors",
"The test predicts on one grid from one regular schedule; test times on event edges, inside several overlapping exposures or before simultaneous starts are not reached.",
[G,IS,KI,H],[("locating the neighbouring events","%s:IntegratedStateSpaceSolver.predict"%IS)],None,["GaussianProcess.predict(X_test, y, return_var=True)"])
prop("C07","Parallel solver equals the sequential one for point data of any size",
"For point data, the parallel solver gives the same log-likelihood, the same conditioned means and variances and the same predictions as the default sequential solver, and both equal the dense answer. This holds for every number of data from one upwards (powers of two and not), every instantaneous kernel expression, and every non-decreasing coordinate sequence.",
["inputs","schedules","configurations"],
"all numbers of data (hence all shapes of the scan tree), all kernels, sorted coordinates, noise and data vectors",
"The tests run one or two data-set sizes; the combination tree of a parallel scan has a different shape for each size, and the boundary elements only matter for small or odd ones.",
[PS,PK,PR],[("associative filtering elements and combination","%s"%PK),("associative smoothing elements and combination","%s"%PR)],
[("(A,b,C,eta,J)","filtering element of a span of data",PK),("(E,g,L)","smoothing element of a span of data",PR)],["log_probability / condition / predict with solver=ParallelStateSpaceSolver"])
prop("C08","Parallel solver equals the sequential one for every exposure timeline",
"For exposure-averaged data, the parallel solver gives the same log-likelihood, conditioned means and variances and predictions as the default sequential solver, and both equal the dense answer. This holds for every number of data and every timeline in which no instrument has two exposures open at once, listed in any order. For the integrated cosine, a process without driving noise whose smoothing step is numerically singular, it is claimed for one instrument and exposures of positive length.",
["schedules","inputs","configurations"],
"all interleavings of exposure events, all numbers of data, all row orders, integrated kernels, noise and data vectors",
"One test compares them on one regular schedule; which event comes first, ties and the number of events decide which boundary elements the scan is built from.",
[IPS,IPK,IPR],[("associative elements with resets","%s"%IPK),("associative smoothing elements with resets","%s"%IPR)],None,["log_probability / condition / predict with solver=ParallelIntegratedStateSpaceSolver"])
prop("C09","Every kernel expression evaluates to the documented covariance",
"Evaluating any kernel between any two coordinates gives its documented covariance function: symmetric in its arguments, a function of their separation only, equal to the variance on the diagonal; an integrated kernel evaluates to the covariance of the underlying process. Adding, multiplying and scaling kernels (in any order and nesting) adds, multiplies and scales their covariances.",
["inputs","programs"],
"all kernel expressions to any depth, all parameter values including every damping regime, all pairs of coordinates",
"The tests compare each kernel at one or two parameter settings with another library; kernel algebra is a grammar of unbounded depth, and regime switches depend on parameters.",
[KB,KI],[("evaluation through the state-space form","%s:StateSpaceModel.evaluate"%KB),("sum, product and scale composition","%s:Sum, Product, Scale"%KB)],None,["kernel(X1, X2)","kernel(X)","kernel.evaluate"])
prop("C10","State-space matrices of every kernel are mutually consistent",
"For every kernel and every three ordered times, the transition matrix over zero lag is the identity, transitions compose, process noise composes along the transition and vanishes at zero lag, is symmetric and positive semi-definite, and depends on the lag only; for an integrated kernel the same holds of the augmented matrices between exposure starts. The transition is the exponential of the feedback matrix, and a stationary kernel's stationary covariance, feedback, noise and noise-effect matrices satisfy the Lyapunov equation and reproduce the process noise, analytically and by the numerical helper routines alike.",
["inputs","programs"],
"all kernel expressions, parameter values and triples of ordered times (lags from zero to thousands of correlation lengths)",
"The tests compare analytic with numerical matrices for some kernels at one parameter setting and a handful of lags; composition over several lags, sums and products and the other regimes are not covered.",
[KB,KI,H],[("closed-form matrices per kernel",KB),("augmented matrices",KI),("numerical matrix-exponential integrals",H)],None,["design_matrix, stationary_covariance, noise, noise_effect_matrix, transition_matrix, process_noise, smolgp.helpers"])
prop("C11","Components of a summed model are uniquely named and exactly separated",
"In a model built as a sum of any number of kernels (products and scaled kernels counting as single components, identical kernels allowed), every component gets a distinct name, and asking for a component, or for any list of components, by name or by kernel, at the data or at test coordinates, gives the dense Gaussian-process posterior mean and variance of that part of the sum. The component means add up to the overall mean.",
["programs","inputs","configurations"],
"all sum structures over all kernels (nesting, repeats, products, scaled, integrated), all subsets and orders of component names, all data",
"The test uses one sum of a few distinct kernels; name clashes, repeated kernels, nesting, products and joint variances of subsets need other expressions.",
[G,KB],[("unique naming","%s:assign_unique_kernel_names"%G),("component observation models","%s:Sum/Product.observation_model"%KB),("component projection","%s:PredictedStates, GaussianProcess.get_component_mean"%G)],None,
["get_component_mean","get_all_component_means","predict(kernel=...)","condition(y, X_test, kernel=...)","PredictedStates.get_component / get_all_components"])
prop("C12","Answers do not depend on the call history",
"Every query on a Gaussian process (log-likelihood, conditioning with or without test coordinates, prediction at the data or elsewhere, components, full states) gives the same answer whatever other queries, with whatever other data or test coordinates, were made before it on the same or on derived objects, and routes to the same quantity agree with one another. No query changes the object it is made on, its inputs, or an object obtained earlier.",
["histories"],
"all sequences of public calls on a Gaussian process and on the objects those calls return",
"The tests call each method once per object in one order.",
[G,S,IS],[("conditioned states stored on a new object","%s:GaussianProcess.condition"%G),("prediction falls back to conditioning","%s:GaussianProcess.predict"%G)],
[("states","stored conditioning results, absent before conditioning","%s:GaussianProcess"%G)],["all public methods of GaussianProcess, ConditionResult, PredictedStates"])
prop("C13","Results survive compilation, batching and differentiation",
"Compiling (jit), batching (vmap) over parameters, data or coordinates, and running the same model eagerly give the same likelihoods, conditioned values and predictions. The gradient of the log-likelihood with respect to kernel parameters, noise, data and coordinates exists, is finite, and equals the derivative of the dense log-likelihood, in forward and reverse mode.",
["configurations","inputs"],
"all kernels, solvers and data sets under all combinations of the transformations; all differentiable inputs (a critically damped oscillator's quality factor, where regimes switch, excepted)",
"The tests never differentiate or batch a Gaussian process.",
[G,KB,KI,SK,IK,H],[("pure functional modules",G),("regime switches","%s:SHO"%KB)],None,["jax.jit / jax.vmap / jax.grad / jax.jacfwd of log_probability, condition and predict"])
prop("C14","Answers are equivariant under units, time shifts and long gaps",
"Changing the unit of time (rescaling coordinates, exposures and time-scale parameters) or the unit of the data (rescaling amplitudes, errors and data), or shifting all times, changes likelihoods, conditioned values and predictions exactly as the change of variables says, over many orders of magnitude. Data sets separated by a gap of very many correlation lengths are independent: likelihoods add, and neither influences predictions near the other.",
["inputs","configurations"],
"all kernels and solvers, all rescalings over many decades and all shifts (within floating-point resolution of the times), all gap lengths",
"The tests use one unit system per kernel; thresholds and overflow inside a regime show only in other units or at other gaps.",
[KB,KI,H,SK,IK],[("underflow thresholds and exponentials in closed forms","%s, %s"%(KB,KI))],None,["log_probability, condition, predict"])
prop("C15","Power spectra are the Fourier transforms of the covariances",
"The power spectral density reported by a kernel at any angular frequency is its covariance function's Fourier transform, (1/2pi) times the integral of k(tau) exp(-i omega tau), for every instantaneous kernel with a continuous spectrum and for every sum, product and scaling of such kernels. It is even, non-negative, and additive over sums.",
["inputs","programs"],
"all kernel expressions with a continuous spectrum, all parameter values, all frequencies",
"No test evaluates a power spectrum.",
[KB],[("spectrum from the state-space matrices","%s:StateSpaceModel.psd"%KB)],None,["kernel.psd(omega)"])
prop("C16","Dense exposure-averaged kernel is exact for every placement",
"The dense integrated oscillator kernel between any two observations (each an exposure or an instantaneous sample) equals the documented oscillator covariance averaged over both exposures, for every relative placement: separate, touching, partly overlapping, nested, identical, or zero length on either side. It is symmetric, and yields a positive semi-definite matrix for any set of observations; the dense instantaneous oscillator kernel equals the documented oscillator covariance.",
["inputs"],
"all relative placements and lengths of two exposures, all underdamped oscillator parameters",
"The test evaluates it on one regular schedule; nested, touching and zero-length pairs take other branches.",
[KD],[("case split on the relative placement","%s:IntegratedSHOKernel.evaluate"%KD)],None,["IntegratedSHOKernel(X1, X2)","SHOKernel(X1, X2)"])
prop("C17","User-defined kernels and observation models are honoured everywhere",
"A user-defined kernel given only by its feedback, noise, stationary covariance and observation matrices, or a user-defined wrapper that changes what is observed (for example the derivative of the process, or a gain that depends on the observation's coordinates, or on an extra coordinate such as an instrument label) gives the same likelihood, conditioned values, and predictions as the dense Gaussian process of that linear observation, with every solver, and evaluates to their covariance. An observation model passed to a single prediction (at test coordinates or at the data) changes only that prediction, and gives the dense posterior of that linear functional.",
["programs","inputs","configurations"],
"all linear observation models of the state depending on any coordinate, all kernels, data sets and solvers",
"One tutorial, and no test, uses a wrapper; coordinate-dependent gains with both solvers are not exercised.",
[KB,G,SK,PK,IK],[("observation model evaluated at data coordinates","%s, %s"%(SK,PK)),("wrapper delegation","%s:Wrapper"%KB)],None,["Wrapper subclasses in log_probability / condition / predict","predict(observation_model=...)"])
prop("C18","State estimates are posteriors given past, present and all data",
"After conditioning, the predicted, filtered and smoothed state means and covariances exposed on the process are exactly the posterior of the full state (the process, its derivatives, and the running integrals of the exposures that are open) given respectively the earlier data, the data up to and including that time, and all data; each is labelled with its own time, observation and instrument, in time order. The full state returned by a prediction is the posterior of the state at each test time given all data. Sequential and parallel solvers agree on all of these.",
["inputs","histories","configurations"],
"all data sets (gaps, coincidences, overlapping exposures of several instruments), all kernels whose state is the process and its derivatives, all four solvers, all test times",
"Tests compare a few observed means and variances; covariances between states, derivatives, and filtered or predicted states are never checked.",
[G,SK,SR,PK,PR,IK,IR,IPK,IPR],[("states assembled from filter and smoother output","%s:ConditionedStates"%G),("predicted / filtered / smoothed recursions","%s, %s, %s, %s"%(SK,SR,IK,IR))],None,["gp.states / condGP.states (t, predicted, filtered, smoothed)","predict(return_full_state=True)"])
with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P))
