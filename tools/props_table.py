NOT_APPLICABLE = []
ARCH = ["copulae/archimedean/abstract.py", "copulae/archimedean/clayton.py", "copulae/archimedean/frank.py", "copulae/archimedean/gumbel.py"]
ELL = ["copulae/elliptical/abstract.py", "copulae/elliptical/gaussian.py", "copulae/elliptical/student.py"]

P("C01", "Pseudo-observations are exact ranks under every tie rule",
  "Converting data to pseudo-observations gives, separately for each column, the rank of every value under the requested tie rule (average, min, max, dense or ordinal; average by default) divided by the number of rows plus one, so the result depends on the data only through their order. The result has the shape of the input, and a labelled table keeps its row and column labels. The lower-level ranking function ranks along the requested axis with the same rules.",
  ["inputs"], "every real vector or matrix (any length, any pattern of ties, any container) and every tie rule",
  "Tests compare a few stored arrays; the rank rules must hold for every weak order of every length under every tie rule.",
  ["copulae/core/misc.py", "copulae/copula/base.py"],
  [("pseudo_obs", "copulae/core/misc.py"), ("rank_data", "copulae/core/misc.py"), ("BaseCopula.pobs", "copulae/copula/base.py")],
  "Exhaustive over all value patterns up to length 4 (quick) for all tie rules, plus seeded longer data; the ranks are recomputed by counting in TLA+.")

P("C02", "Every copula's distribution function is that copula's joint distribution",
  "For every parametric family that offers a distribution function (Gaussian, Clayton, Frank, Gumbel, independence), every admissible parameter (for the Gaussian a positive definite correlation matrix) and every dimension, the value returned at a point of the closed unit cube is the family's defining formula. In particular it is 0 when a coordinate is 0, equals the remaining coordinate when all others are 1, lies between the Frechet bounds, and assigns a non-negative probability to every box.",
  ["inputs", "configurations"], "all families, dimensions, admissible parameters (negative and independence cases included) and points of the closed unit cube",
  "Tests evaluate one stored parameter per family at a few interior points; never the faces of the cube, negative dependence or higher dimensions.",
  ARCH + ELL[:2] + ["copulae/indep/indep.py"],
  [("AbstractArchimedeanCopula.cdf", "copulae/archimedean/abstract.py"), ("ipsi / psi of each family", "copulae/archimedean/"), ("GaussianCopula.cdf", "copulae/elliptical/gaussian.py"), ("IndepCopula.cdf", "copulae/indep/indep.py")],
  "Closed-form oracles in TLA+ evaluated at every recorded point (Gaussian: quadrature in dimension 2, axioms in dimension 3); finite sample of parameters and points, tolerance 1e-8 (1e-4 for Gaussian in dimension 3).")

P("C03", "Densities are the densities of the distribution functions",
  "For every family (Gaussian, Student, Clayton, Frank, Gumbel, independence), admissible parameter (for the elliptical families a positive definite correlation matrix) and dimension, the density at an interior point equals the mixed partial derivative of the family's distribution function, and is therefore non-negative and integrates to one. Archimedean families report not-a-number for a point outside the unit cube instead of a positive density.",
  ["inputs", "configurations"], "all families, dimensions, admissible parameters (negative dependence included) and interior points",
  "Tests pin a handful of density values at one parameter; they cannot settle the identity with the distribution function over the parameter space.",
  ARCH + ELL + ["copulae/indep/indep.py", "copulae/stats/_multivariate_t.py", "copulae/special/special_func.py"],
  [("pdf of each family", "copulae/archimedean/, copulae/elliptical/"), ("poly_log", "copulae/special/special_func.py"), ("gumbel_poly", "copulae/archimedean/gumbel.py"), ("multivariate_t.logpdf", "copulae/stats/_multivariate_t.py")],
  "Closed-form densities in TLA+ (generator-derivative recurrences, Cholesky, quantiles by Newton) at every recorded point; finite sample of parameters and points, relative tolerance 1e-6.")

P("C04", "Log options and log-likelihood agree with the plain values",
  "Wherever a copula's distribution function, density or generator offers a logarithm option, the result is the natural logarithm of the plain result (of its absolute value for generator derivatives). The log-likelihood of data equals the sum over rows of the log density evaluated at the pseudo-observations of the data (computed with the requested tie rule) or, when conversion is switched off, at the data as given; it does not depend on the order of the rows (unless ordinal ranks are requested for tied data). An elliptical copula whose correlation matrix is not positive semi-definite has log-likelihood minus infinity.",
  ["inputs", "configurations"], "all copulas (mixture, marginal and empirical copulas included), parameters, data sets and tie rules",
  "Tests check the log option on a few calls only and never relate log-likelihood to the density for tied data or every copula type.",
  ARCH + ELL + ["copulae/copula/base.py", "copulae/indep/indep.py", "copulae/empirical/empirical.py", "copulae/mixtures/gmc/gmc.py", "copulae/marginal/marginal.py"],
  [("log branch of pdf/cdf", "every copula module"), ("BaseCopula.log_lik", "copulae/copula/base.py"), ("AbstractEllipticalCopula.log_lik", "copulae/elliptical/abstract.py")],
  "Every recorded pair (plain, log) and every recorded log-likelihood is checked against its definition in TLA+; finite sample of configurations.")

P("C05", "Archimedean generators, derivatives and Pickands function are coherent",
  "For Clayton, Frank and Gumbel copulas the generator and the inverse generator are the family's formulas, are monotone and undo each other, for scalars and arrays alike, and the two derivative orders of the inverse generator are its true first and second derivatives. Joint distribution values are unchanged by permuting coordinates. Gumbel's Pickands dependence function equals 1 at both ends, lies between max(w, 1-w) and 1, is convex, and reproduces the bivariate distribution function; its reported derivatives are its true first and second derivatives.",
  ["inputs", "configurations"], "all three families, admissible parameters and points of the generators' domains",
  "Tests check a few stored values per family; small arguments, negative parameters, scalars and the Pickands derivatives are not reached.",
  ARCH,
  [("psi, ipsi, dipsi", "copulae/archimedean/*.py"), ("A, dAdu", "copulae/archimedean/gumbel.py")],
  "Formulas and inverse/derivative relations evaluated in TLA+ on every recorded value; finite parameter and argument grids.")

P("C06", "Only admissible parameters are accepted, and a refusal changes nothing",
  "Constructing a copula with, or assigning, a scalar dependence parameter outside its family's admissible set for the dimension raises an error, and every admissible value, the bounds included, is accepted and read back exactly; a dimension below two is refused. Elliptical copulas refuse a parameter vector whose length does not fit the dimension, and a Student copula also refuses non-positive degrees of freedom. After a refused assignment the copula's parameters and all its answers are what they were before.",
  ["inputs", "histories"], "every family and dimension, every parameter value, and every sequence of accepted and refused assignments",
  "Tests try single bad values; sequences of accepted and refused assignments, and the state after a refusal, are not checked.",
  ARCH[1:] + ELL[1:],
  [("params setters and constructors", "copulae/archimedean/*.py, copulae/elliptical/*.py")],
  "State machine model-checked exhaustively over parameter classes; all assignment sequences up to length 3 replayed.",
  state=[("params", "current parameter of the copula", "params property")])

P("C07", "The correlation matrix of an elliptical copula stays valid and indexed right",
  "After any sequence of entry, row, column, whole-matrix or vector assignments, a Gaussian or Student copula's matrix is symmetric with unit diagonal and holds exactly the values last written to each pair; only when an entry, row, column or matrix assignment leaves them not positive semi-definite is it replaced by a positive semi-definite correlation matrix (a parameter vector is kept as given). Every way of reading (by position, by pair, by row or column, as a whole matrix, or as the parameter vector in lower-triangle order) reports the same matrix. An assignment with an invalid index, diagonal position, out-of-range value, wrong length or wrong shape raises and changes nothing.",
  ["histories", "inputs"], "all sequences of reads and writes over every index form, for every dimension",
  "Tests do one assignment at a time in small dimension; index arithmetic between pairs, positions and vectors over sequences is not covered.",
  ELL + ["copulae/core/linalg.py", "copulae/core/misc.py"],
  [("__getitem__ / __setitem__", "copulae/elliptical/abstract.py"), ("create_cov_matrix, tri_indices", "copulae/core/misc.py"), ("near_psd", "copulae/core/linalg.py")],
  "TLA+ machine over dimensions 2-4; all write sequences to depth 2-3 over a small alphabet generated by TLC and replayed; each observed matrix validated.",
  state=[("correlation matrix", "pairwise correlations", "sigma / params")])

P("C08", "Fitting is all-or-nothing and its report describes the fitted copula",
  "Asking for the fit report before any successful fit raises the not-fitted error; after a successful fit the copula is returned, and the report gives the estimated parameters (equal to the copula's parameters), the number of observations and the log-likelihood of the fitted data at those parameters, whatever the estimator and scaling. A fit refused because of its data (wrong dimension, values outside the unit interval, fewer rows than dimensions) or an unknown method raises and leaves parameters, report and column names as they were. Every report and summary can be rendered as text and as HTML, and an unknown summary category is refused.",
  ["histories", "inputs"], "all sequences of successful and refused fits and summary requests, over all copula types and estimators",
  "Tests fit once and look at a few fields; sequences, failed fits and re-fits are not explored.",
  ["copulae/copula/base.py", "copulae/copula/estimator/estimator.py", "copulae/copula/estimator/max_likelihood.py", "copulae/copula/estimator/corr_inversion.py", "copulae/copula/estimator/summary.py", "copulae/utility/annotations/summary.py", "copulae/mixtures/gmc/gmc.py", "copulae/marginal/marginal.py"],
  [("BaseCopula.fit", "copulae/copula/base.py"), ("fit_copula", "copulae/copula/estimator/estimator.py"), ("FitSummary", "copulae/copula/estimator/summary.py"), ("select_summary", "copulae/utility/annotations/summary.py")],
  "Life-cycle machine model-checked exhaustively; all behaviours to the depth bound replayed on every copula type and each observation validated.",
  state=[("fit report", "none until the first successful fit", "summary('fit')")])

P("C09", "Estimators compute the estimates they are named after",
  "Fitting by inversion of Kendall's tau (or Spearman's rho, where the family supports it) sets the parameters to the average, for Archimedean families, or the nearest valid correlation matrix, for elliptical families, of the inverted pairwise sample rank correlations. Maximum likelihood returns a parameter at which the log-likelihood is at least that of the starting point and of neighbouring parameters, and recovers known parameters from large samples. A Student fit with fixed degrees of freedom leaves the degrees of freedom unchanged, with and without user-supplied optimiser options.",
  ["inputs", "configurations"], "all data sets with positive dependence (negative where the family admits it), families, dimensions, tie rules and optimiser options",
  "Tests compare one fit per family with a stored value.",
  ["copulae/copula/estimator/corr_inversion.py", "copulae/copula/estimator/estimator.py", "copulae/copula/estimator/max_likelihood.py", "copulae/elliptical/student.py"] + ARCH[1:],
  [("estimate_corr_inverse_params", "copulae/copula/estimator/corr_inversion.py"), ("estimate_max_likelihood_params", "copulae/copula/estimator/max_likelihood.py"), ("StudentCopula.fit", "copulae/elliptical/student.py")],
  "Sample rank correlations, inversions and log-likelihood comparisons recomputed in TLA+ for every recorded fit; finite sample of data sets.")

P("C10", "Every input form gives the same answer, in the documented shape",
  "A point given as a list, tuple, vector, labelled series or one-row table, positionally or by keyword, gives one scalar, and a table of rows gives one value per row, each equal to the answer for that row alone. Once a copula knows its column names, labelled input is matched by name, whatever its column order. Input whose number of columns differs from the dimension, or with more than two axes, is refused with a value error.",
  ["inputs", "configurations"], "all copula types, evaluation methods, input containers, dtypes, row counts and column orders",
  "Tests pass arrays almost everywhere; the cross product of container, calling style, dtype and column order is not sampled.",
  ["copulae/utility/annotations/reshape.py", "copulae/utility/annotations/validations.py", "copulae/marginal/marginal.py", "copulae/empirical/empirical.py"],
  [("shape_first_input_to_cop_dim, cast_input, cast_output, squeeze_output", "copulae/utility/annotations/reshape.py"), ("validate_data_dim", "copulae/utility/annotations/validations.py")],
  "TLC enumerates the full cross product of copula type, container, calling style, dtype and order; every combination is executed and validated.")

P("C11", "Samples have the promised shape, law and reproducibility",
  "Drawing n observations from any copula returns n rows and one column per dimension for every positive n, free of missing values and inside the unit cube (the empirical copula draws rows of its data, and a marginal copula values of its margins), as a table with the known column names when the copula has them. Two draws with the same seed (0 included) are identical. Samples follow the copula: uniform margins and the copula's own joint distribution, with or without a seed, in every dimension.",
  ["inputs", "configurations", "schedules"], "all copula families, parameters, dimensions, sample sizes and seeds",
  "Tests check the sample shape for one n and never the law of the sample.",
  ARCH[1:] + ELL[1:] + ["copulae/stats/log.py", "copulae/stats/uniform.py", "copulae/stats/_multivariate_t.py", "copulae/stats/stable/stable.py", "copulae/utility/annotations/reshape.py", "copulae/mixtures/gmc/random.py"],
  [("random of each family", "copulae/archimedean/, copulae/elliptical/, copulae/indep/"), ("random_log_series_ln1p", "copulae/stats/log.py"), ("multivariate_t.rvs", "copulae/stats/_multivariate_t.py")],
  "Shape, range, seed and label rules exactly; the law by comparing observed frequencies with the copula's distribution function (TLA+ oracle) at a 6-sigma bound for fixed seeds.")

P("C12", "Calls never modify what the caller passed in",
  "No public call on a copula, estimator, test or helper function modifies an array, table, list or option dictionary given to it, and later operations on a copula never write through to arrays the caller supplied earlier as parameters or data.",
  ["inputs", "histories"], "all public operations and all argument containers and dtypes, in any order",
  "Tests look at results, almost never at the arguments after the call.",
  ["copulae/special/_specfunc.pyx", "copulae/archimedean/frank.py", "copulae/archimedean/gumbel.py", "copulae/elliptical/gaussian.py", "copulae/elliptical/student.py", "copulae/copula/estimator/estimator.py", "copulae/marginal/univariate.py", "copulae/mixtures/gmc/parameter.py", "copulae/utility/dict.py"],
  [("argument handling of each public call", "copulae/"), ("merge_dict(s)", "copulae/utility/dict.py")],
  "A heap model in TLA+ (caller-owned cells are never written) validated against before/after snapshots of every argument of every public call in the generated call list.")

P("C13", "The empirical copula is the (smoothed) empirical law of the ranks",
  "The empirical copula's distribution function at a point equals the average over the data rows of the product of per-coordinate kernels of the rank - indicator, beta or checkerboard - with the offset added to the row count, and its density (beta smoothing only) is the matching average of beta densities. Random draws are rows of the data; mapping pseudo-observations back to margins returns, per column, the order statistic at the floor of the level times the row count, for every level in the closed unit interval. Points outside the unit cube given to the distribution function and unknown smoothing are refused.",
  ["inputs"], "all data sets (with and without ties), tie rules, smoothings, offsets and evaluation points including the faces",
  "Tests compare a few stored values for one data set.",
  ["copulae/empirical/empirical.py", "copulae/empirical/distribution.py", "copulae/empirical/_distribution.pyx"],
  [("emp_copula_dist", "copulae/empirical/_distribution.pyx"), ("EmpiricalCopula.pdf / random / to_marginals", "copulae/empirical/empirical.py")],
  "All small data patterns enumerated by TLC and seeded larger sets; kernels evaluated in TLA+ (beta kernel by the binomial sum).")

P("C14", "Rank and linear correlations are exact under every missing-data policy",
  "Pearson, Kendall (tau-b) and Spearman correlation matrices are symmetric with unit diagonal and equal the textbook statistic of each pair of columns, computed on all rows, on rows complete in every column, or on rows complete in that pair, according to the chosen policy; under the first policy a missing value makes exactly the affected entries missing. Table input gives a matrix labelled by its columns, two named series a 2 by 2 labelled matrix, and unknown methods or policies are refused.",
  ["inputs", "configurations"], "all data with any pattern of ties and missing values, all methods and policies",
  "Tests use complete data and one pattern of missing values.",
  ["copulae/stats/correlation.py"],
  [("corr", "copulae/stats/correlation.py"), ("_yield_vectors, _form_xy_vector", "copulae/stats/correlation.py")],
  "Statistics recomputed from their definitions in TLA+ for TLC-enumerated missing-value patterns and seeded data.")

P("C15", "The symmetry tests report the exact statistic and a valid p-value",
  "The exchangeability and radial-symmetry tests return the Cramer-von Mises statistic of their definition, computed from the empirical copula of the data (on the data points, or on the regular grid when one is requested). The reported p-value is (k + 1/2)/(N + 1) for an integer k between 0 and N, the number of replicates at least as large as the statistic; these come from the multiplier technique when exchangeability is tested on data without ties, and otherwise from the coin-tossing bootstrap, which carries any ties of either series. The statistics depend on the data only through ranks, and are zero for perfectly symmetric data.",
  ["inputs"], "all bivariate (exchangeability) or multivariate (radial symmetry) samples, tie patterns, tie rules, grid sizes and replicate counts",
  "Tests compare p-values on one data set.",
  ["copulae/gof/exchangeability.py", "copulae/gof/radial_symmetry.py", "copulae/gof/_exchangeability.pyx", "copulae/gof/_radial_symmetry.pyx"],
  [("exch_test_stat", "copulae/gof/_exchangeability.pyx"), ("rad_sym_test_stat", "copulae/gof/_radial_symmetry.pyx"), ("p-value", "copulae/gof/*.py")],
  "Statistics recomputed by counting in TLA+ over TLC-enumerated rank patterns; p-value lattice checked exactly, p-value direction on strongly (a)symmetric data, and the p-value itself against all coin tosses of the bootstrap (small samples) or spec-side multiplier replicates.")

P("C16", "Goodness of fit compares the fitted copula with the empirical copula",
  "The goodness-of-fit test fits the requested copula class to the pseudo-observations (with the fitting tie rule only when ties exist) and returns the fitted parameters, the sum over observations of the squared difference between empirical and fitted distribution functions, and a p-value (k + 1/2)/(reps + 1) with k the number of bootstrap statistics at least as large. Replicates are drawn from the fitted copula, differ from one another whether or not several processes are used, and carry the tie pattern of the data.",
  ["inputs", "schedules"], "all copula classes with a distribution function, data sets with and without ties, replicate counts and process counts",
  "Tests only look at the sign of the p-value for one data set.",
  ["copulae/gof/goodness_of_fit/goodness_of_fit.py", "copulae/gof/goodness_of_fit/utils.py"],
  [("GofParametricBootstrap", "copulae/gof/goodness_of_fit/goodness_of_fit.py"), ("GofData", "copulae/gof/goodness_of_fit/utils.py")],
  "A recording copula class passed as the class under test turns every fit, draw and evaluation into a trace event; the trace is validated against the bootstrap protocol machine and the statistic recomputed in TLA+.",
  observe=["calls made on the copula class passed to gof_copula"])

P("C17", "A marginal copula composes its margins with its inner copula",
  "A copula with specified margins evaluates its distribution function as the inner copula's at the margins' distribution values, and its density as the inner copula's density there times the product of the marginal densities (zero outside of their supports), for integer and real input. Its samples are the inner copula's samples passed through the margins' quantile functions, fitting fits each margin to its own column and the inner copula to the data, and its reported parameters rebuild an equivalent copula. Margin descriptions (name, alias or dictionary, for all margins or one per dimension) that are invalid or too few are refused.",
  ["inputs", "configurations"], "all inner copulas, margin descriptions, parameters, data and dtypes",
  "Tests build a few three-dimensional examples and check shapes.",
  ["copulae/marginal/marginal.py", "copulae/marginal/univariate.py"],
  [("MarginalCopula.cdf/pdf/random/fit", "copulae/marginal/marginal.py"), ("create_univariate, get_marginal_detail", "copulae/marginal/univariate.py")],
  "TLC enumerates margin descriptions; composition evaluated in TLA+ with closed-form margins (normal, exponential, uniform, logistic, Cauchy...) on every recorded value.")

P("C18", "Mixture parameters are always a valid mixture and survive conversion",
  "A mixture parameter set always has one non-negative weight per component summing to one, one mean vector per component and one symmetric positive semi-definite covariance matrix per component, of matching dimensions; any attempt to build or change it otherwise, or to give a mixture copula a set with another number of components or dimensions, is refused and leaves it unchanged. Converting to a vector and back, or from a dictionary, reproduces the same weights, means and covariances in the same order.",
  ["inputs", "histories"], "all numbers of components and dimensions, all valid and invalid parameter contents, and sequences of changes",
  "Tests convert one stored parameter set.",
  ["copulae/mixtures/gmc/parameter.py", "copulae/mixtures/gmc/gmc.py"],
  [("GMCParam", "copulae/mixtures/gmc/parameter.py"), ("GaussianMixtureCopula.params", "copulae/mixtures/gmc/gmc.py")],
  "Machine over weight/mean/covariance classes model-checked exhaustively; all short assignment sequences replayed and every observed set validated.",
  state=[("mixture parameters", "weights, means, covariances", "params property")])

P("C19", "Mixture copula fitting keeps its best iterate and its answers follow the mixture",
  "The mixture copula's density and distribution functions are the weighted sums of the component normal ones. Expectation-maximisation under the mixture-copula and Li criteria ends with the parameters of the highest log-likelihood it recorded, reports the log-likelihood of the parameters it returns under every criterion, and stops by its criterion or its iteration limit; every fitting method ends with valid parameters of the requested size, and these are the copula's parameters. Using an unfitted mixture copula raises the not-fitted error, and an unknown fitting method is refused without changing the copula.",
  ["inputs", "histories"], "all data sets, component counts, starting points, criteria, iteration limits and call orders",
  "Tests run one fit per method and check that it runs.",
  ["copulae/mixtures/gmc/gmc.py", "copulae/mixtures/gmc/loglik.py", "copulae/mixtures/gmc/marginals.py", "copulae/mixtures/gmc/estimators/em.py", "copulae/mixtures/gmc/estimators/kmeans.py", "copulae/mixtures/gmc/estimators/sgd.py"],
  [("expectation_maximization, LogLik", "copulae/mixtures/gmc/estimators/em.py"), ("GaussianMixtureCopula.fit", "copulae/mixtures/gmc/gmc.py")],
  "EM recorded as a trace of (parameters, log-likelihood) and validated against the EM machine; mixture values recomputed in TLA+.")

P("C20", "Combinatorial numbers and Gumbel polynomials are exact by every method",
  "Stirling numbers of both kinds, Eulerian numbers, generalised binomial coefficients, permutations, falling-factorial signs and polynomial evaluation are the mathematical values for every admissible argument, whole rows agree with single entries, and repeated or out-of-order queries give the same answers. Gumbel coefficients, Sibuya-sum probabilities and Gumbel polynomials computed by any of the offered methods equal the exact value to within the rounding error of the terms the method sums, with the logarithm option giving its logarithm. Arguments outside the domain are refused.",
  ["inputs", "histories"], "all admissible integer and real arguments, methods and query orders",
  "Tests sample a few small arguments per function.",
  ["copulae/special/special_func.py", "copulae/special/combinatorics.py", "copulae/special/_specfunc.pyx", "copulae/archimedean/auxiliary.py", "copulae/archimedean/gumbel.py"],
  [("stirling_first/second, eulerian", "copulae/special/special_func.py, _specfunc.pyx"), ("gumbel_coef, gumbel_poly", "copulae/archimedean/gumbel.py"), ("dsum_sibuya", "copulae/archimedean/auxiliary.py")],
  "Triangles computed exactly (unbounded integers) in TLA+ up to n = 25-30; coefficients by a cancellation-free recurrence; finite grids of real arguments.")

P("C21", "Matrix helpers keep correlation and covariance matrices valid",
  "Index and matrix builders place the k-th value of a vector at the k-th pair of the triangle on both sides of the diagonal; covariance-to-correlation conversion and its inverse undo each other. The positive-semi-definite test accepts exactly the symmetric matrices whose eigenvalues are non-negative up to tolerance - strictly positive when strictness is requested - and the nearest-matrix repair returns a valid input unchanged and otherwise, for a positive diagonal, a symmetric positive semi-definite matrix with the same diagonal: the closest one in correlation scale by the 'nearest' method, the rescaled clipping of eigenvalues by the 'clipped' method. Non-symmetric input to the repair is refused.",
  ["inputs"], "all vectors and square matrices of every dimension, both repair methods",
  "Tests use one or two matrices.",
  ["copulae/core/linalg.py", "copulae/core/misc.py"],
  [("tri_indices, create_cov_matrix", "copulae/core/misc.py"), ("is_psd, near_psd, cov2corr, corr2cov", "copulae/core/linalg.py")],
  "All small integer matrices enumerated by TLC; definiteness decided exactly by principal minors over integers, and by the spectrum (Jacobi rotations) for real matrices up to dimension 8, in TLA+.")

P("C22", "Dependence measures, their inverses and derivatives are consistent",
  "Kendall's tau and, where offered, Spearman's rho of a copula are the family's values as functions of its current parameter, the inverse functions undo them for scalars and arrays over the whole attainable range, and the reported derivatives are their true derivatives. Tail-dependence coefficients are read the same way for every family and equal the limits of the joint tail probability.",
  ["inputs", "configurations"], "all families offering the measure, all admissible parameters and attainable values",
  "Tests check one or two values per family.",
  ARCH[1:] + ELL + ["copulae/special/optimize.py", "copulae/special/debye.py"],
  [("tau, rho, itau, irho, dtau, drho, lambda_", "copulae/archimedean/*.py, copulae/elliptical/*.py"), ("find_root", "copulae/special/optimize.py")],
  "Closed forms (Debye functions by quadrature) and derivative identities in TLA+ on every recorded value; finite parameter grids.")

P("C23", "Special functions satisfy their defining identities, threaded or not",
  "Debye, dilogarithm (real and complex), Clausen, polylogarithm, log-exponential helper and pi-multiple trigonometric functions agree with their defining series or integrals over their whole domain (the complex dilogarithm for arguments in (-pi, pi]), for scalars and arrays of any shape. Results are the same whether evaluated serially or in parallel, one element at a time or as an array.",
  ["inputs", "schedules"], "all real (for the dilogarithm also complex) arguments, array shapes and threading choices",
  "Tests compare stored values at a few arguments and never compare serial with threaded evaluation.",
  ["copulae/special/_specfunc.pyx", "copulae/special/clausen.py", "copulae/special/debye.py", "copulae/special/dilog.py", "copulae/special/special_func.py", "copulae/special/trig.py"],
  [("debye, clausen, dilog, dilog_complex", "copulae/special/_specfunc.pyx"), ("poly_log, log1mexp, log1pexp, log_sum", "copulae/special/special_func.py"), ("cospi, sinpi, tanpi", "copulae/special/trig.py")],
  "Series and quadrature oracles in TLA+ on every recorded value across every branch of the implementation's domain; finite argument grids.")

P("C24", "Univariate stable and multivariate Student laws match their definitions",
  "The multivariate Student density is the textbook density for every dimension, location, correlation and degrees of freedom, with the normal limit for very large degrees of freedom, and its samples follow it. The skewed stable density is that of the law with the stable characteristic function in each of the three parameterizations, plain and as a logarithm, near its centre, at points a rounding away from it, and far in the tails; it reproduces the closed-form cases (normal, Cauchy and Levy), is reflected when the skewness changes sign, scales and shifts with its scale and location, and in the third parameterization has its mode at the location, and its samples follow its distribution function. The logarithmic-series and uniform samplers draw from their laws; invalid shape parameters are refused.",
  ["inputs"], "all admissible shape, scale and location parameters and arguments",
  "Tests check two stored points.",
  ["copulae/stats/_multivariate_t.py", "copulae/stats/stable/stable.py", "copulae/stats/stable/pdf.py", "copulae/stats/log.py", "copulae/stats/uniform.py"],
  [("multivariate_t.pdf / logpdf / rvs", "copulae/stats/_multivariate_t.py"), ("skew_stable", "copulae/stats/stable/stable.py")],
  "Zolotarev integrals in TLA+, checked by the design model against inversion of the characteristic function, decide every recorded density; sample counts are compared with the distribution function; multivariate Student densities and component laws by formula and quadrature.")

P("C25", "Optimiser options reach the optimiser, merged over the defaults at every depth",
  "Merging option dictionaries keeps every key of every dictionary, merges where both values are dictionaries and otherwise lets the later value win, for any number of dictionaries in sequence, and leaves the dictionaries given as they were. A maximum likelihood fit calls scipy's optimiser with the options the caller gives merged in this way over the defaults the library uses for that method, whatever the letter case of the method's name; every default that the caller does not mention stays in force.",
  ["inputs", "configurations", "histories"], "all nested dictionaries and sequences of them, copula families, optimiser methods and options",
  "Tests merge one or two dictionaries and never look at what the optimiser receives.",
  ["copulae/utility/dict.py", "copulae/copula/estimator/estimator.py", "copulae/copula/estimator/max_likelihood.py", "copulae/copula/base.py"],
  [("merge_dict, merge_dicts", "copulae/utility/dict.py"), ("form_options", "copulae/copula/estimator/estimator.py"), ("minimize call", "copulae/copula/estimator/max_likelihood.py")],
  "All sequences of up to three dictionaries of depth two over two keys are explored in the model; all pairs and a sample of triples are replayed. The optimiser's arguments are recorded at scipy.optimize.minimize and compared with the merge in TLA+.")

P("C26", "Data sets are loaded as shipped, a new table on every call",
  "Each data set loader returns the numbers of its shipped file, in its order and under its column names; the Swiss Market Index is indexed by date and, as returns, holds the relative change of every price from the row before, without the first row. Every call returns a table of its own: whatever a caller does to one, tables loaded before or after are as shipped.",
  ["histories"], "all loaders and all sequences of loads and changes to loaded tables",
  "Tests use the data sets as fixtures and never compare them with the files or load one twice.",
  ["copulae/datasets/base.py"],
  [("load_danube, load_marginal_data, load_residuals, load_smi", "copulae/datasets/base.py")],
  "All histories of up to three (quick) or four (thorough, sampled) loads and changes by the caller; every cell of every file once, a sample of rows in every history.")

P("C27", "Copula objects share nothing, and only a change changes an answer",
  "Changing one copula object (new parameters, an item assignment, a fit, new smoothing) changes no answer of any other object, new or copied, of the same family or another, and an object made afresh always starts with the answers a first one had, whatever happened before. A deep or pickled copy answers exactly like its original in parameters, samples under a seed, densities, distribution function and reports, and from then on the two are independent; what an object answers follows from its present parameters, whatever was asked of it or set before. Asking an object for anything, and asking it for something it refuses, changes no later answer of it or of others; what a caller writes into an answer of one object is never seen by another object.",
  ["histories"], "all copula families (Archimedean, elliptical, independence, Gaussian mixture, empirical, marginal) and all histories of making, copying, changing and asking objects",
  "Tests make one object, call it once and throw it away.",
  ["copulae/copula/base.py", "copulae/archimedean/abstract.py", "copulae/elliptical/abstract.py", "copulae/mixtures/gmc/gmc.py", "copulae/empirical/empirical.py", "copulae/marginal/marginal.py", "copulae/copula/summary.py"],
  [("BaseCopula", "copulae/copula/base.py"), ("params setters", "copulae/archimedean/*.py, copulae/elliptical/*.py"), ("GaussianMixtureCopula", "copulae/mixtures/gmc/gmc.py"), ("EmpiricalCopula", "copulae/empirical/empirical.py")],
  "All histories of four operations over up to three objects are explored in the model, where a change reaches its own object only; a sample of them is replayed on every family, and after every operation every live object is observed in full and compared in TLA+ with what it answered before.")

P("C28", "Printed summaries and representations show the object as it is",
  "The summary of a copula, as text and as HTML, names the kind of copula and its dimension and shows every current parameter under its own label and in its own order: the dependence parameter, the degrees of freedom and the whole correlation matrix, the ties rule, offset and smoothing of an empirical copula, each margin of a marginal copula with its type and named parameters followed by the inner copula, and every weight, mean and covariance of a mixture with the algorithm of the last successful fit. This holds after every sequence of assignments, fits, refused requests and earlier printing; numbers are shown in full, in tables to the printed precision, and the written form of a mixture parameter set, evaluated as Python, gives exactly that set back, in every dimension and number of components.",
  ["inputs", "histories"], "all copula families, dimensions, parameters and histories of changes and prints",
  "Tests only check that a summary is a string or of the summary type.",
  ["copulae/copula/summary.py", "copulae/mixtures/gmc/summary.py", "copulae/mixtures/gmc/parameter.py", "copulae/marginal/summary.py", "copulae/marginal/univariate.py", "copulae/empirical/summary.py", "copulae/indep/summary.py"],
  [("Summary", "copulae/copula/summary.py"), ("Summary", "copulae/mixtures/gmc/summary.py"), ("GMCParam.__str__, __repr__", "copulae/mixtures/gmc/parameter.py"), ("Summary", "copulae/marginal/summary.py"), ("get_marginal_detail", "copulae/marginal/univariate.py")],
  "The page of every kind of object is specified as a sequence of labelled entries; the design model checks that pages follow the object through all short histories and tell any two different objects apart, and every replayed history compares the words and numbers read off the real pages with it.")
