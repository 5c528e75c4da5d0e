import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
R='robuststats/'
EST=R+'estimation/'
MOD=R+'models/'
p('C01','Complex/real conversions are lossless and follow one block layout',
 'Converting complex vectors, sample arrays, matrices or stacks of matrices to their real equivalent and back returns exactly the same values, real parts come before imaginary parts, and a matrix C maps to half of [[Re C, -Im C],[Im C, Re C]] so that sums, transposes and positive definiteness carry over. Converting something already in the target representation returns it unchanged. Non-square, odd-sized or wrongly-dimensioned inputs are rejected with an error and inputs are never modified.',
 ['inputs'],'for every dimension, dtype and memory layout, every complex array',
 'tests sample one or two random arrays per function and never odd sizes, other dtypes, layouts or rejected shapes',
 [MOD+'mappings.py'],[('arraytoreal / arraytocomplex / covariancetoreal / covariancetocomplex and plural forms',MOD+'mappings.py')],['return values of the conversion functions'])
p('C02','Robust M-estimates follow their documented fixed-point recursion',
 'For Tyler, Student-t and Huber estimation of real or complex centred data, each iteration replaces the current matrix S by (1/N) times the sum over samples of u(x^H S^-1 x) x x^H, with u the documented weight: p/t for Tyler; (d+p)/(d+t) in the real case and (d/2+p)/(d/2+t) in the complex case for Student with d degrees of freedom; min(1, lambda/t)/beta for Huber with lambda and beta derived from the chi-square law of the Gaussian case. The recursion starts from the matrix the caller supplies, or else from the uncentred sample covariance. This holds for the functions and for the estimators built on them.',
 ['inputs','configurations'],'for every data set (any N > p >= 1, any scale), starting point, degrees of freedom, Huber fraction in (0,1) and number of iterations',
 'the tests only check that the final estimate is within a loose distance of a simulated truth for one configuration, and the two Huber tests fail at the pinned commit',
 [EST+'covariance.py'],[('fixed-point loops',EST+'covariance.py: *_fixed_point, *_fixedpoint')],['covariance returned with iteration cap k and tolerance 0'],
 [dict(name='sigma',meaning='current iterate',where=EST+'covariance.py')])
p('C03','Iterative fits stop exactly when converged or at the iteration cap',
 'A fixed-point fit stops at the first iteration whose relative Frobenius change is at most the tolerance, or after the maximum number of iterations, and returns that iterate. The reported error is the relative change of the last iteration performed and the reported iteration count is the number of iterations performed. A non-convergence warning is logged if and only if the count equals the cap.',
 ['inputs','configurations','histories'],'for every data set, starting point, tolerance and cap (including 0 and 1)',
 'tests run one default tolerance/cap and look only at the estimate',
 [EST+'covariance.py'],[('while (delta > tol) and (iteration < iter_max)',EST+'covariance.py')],['err_, iteration_, covariance_, log records'])
p('C04','M-estimates are equivariant and insensitive to sample order and scaling',
 'Permuting the samples does not change a Tyler, Student-t or Huber estimate, and an invertible linear change of coordinates x -> Ax (complex A for complex data) changes the estimate S to A S A^H. Converged Tyler shape estimates are in addition unchanged, up to overall scale, when individual samples are multiplied by arbitrary non-zero scalars. With more samples than the largest influence sup u(t)t of one sample, moving one sample arbitrarily far away leaves the converged Tyler, Student-t and Huber estimates bounded.',
 ['inputs','configurations'],'for every data set in general position, permutation, invertible A and per-sample scalars',
 'tests never run an estimator on two related data sets',
 [EST+'covariance.py'],[('weights depend on data only through x^H S^-1 x',EST+'covariance.py')],['covariance_ of paired fits'])
p('C05','Shape normalisation rescales to the requested constraint and nothing else',
 'With trace, determinant or element normalisation a Tyler shape estimate has trace p, determinant 1 or first entry 1 respectively, for real and complex data and for both estimation methods. It differs from the unnormalised estimate of the same fit only by one positive scalar, and reported error and iteration count are the same. With no normalisation, or an unknown name (which is logged as an error), no rescaling takes place.',
 ['inputs','configurations'],'for every data set, dimension, method and normalisation name',
 'tests exercise the normalisations on a single data set without relating them to the unnormalised fit',
 [EST+'covariance.py'],[('get_normalisation_function',EST+'covariance.py')],['covariance_'])
p('C06','Student-t fits maximise the likelihood that their score reports',
 'The score of a fitted Student-t estimator is the sum over the samples of the log-density of the centred (complex) multivariate t law with the fitted matrix and the given degrees of freedom. A converged fit is a stationary point and maximum of that score over matrices on its own training data, and each further iteration never lowers it. Scoring an unfitted estimator logs an error and returns nothing; non-positive degrees of freedom are rejected.',
 ['inputs','configurations'],'for every data set, degrees of freedom and dimension, real and complex',
 'tests only compare the estimate to a simulated truth with a loose tolerance, which wrong constants satisfy',
 [EST+'covariance.py',MOD+'probability.py'],[('student_t_mle_fixed_point / score',EST+'covariance.py'),('complex_multivariate_t.logpdf',MOD+'probability.py')],['score(X), covariance_'])
p('C07','Natural-gradient Tyler fits reach the Tyler fixed point',
 'A Tyler fit by natural gradient returns a positive definite matrix satisfying the Tyler fixed-point equation (up to overall scale) to optimisation accuracy, real and complex, hence the same shape as the fixed-point method. It reports as error the negated Tyler cost of the unnormalised solution computed on unit-norm samples, and no iteration count. The result does not depend on verbosity.',
 ['inputs','configurations'],'for every data set in general position with N well above p',
 'tests compare one data set loosely with a simulated truth',
 [EST+'covariance.py',MOD+'cost.py'],[('tyler_shape_matrix_naturalgradient',EST+'covariance.py')],['covariance_, err_, iteration_'])
p('C08','A fit depends only on parameters, data and starting point',
 'Refitting an estimator, after fits on any other data of any other dimension, gives exactly what a freshly constructed estimator with the same parameters gives on the same data. Verbosity changes only what is printed or logged. Data arrays, starting points and parameter values passed by the caller are never modified.',
 ['histories','inputs','configurations'],'for every sequence of fits, parameter changes and scores, and every estimator class',
 'every test fits a new object once',
 [EST+'covariance.py',EST+'base.py',EST+'structured.py'],[('fit methods overwrite covariance_/err_/iteration_',EST+'covariance.py')],['covariance_, err_, iteration_ after histories of calls'])
p('C09','Parameter updates, clones and copies take effect and stay independent',
 'After parameters are set on an estimator, the next fit behaves as one constructed with those values, including the estimation method. A clone has the same parameters and no fitted state; a deep copy has the same parameters and fitted state. Later parameter changes or fits on the original, clone or copy never affect one another.',
 ['histories','configurations'],'for every interleaving of set-parameter, fit, clone and copy operations on up to several objects',
 'no test calls set_params, clone or deepcopy on an estimator',
 [EST+'covariance.py',EST+'base.py'],[('BaseEstimator.get_params/set_params',EST+'covariance.py'),('set_method',EST+'covariance.py')],['get_params, covariance_'])
p('C10','Batch covariance estimation equals per-trial estimation in order',
 'Transforming a stack of trials returns one matrix per trial, in the order of the trials, each equal to what the wrapped estimator gives when fitted to that trial alone. The result is the same for every number of parallel workers and is not truncated or converted by the data type of the trials. Extra fit arguments reach every trial.',
 ['inputs','configurations','schedules'],'for every number of trials, worker count, schedule of workers, estimator and trial content',
 'tests run one estimator with one or two worker counts on identically-distributed trials and check only shapes or loose errors',
 [EST+'base.py'],[('CovariancesEstimation.transform',EST+'base.py')],['array returned by transform'])
p('C11','Batch feature estimation keeps trial order and isolates trials',
 'Transforming trials into features stores exactly one item per trial, in the order of the trials, each equal to the output of the wrapped estimator applied to that trial alone, whether the estimator outputs a scalar, an array or several arrays. The result is the same for every number of workers, under process or thread execution. The estimator supplied by the caller is not altered by the transformation.',
 ['inputs','configurations','schedules'],'for every number of trials, worker count, schedule and kind of feature',
 'tests check only the shape of a small batch',
 [EST+'base.py'],[('FeaturesEstimation.transform',EST+'base.py'),('_feature_estimation',EST+'base.py')],['container returned by transform'])
p('C12','Feature containers behave as append-only sequences of items',
 'After any sequence of appends of single items, batches, tuples of components or other containers, a container holds exactly those items in order: its length is the number of items, its export, shape and data types describe exactly them, and indexing by integers, slices, index lists or masks selects the corresponding items. This holds across any growth of the internal storage. Taking a selection, exporting or appending never changes other containers, nor arrays passed earlier by the caller.',
 ['histories','inputs'],'for every history of operations, batch sizes crossing any storage boundary, number of components and item shapes',
 'tests perform a handful of appends, well-formed and mostly of small size',
 [EST+'base.py'],[('_FeatureArray',EST+'base.py')],['len, shape, dtype, export, indexing'],
 [dict(name='_array,_len',meaning='preallocated storage and number of items in use',where=EST+'base.py')])
p('C13','Rejected appends leave a feature container unchanged',
 'Appending data with the wrong type, number of components, dimensions, item shape, data type, or with components of different lengths raises an error. The container then has exactly the content it had before, and later valid appends work normally.',
 ['histories','fault_sequences','inputs'],'for every container state and every kind of malformed append, in any component position',
 'tests try a few malformed appends and never look at the container afterwards',
 [EST+'base.py'],[('_FeatureArray.append checks',EST+'base.py'),('check_type/check_value/check_positive',R+'utils/checking.py')],['len, export after a failed append'])
p('C14','Vectorising a feature container gives one row per stored item',
 'Vectorising returns one row per stored item, in order, holding the entries of the item components one after the other in row-major order. Components whose stored matrices are all symmetric/Hermitian or all skew-symmetric/skew-Hermitian contribute only their upper triangle including the diagonal; all others contribute every entry. The container itself is not changed.',
 ['histories','inputs'],'for every history of appends and every mix of component kinds',
 'tests vectorise small containers built by one append',
 [EST+'base.py'],[('_FeatureArray.vectorize',EST+'base.py')],['array returned by vectorize'])
p('C15','Complex sample covariance estimation obeys its definition',
 'The complex empirical covariance is (1/N) sum (x-m)(x-m)^H with m the sample mean, or zero when data are declared centred; it is Hermitian positive semidefinite, the stored location is m, and the stored or computed precision is its (pseudo-)inverse, stored only when requested. Error norms between a fitted and a given covariance are the real, non-negative Frobenius or spectral norm of the difference, scaled and squared as requested. A single sample triggers a warning.',
 ['inputs','configurations'],'for every complex data set, centring flag, precision flag and error-norm option',
 'tests check one shape and one loose error',
 [EST+'base.py'],[('complex_empirical_covariance, ComplexEmpiricalCovariance',EST+'base.py')],['covariance_, location_, precision_, get_precision(), error_norm()'])
p('C16','Kronecker MM estimation finds the Kronecker-structured Tyler fixed point',
 'For real or complex data whose samples are vectorised matrices, the majorisation-minimisation estimator returns Hermitian positive definite factors A and B, stores their Kronecker product A (x) B as covariance, and each iteration does not increase the Tyler cost of the product on the data. At convergence each factor satisfies its fixed-point equation given the other. It reports the final relative change and the number of iterations, stops at tolerance or cap, and rejects factor sizes that do not multiply to the number of features.',
 ['inputs','configurations'],'for every factor sizes, data set, tolerance and iteration cap',
 'tests compare one simulated data set with the truth, through a real covariance where conjugation errors are invisible',
 [EST+'structured.py'],[('estimation_cov_kronecker_MM, KroneckerEllipticalMM',EST+'structured.py')],['A_, B_, covariance_, returned error and iterations'])
p('C17','Kronecker Student-t estimation improves and reports its likelihood',
 'The Kronecker Student-t estimator returns Hermitian positive definite factors with unit determinant for the first, stores their Kronecker product as covariance, and never has a lower complex Student-t likelihood than its starting point. The gradient it follows is the gradient of the negative log-likelihood it minimises, so fits end near a stationary point. Its score is the log-likelihood of the given data under the fitted covariance.',
 ['inputs','configurations'],'for every factor sizes, degrees of freedom, data set, location flag and starting point',
 'tests only check that the fit runs',
 [EST+'structured.py',MOD+'manifolds.py'],[('_generate_cost_function_kronecker_student, _generate_egrad_function_kronecker_student, KroneckerStudent',EST+'structured.py')],['A_, B_, covariance_, score, cost and gradient values'])
p('C18','Complex normal and Student-t densities equal their closed forms',
 'The (log-)density of the complex multivariate normal and Student-t laws at complex points equals the circular closed form with the given mean and scale matrix, and reduces to the ordinary real law for real parameters and data; entropies and distribution functions follow the same law. Calls with parameters, frozen distributions and exponentiated log-densities agree, for one point or many, with arrays, sequences or default parameters. Real data under complex parameters are treated as having zero imaginary part, and complex data under real parameters lose their imaginary part, with a logged warning in both cases.',
 ['inputs','configurations'],'for every dimension, mean, scale matrix, degrees of freedom and data shape',
 'tests compare with scipy on one random draw and several fail at the pinned commit',
 [MOD+'probability.py'],[('complex_multivariate_normal, complex_multivariate_t',MOD+'probability.py')],['logpdf, pdf, entropy'])
p('C19','Random sampling of complex laws has the right shape, seed and moments',
 'Samples from the complex normal and Student-t laws have one row per requested sample and one column per dimension, are complex when a parameter is complex and real otherwise, and are fully determined by the seed. Their first two moments are those of the law: mean as given, covariance equal to the scale matrix (times d/(d-2) for Student), and zero pseudo-covariance. Frozen distributions draw the same samples as direct calls with the same seed.',
 ['inputs','configurations'],'for every dimension, mean, scale matrix, sample count and seed',
 'tests check only shapes',
 [MOD+'probability.py'],[('rvs overrides',MOD+'probability.py')],['rvs'])
p('C20','Hermitian positive definite manifold operations satisfy affine geometry',
 'On the manifold of Hermitian positive definite matrices (single or stacked), the inner product is Re tr(X^-1 U X^-1 V), the exponential and logarithm maps are mutually inverse, the distance is affine-invariant, symmetric and equals the norm of the logarithm, and transport is an isometry between tangent spaces. Projection is onto Hermitian matrices, the Riemannian gradient represents the directional derivative, the retraction agrees with the exponential to second order and stays on the manifold, Hessian conversion gives the covariant derivative of the Riemannian gradient, and the announced dimension is that of the manifold. Random points and unit-norm random tangent vectors belong to the manifold and its tangent space.',
 ['inputs','configurations'],'for every size, stack size, point and tangent vector',
 'tests check a few identities with one random point',
 [MOD+'manifolds.py'],[('HermitianPositiveDefinite',MOD+'manifolds.py')],['manifold operations'])
p('C21','Unit-determinant manifold operations stay on the manifold',
 'On the manifold of Hermitian positive definite matrices of unit determinant (single or stacked), random points, exponential and retraction have unit determinant; projection, random tangent vectors, gradient conversion, logarithm and transport give Hermitian matrices that are trace-free relative to the base point. Projection is idempotent and orthogonal, and gradient conversion gives the orthogonal projection of the ambient Riemannian gradient. Inner product, distance, exponential and logarithm are those of the ambient manifold, the retraction agrees with the exponential to second order, and the announced dimension is that of the manifold.',
 ['inputs','configurations'],'for every size, stack size, point and ambient vector',
 'tests check a few identities with one random point',
 [MOD+'manifolds.py'],[('SpecialHermitianPositiveDefinite',MOD+'manifolds.py')],['manifold operations'])
p('C22','Weighted product metrics are consistent with their gradients',
 'On a weighted product manifold the inner product is the weighted sum of the component inner products, the squared distance is the weighted sum of squared component distances, and random tangent vectors have unit norm. The Riemannian gradient represents the directional derivative for that inner product, on plain weighted products and on the Kronecker elliptical manifold, whose inner product is the elliptical Fisher metric of A (x) B. All other operations act on each component separately.',
 ['inputs','configurations'],'for every number of components, positive weights, factor sizes, metric coefficient, points and tangent vectors',
 'tests use one configuration and do not check the gradient against the metric',
 [MOD+'manifolds.py'],[('WeightedProduct, KroneckerHermitianPositiveElliptical',MOD+'manifolds.py')],['manifold operations'])
p('C23','Strictly positive vector manifold matches positive diagonal matrices',
 'For strictly positive vectors (one or several columns) the inner product, norm, distance, exponential, logarithm, retraction, gradient and Hessian conversions and transport equal, column by column, those of the corresponding positive definite diagonal matrices. Exponential and logarithm are mutually inverse, results of exponential and retraction are strictly positive, and transport is an isometry. Random points are strictly positive and random tangent vectors have unit norm.',
 ['inputs','configurations'],'for every size, number of columns, point and tangent vector',
 'tests check shapes and a few identities on one random point',
 [MOD+'manifolds.py'],[('StrictlyPositiveVectors',MOD+'manifolds.py')],['manifold operations'])
p('C24','Tyler cost functions equal their closed form and ignore scale',
 'The real and complex Tyler costs equal p * sum log(x^H Q^-1 x) + N * log det Q, whichever numerical backend is selected. They do not change when Q is multiplied by a positive scalar, and change only by the expected constant under invertible linear changes of coordinates. Incompatible data and matrix sizes are logged and rejected with an error.',
 ['inputs','configurations'],'for every data set and positive definite Q, real and complex, both backends',
 'tests check that a value comes out, or one comparison',
 [MOD+'cost.py',R+'utils/backend.py'],[('Tyler_cost_real, Tyler_cost_complex',MOD+'cost.py')],['returned cost'])
p('C25','Online gradient estimation performs one retraction step per sample in order',
 'An online fit starts from the given initial estimate and, for each sample in order, moves along the supplied gradient evaluated at the current estimate for that sample, scaled by the learning rate (divided by the number of the sample when the decreasing schedule is chosen), through the retraction of the manifold. The stored covariance always corresponds to the current estimate, also for composite estimates and after each single update. Fits restart the schedule, and updating or fitting without an initial estimate logs an error and leaves the estimator unchanged; data or estimates holding NaN or infinite values are rejected and leave the estimator unchanged, and clones, copies and queries of a fitted online estimator behave as for the other estimators.',
 ['histories','inputs','configurations'],'for every sequence of set-estimate, update and fit calls, manifold, gradient and schedule',
 'there is no test of the step sizes or of repeated use',
 [R+'online/estimation.py'],[('StochasticGradientCovarianceEstimator',R+'online/estimation.py')],['estimate_, covariance_ after each call'])
p('C26','Temporary seeding is transparent to the surrounding random stream',
 'Inside a temporary seed block the global random stream is that of the given seed, and on leaving the block, normally or by an exception, the surrounding stream continues exactly where it was, as if the block had not run. Exceptions propagate. Blocks may be nested and repeated in any way.',
 ['histories','fault_sequences'],'for every nesting of blocks, draws, reseedings and exceptions',
 'no test covers it',
 [R+'utils/montecarlo.py'],[('temp_seed',R+'utils/montecarlo.py')],['values drawn from the global generator'])
p('C27','Matrix helpers agree with their mathematical definitions',
 'For Hermitian (positive definite where required) real or complex matrices, square root, inverse square root, logarithm, exponential and powers are the Hermitian matrix functions they are named after, with either numerical backend, and with the differentiable backend their derivatives are right where eigenvalues are distinct. Hermitian-part and conjugate-transpose helpers act on every matrix of a stack. Vectorisation and half-vectorisation and their inverses are column-major and mutually inverse for real and complex matrices, and the Toeplitz helper builds the Hermitian matrix with first column rho^0, rho^1, and so on.',
 ['inputs','configurations'],'for every size, conditioning, dtype and exponent',
 'tests cover a few helpers with a single random matrix',
 [R+'utils/linalg.py',R+'utils/backend.py',MOD+'mappings.py'],[('sqrtm, invsqrtm, logm, expm, powm, vec, vech, unvec, unvech, hermitian, multiherm, ToeplitzMatrix',R+'utils/linalg.py')],['returned values'])
p('C28','Synthetic data generators produce data of the announced model',
 'Generated covariances are symmetric or Hermitian positive definite with unit determinant when asked, and generated frames have orthonormal columns. Generated samples have one column per sample; given the same random stream they are the standard draws coloured by the square root of the covariance and multiplied by the square root of the texture of their column, and low-rank models add unit white noise to the textured signal in the span of the frame. Real generators give real data with variance one standard draws and complex generators give circular data with total variance one; texture generators give positive textures of mean one, samples are fresh at every call, and the samplers refuse covariances and frames of the wrong field.',
 ['inputs','configurations'],'for every dimension, sample count, covariance, texture vector and frame',
 'tests only check shapes or are absent',
 [R+'utils/generation_data.py'],[('generate_*, sample_*',R+'utils/generation_data.py')],['returned arrays'])
p('C29','Every fitted covariance is a valid covariance matrix of the data type',
 'After any successful fit of any estimator on data in general position, the stored covariance is square of the number of features, finite, symmetric or Hermitian and positive definite, real for real estimators and complex for complex ones. The precision obtained from the estimator is its inverse, and applying the estimator as a transformer returns the stored covariance. Scores, Mahalanobis distances and error norms computed from a fitted estimator are finite real numbers; Mahalanobis distances are x^H S^-1 x about the stored location, and Gaussian scores the average Gaussian log-likelihood.',
 ['inputs','configurations'],'for every estimator, option set and data set in general position with more samples than features',
 'tests look at one estimator and one data set each and most never call the inherited methods',
 [EST+'base.py',EST+'covariance.py',EST+'structured.py'],[('_set_covariance, _validate_data, inherited EmpiricalCovariance methods',EST+'base.py')],['covariance_, get_precision, transform, score, mahalanobis, error_norm'])
p('C30','A failing fit raises and leaves the previous fit intact',
 'Data with NaN or infinite entries or of wrong dimension, an incompatible or non-finite starting point, and invalid model parameters make a fit raise an error. A failed fit leaves the previously stored covariance, error and iteration count unchanged, and the estimator can be fitted again. No fit ever stores a covariance with non-finite entries.',
 ['fault_sequences','histories','inputs'],'for every estimator, every position and kind of bad input and every fit history around it',
 'no test passes invalid data to an estimator',
 [EST+'base.py',EST+'covariance.py'],[('_validate_data, _set_covariance check_array',EST+'base.py')],['exceptions, covariance_, err_, iteration_'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['statement'].split('. '))<=3,(x['id'],x['statement'].split('. '))
print(len(P))
