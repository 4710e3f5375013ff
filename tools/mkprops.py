import json
P=[]
def p(id,title,statement,over,text,why,files,symbols=None):
    a={"files":files}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CORE=["MParT/MonotoneComponent.h","MParT/MonotoneIntegrand.h","MParT/MultivariateExpansionWorker.h"]
p("C01","Map components are strictly increasing in their last input",
 "Every scalar map component the library constructs (integrated monotone expansions of every basis, positive function and quadrature choice) is strictly increasing in its last input, for every coefficient vector in its admissible set and every value of the leading inputs. Consequently its log-determinant is finite there, and a larger last input never gives a smaller output, including far outside the region where the basis was linearised.",
 ["inputs","configurations"],"all map options x multi-index sets x coefficients x leading inputs x ordered pairs of last inputs",
 "Unit tests compare a handful of slices of a few maps with fixed coefficients; monotonicity is a claim over a continuum of inputs, coefficients and option combinations.",
 CORE+["MParT/PositiveBijectors.h","MParT/Quadrature.h","src/MapFactory.cpp"])
p("C02","Inverse undoes Evaluate for every conditional map",
 "For every conditional map T (component, triangular, composed, affine, identity, summarized, single-entry), evaluating at the stacked input [x1;x2] and then inverting the result given x1 returns x2, and evaluating at the inverse of an arbitrary reachable r returns r, up to the root finder's stated tolerances. It holds for every batch, every admissible coefficient vector, every nugget, and whether or not the map has leading conditioning inputs.",
 ["inputs","configurations"],"map structures x options (incl. nugget, posfunc, basis, quadrature) x coefficients x batches of points and targets",
 "Tests invert a few fixed maps at a few points; the guarantee is over all maps, coefficients and targets and over how far the bracket has to be expanded.",
 ["MParT/MonotoneComponent.h","MParT/Utilities/RootFinding.h","src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/IdentityMap.cpp","src/SummarizedMap.cpp","src/ConditionalMapBase.cpp"])
p("C03","LogDeterminant is the log of the Jacobian determinant of Evaluate",
 "For every conditional map and every point, the reported log-determinant equals the logarithm of the absolute determinant of the Jacobian of the evaluated output with respect to the map's last inputs (as many as it has outputs). In particular it adds over the blocks of a triangular map and over the layers of a composed map, and includes the nugget.",
 ["inputs","configurations"],"map structures x options x coefficients x points",
 "Tests compare against finite differences for a few fixed maps; the equality is over every structure, option combination and point.",
 ["MParT/MonotoneComponent.h","src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/IdentityMap.cpp","src/SummarizedMap.cpp"])
p("C04","Gradient is the exact input adjoint of Evaluate",
 "For every map and parameterized function, Gradient(x,s) equals J(x)^T s, where J is the Jacobian of Evaluate with respect to all inputs, for every point, sensitivity and coefficient vector. It is linear in the sensitivity and does not depend on the other points in the batch.",
 ["inputs","configurations"],"map and function structures x options x coefficients x points x sensitivities",
 "Tests check a few maps against finite differences at a few points with loose tolerances; the identity must hold for all structures and inputs.",
 ["MParT/MonotoneComponent.h","MParT/MultivariateExpansion.h","src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/AffineFunction.cpp","src/SummarizedMap.cpp","src/IdentityMap.cpp"])
p("C05","CoeffGrad is the exact coefficient adjoint of Evaluate",
 "For every map and parameterized function, CoeffGrad(x,s) equals the derivative of s.Evaluate(x) with respect to each coefficient, in the order in which the coefficients are stored and set, for every point, sensitivity and coefficient vector. Maps without coefficients return an empty result.",
 ["inputs","configurations"],"map and function structures x options x coefficients x points x sensitivities",
 "Tests check a few maps against finite differences; the identity must hold for all structures, coefficient orderings and inputs.",
 ["MParT/MonotoneComponent.h","MParT/MultivariateExpansion.h","src/TriangularMap.cpp","src/ComposedMap.cpp","src/SummarizedMap.cpp","MParT/Sigmoid.h"])
p("C06","Log-determinant gradients match the log-determinant",
 "For every conditional map, LogDeterminantCoeffGrad and LogDeterminantInputGrad equal the derivatives of LogDeterminant with respect to the coefficients and to all inputs, at every point where they are offered (components with a discrete derivative report that the input gradient is not implemented), including when maps are nested in triangular, summarized and composed maps and when the result buffers held other data before.",
 ["inputs","configurations"],"map structures x options x coefficients x points",
 "Tests check a few maps; the identity must hold for all structures and nestings and inputs.",
 ["MParT/MonotoneComponent.h","MParT/MonotoneIntegrand.h","src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/SummarizedMap.cpp","src/IdentityMap.cpp"])
p("C07","A map component computes its defining formula",
 "A component built from a multi-index set, options and coefficients evaluates to f(x_1..x_{d-1},0) plus the integral from 0 to x_d of g(df/dx_d)+nugget, where f is the expansion in the selected (optionally normalised and linearised) basis and g the selected positive function, within the accuracy of the selected quadrature. Every combination of basis, positive function and quadrature offered by the map options selects exactly that definition.",
 ["inputs","configurations"],"all options combinations x multi-index sets x coefficients x points",
 "Tests check the formula for a few fixed low-order components; nothing compares all factory combinations against an independent definition.",
 CORE+["src/MapFactory.cpp","src/MapFactoryImpl1.cpp","MParT/MapOptions.h","MParT/Quadrature.h"])
p("C08","One-dimensional bases match their mathematical definition",
 "Each one-dimensional family (probabilist and physicist Hermite polynomials, Hermite functions, and their linearised versions) returns at every order and point the value, first and second derivative of the mathematically defined function, with unit normalisation when requested, and single-order, all-orders and derivative entry points agree. Linearised bases equal the basis inside the bounds and its first-order Taylor extension outside.",
 ["inputs","configurations"],"families x orders x points x bounds x normalisation",
 "Tests compare a few orders at a few points; recurrences, normalisations and extrapolation must be right at every order and point.",
 ["MParT/OrthogonalPolynomial.h","MParT/HermiteFunction.h","MParT/LinearizedBasis.h","MParT/Utilities/Miscellaneous.h","src/Utilities/Miscellaneous.cpp"])
p("C09","Quadrature rules integrate accurately and exactly where promised",
 "Clenshaw-Curtis with n points integrates polynomials up to degree n-1 exactly over any interval, and the adaptive Simpson and adaptive Clenshaw-Curtis rules return integrals of smooth, oscillatory or peaked (scalar and vector-valued) functions within their requested tolerance. Results scale correctly with the interval, reverse sign when the limits are swapped where that is supported, and do not depend on earlier integrations with the same workspace.",
 ["inputs","histories"],"integrands x intervals x rule parameters x repeated use of one workspace",
 "Tests integrate a few fixed functions on a few intervals.",
 ["MParT/Quadrature.h"])
p("C10","Positive functions are positive, increasing and consistently differentiated",
 "Each positive function (softplus, exponential) is strictly positive and nondecreasing for every finite argument in its representable range, its Derivative, SecondDerivative and Inverse are the derivatives and inverse of its Evaluate, and values stay accurate to relative precision far into the tails. Sigmoid functions and sums of sigmoids likewise are increasing and consistent with their stated derivatives.",
 ["inputs"],"arguments over the whole double range of interest x families",
 "Tests check a small grid near the origin.",
 ["MParT/PositiveBijectors.h","MParT/Sigmoid.h"])
p("C11","Triangular maps act block by block",
 "Output block i of a triangular map equals component i evaluated at the leading inputs it is defined on, is unaffected by later inputs, and is governed exactly by its own contiguous slice of the map's coefficients. Getting a component, inverting in place, and building from the factory are all consistent with that, for every block structure and conditioning dimension.",
 ["inputs","configurations","histories"],"block structures x options x coefficients x points",
 "Tests use two or three fixed structures.",
 ["src/TriangularMap.cpp","MParT/TriangularMap.h","src/MapFactory.cpp"])
p("C12","A composed map equals applying its layers in order",
 "A composed map's Evaluate, Inverse, LogDeterminant and all gradients equal those obtained by applying its layers one after another, with coefficients the concatenation of the layers' coefficients in order. The number of checkpoints (maxChecks) changes memory use only and never any result.",
 ["inputs","configurations"],"layer sequences x number of checkpoints x coefficients x points",
 "Tests use one or two fixed compositions with a fixed number of checkpoints.",
 ["src/ComposedMap.cpp","MParT/ComposedMap.h"])
p("C13","Affine, identity and summarized maps are exact",
 "Affine maps and functions compute Ax+b (or Ax, or x+b) and affine maps invert it exactly with log-determinant log|det A| of the trailing square block; the identity map returns its trailing inputs with zero log-determinant; a summarized map equals its component applied to the summary of the leading inputs stacked on the trailing inputs, with chain-rule gradients.",
 ["inputs","configurations"],"matrices (square, wide, negative determinant, permutation-like) x offsets x points x summary functions",
 "Tests use one or two fixed matrices.",
 ["src/AffineMap.cpp","src/AffineFunction.cpp","src/IdentityMap.cpp","src/SummarizedMap.cpp","MParT/AffineMap.h","MParT/SummarizedMap.h"])
p("C14","Multi-index sets behave as the mathematical sets they model",
 "After any history of creating, appending, activating, expanding, forcibly activating/expanding, uniting and changing limiters, a multi-index set's active set, size, membership, max orders, admissibility, margins, frontier, neighbours and expandability equal those of a plain mathematical model of the set, and expansion keeps a downward-closed set downward closed and inside its limiter. Rejected operations leave the set unchanged.",
 ["histories"],"sequences of multi-index set operations x limiters x dimensions",
 "Tests run a few fixed short sequences in two or three dimensions.",
 ["src/MultiIndices/MultiIndexSet.cpp","MParT/MultiIndices/MultiIndexSet.h","src/MultiIndices/MultiIndex.cpp","MParT/MultiIndices/MultiIndexLimiter.h","src/MultiIndices/MultiIndexNeighborhood.cpp"])
p("C15","Fixed multi-index sets preserve their indices in every representation",
 "Converting a multi-index set to its fixed (dense or compressed) form and back preserves the indices and their order; index-to-multi and multi-to-index are mutually inverse and report absence for every multi-index not in the set; sizes, maximum degrees, nonzero structure and total-order construction match the mathematical definition; and a multi-index itself behaves as its vector of orders under every accessor, comparison and bound check.",
 ["inputs","histories"],"multi-index sets x dense/compressed x queried multi-indices",
 "Tests use a few total-order sets in low dimension.",
 ["src/MultiIndices/FixedMultiIndexSet.cpp","MParT/MultiIndices/FixedMultiIndexSet.h","src/MultiIndices/MultiIndex.cpp","MParT/MultiIndices/MultiIndex.h"])
p("C16","Multivariate expansions equal the naive sum of basis products",
 "A multivariate expansion evaluates to the sum over its multi-indices of coefficient times product of the one-dimensional basis values of its nonzero orders (an order of zero contributes the factor one), for each output with its own consecutive block of coefficients, and its input and coefficient gradients are those of that sum. The low-level expansion worker's values, diagonal derivatives and coefficient/input gradients agree with the same sum for every multi-index set, dense or compressed.",
 ["inputs","configurations"],"multi-index sets x bases x output dimensions x coefficients x points",
 "Tests check a few low-order sets.",
 ["MParT/MultivariateExpansion.h","MParT/MultivariateExpansionWorker.h","src/MapFactory.cpp"])
p("C17","Serialization round-trips and never yields a silently wrong object",
 "Saving and reloading map options, multi-index sets, coefficient vectors, functions and maps gives objects that compare equal or behave identically on every input. Reading a truncated archive or coefficient file raises an error.",
 ["inputs","fault_sequences","configurations"],"objects of every serialisable kind x truncation points",
 "Tests round-trip one or two fixed objects and never truncate.",
 ["MParT/Utilities/Serialization.h","MParT/MapOptions.h","MParT/MonotoneComponent.h","MParT/TriangularMap.h","MParT/MultiIndices/FixedMultiIndexSet.h"])
p("C18","Results depend only on a point and the coefficients",
 "For every map and every operation, the result for one column of a batch is the same whatever other columns accompany it, however many there are (including none), in whatever order, memory layout or array library the batch is passed, whatever the number of threads, and whatever calls were made before. Input arrays and coefficients are never modified by evaluation.",
 ["inputs","configurations","histories","schedules"],"maps x operations x batch permutations and sub-batches x layouts and strides x thread counts",
 "Tests evaluate fixed batches in one layout, on a fixed number of threads.",
 ["src/ParameterizedFunctionBase.cpp","src/ConditionalMapBase.cpp","MParT/Utilities/ArrayConversions.h","MParT/MonotoneComponent.h","MParT/Utilities/KokkosHelpers.h"])
p("C19","Malformed arguments are rejected with an exception",
 "Coefficient vectors of the wrong length, maps whose coefficients were never set, constructors given inconsistent blocks, layers, summaries, densities or options, map calls whose points, sensitivities, prefixes or outputs have the wrong shape, and out-of-range multi-index accesses each raise an exception rather than crashing, reading out of bounds or returning a result. The rejected call leaves the object usable and unchanged.",
 ["inputs","histories"],"entry points x wrong shapes x maps in every state",
 "Tests check a few wrong shapes on a few entry points.",
 ["src/ParameterizedFunctionBase.cpp","src/ConditionalMapBase.cpp","src/TriangularMap.cpp","src/ComposedMap.cpp","src/SummarizedMap.cpp","src/MapFactory.cpp","MParT/AffineMap.h"])
p("C20","Coefficients follow one ownership model over any history of updates",
 "After any history of setting, wrapping, editing through the returned view, and setting through a parent or a child map, a map evaluates with exactly the coefficients its coefficient accessor reports. Setting copies, wrapping (of the outermost map) aliases the caller's memory, and a parent map's and its blocks' or layers' coefficients stay views of the same numbers.",
 ["histories"],"sequences of coefficient operations on nested maps",
 "Tests run a few fixed sequences.",
 ["src/ParameterizedFunctionBase.cpp","src/TriangularMap.cpp","src/ComposedMap.cpp","src/SummarizedMap.cpp","MParT/ParameterizedFunctionBase.h"])
p("C21","Gaussian sampler-densities match the normal distribution",
 "The Gaussian density's log density and its gradient equal the multivariate normal's for every mean and covariance (default, mean only, covariance only, both), its samples with a fixed seed are reproducible, and sample mean and covariance agree with the stated ones statistically. This holds for every dimension, memory layout and batch size.",
 ["inputs","configurations"],"means x covariances x dimensions x points x seeds",
 "Tests use a few fixed means and covariances with loose tolerances.",
 ["MParT/Distributions/GaussianSamplerDensity.h","src/Distributions/GaussianSamplerDensity.cpp","MParT/Distributions/DensityBase.h","MParT/Distributions/SampleGenerator.h","src/Utilities/LinearAlgebra.cpp"])
p("C22","Pullback and pushforward follow the change-of-variables formula",
 "A pullback density is the reference log density at T(x) plus log det of T at x, with input and coefficient gradients that are its derivatives; a pushforward density is the reference log density at the inverse minus log det there. Pullback samples are the inverse map of reference samples and pushforward samples the map of them, so the two constructions are mutually consistent.",
 ["inputs","configurations"],"maps x reference densities x points x seeds",
 "Tests use one fixed map.",
 ["MParT/Distributions/PullbackDensity.h","MParT/Distributions/PushforwardDensity.h","MParT/Distributions/PullbackSampler.h","MParT/Distributions/PushforwardSampler.h","MParT/Distributions/TransportDistributionFactory.h"])
p("C23","The KL objective is the negative mean pullback log-likelihood",
 "The Gaussian KL objective on any training or test set equals minus the average pullback log density of its samples under the map, its coefficient gradient is the derivative of that value, and combined value-and-gradient calls agree with separate ones. Evaluating it does not change the map or the stored samples.",
 ["inputs","configurations"],"maps x densities x sample sets (with and without test set) x coefficients",
 "Tests use one map and one data set.",
 ["src/MapObjective.cpp","MParT/MapObjective.h"])
p("C24","Training never worsens the objective and respects its limits",
 "Training leaves the map with coefficients whose objective is no worse than at the start, equal to what is returned, whatever algorithm and stopping options are used. Adaptive training returns a map and multi-index sets that agree with each other, contain the initial multi-indices, respect the maximum number of terms and maximum degrees, and are those of the step with the smallest test error, with a training error no worse than the initial map's.",
 ["inputs","histories","configurations"],"data sets x maps x training options x adaptive limits",
 "Tests train a couple of maps on fixed synthetic data and check gross statistics.",
 ["src/TrainMap.cpp","src/TrainMapAdaptive.cpp","MParT/TrainMap.h","MParT/TrainMapAdaptive.h"])
p("C25","Linear algebra helpers match exact matrix algebra",
 "Matrix products (plain, transposed, accumulated with any scalars), vector and matrix additions, transposes, LU and Cholesky factorisations, solves and determinants computed by the linear algebra helpers agree with reference arithmetic for every shape and for contiguous and strided operands. Operands that are inputs are left unchanged.",
 ["inputs"],"shapes x layouts x scalars x matrices (incl. permuted and negative-determinant ones)",
 "Tests use a few fixed small matrices.",
 ["src/Utilities/LinearAlgebra.cpp","MParT/Utilities/LinearAlgebra.h","MParT/Utilities/ArrayConversions.h"])
p("C26","The Python interface agrees with the native library",
 "Through the Python bindings, every map operation on any numpy array (C or Fortran order, strided, read-only) gives the same mathematical result as its definition: inverses invert, gradients and log-determinants match finite differences, coefficients set are coefficients read, multi-index sets and options hold what was put into them, and pickling or file serialization round-trips. The torch wrapper's forward values and gradients equal the wrapped map's.",
 ["inputs","configurations","histories"],"maps x numpy array layouts x operations x torch inputs",
 "Python tests call each binding once or twice with fixed arrays.",
 ["bindings/python/src/ConditionalMapBase.cpp","bindings/python/src/ParameterizedFunctionBase.cpp","bindings/python/src/MultiIndex.cpp","bindings/python/src/MapOptions.cpp","bindings/python/src/MapFactory.cpp","bindings/python/package/torch.py","bindings/python/src/Serialization.cpp"])
p("C27","Array conversions are faithful views or copies",
 "Every conversion between raw memory, std::vector, Kokkos views and Eigen matrices keeps the shape and each entry at its index, for any size (also empty), row or column major, with any strides and for blocks of larger arrays, for doubles and integers. Conversions documented as views read and write the source's memory and nothing outside it; conversions documented as copies do not change when the source changes, nor the source when they change.",
 ["inputs"],"shapes x layouts x strides x offsets x scalar types x conversions",
 "Tests convert a few small contiguous arrays.",
 ["MParT/Utilities/ArrayConversions.h","MParT/Utilities/GPUtils.h"])
p("C28","A component's own routines honour explicit coefficients and tolerances",
 "For a monotone component built from any basis, positive function and quadrature rule, the routines that take coefficients explicitly (evaluation, continuous and discrete derivative, coefficient and input Jacobians with their evaluations, the three mixed Jacobians, and the inverse with its tolerance options) agree with the defining formula for exactly those coefficients, whatever was called before and however the arrays are strided. They leave their inputs and the component's saved coefficients unchanged, and the inverse meets the tolerances it was given.",
 ["inputs","histories","configurations"],"components x sequences of routine calls x coefficients x points x layouts x tolerances",
 "Tests call each routine once or twice on a fixed component.",
 ["MParT/MonotoneComponent.h","MParT/MonotoneIntegrand.h","MParT/MultivariateExpansionWorker.h","MParT/Utilities/RootFinding.h","MParT/Quadrature.h"])

MECH={
"C01":[("positive integrand g(df)+nugget integrated from 0","MParT/MonotoneComponent.h EvaluateSingle, MParT/MonotoneIntegrand.h"),("positive functions","MParT/PositiveBijectors.h")],
"C02":[("bracketing root finder","MParT/Utilities/RootFinding.h"),("block/layer forward substitution","src/TriangularMap.cpp InverseInplace, src/ComposedMap.cpp InverseImpl")],
"C03":[("continuous or discrete diagonal derivative","MParT/MonotoneComponent.h LogDeterminantImpl"),("sums over blocks and layers","src/TriangularMap.cpp, src/ComposedMap.cpp")],
"C04":[("input Jacobian of the component","MParT/MonotoneComponent.h InputJacobian"),("reverse sweeps","src/ComposedMap.cpp GradientImpl, src/TriangularMap.cpp GradientImpl")],
"C05":[("coefficient Jacobian of the component","MParT/MonotoneComponent.h CoeffJacobian"),("coefficient offsets per block and layer","src/TriangularMap.cpp, src/ComposedMap.cpp")],
"C06":[("mixed Jacobians","MParT/MonotoneComponent.h ContinuousMixedJacobian, ContinuousMixedInputJacobian"),("accumulation over blocks and layers","src/TriangularMap.cpp, src/ComposedMap.cpp")],
"C07":[("factory dispatch on the options","MParT/MapFactory.h CompFactoryImpl, src/MapFactoryImpl1.cpp and siblings"),("integration of the integrand","MParT/MonotoneComponent.h EvaluateSingle")],
"C08":[("three term recurrences","MParT/OrthogonalPolynomial.h, MParT/HermiteFunction.h"),("Taylor extension","MParT/LinearizedBasis.h")],
"C09":[("nodes, weights and subdivision stacks","MParT/Quadrature.h")],
"C10":[("closed forms","MParT/PositiveBijectors.h, MParT/Sigmoid.h")],
"C11":[("input and coefficient slices per block","src/TriangularMap.cpp")],
"C12":[("checkpointed reverse sweep","src/ComposedMap.cpp Checkpointer")],
"C13":[("matrix products and LU solves","src/AffineMap.cpp, src/AffineFunction.cpp"),("summary then component","src/SummarizedMap.cpp SummarizePts")],
"C14":[("edges, activity flags and limiter","src/MultiIndices/MultiIndexSet.cpp")],
"C15":[("compressed storage and lookup","src/MultiIndices/FixedMultiIndexSet.cpp"),("sparse storage of one multi-index","src/MultiIndices/MultiIndex.cpp")],
"C16":[("one-point cache of basis values","MParT/MultivariateExpansionWorker.h"),("coefficient block per output","MParT/MultivariateExpansion.h")],
"C17":[("cereal archives","MParT/Utilities/Serialization.h")],
"C18":[("per-point parallel loops over scratch memory","MParT/MonotoneComponent.h, MParT/Utilities/KokkosHelpers.h"),("array conversions","MParT/Utilities/ArrayConversions.h")],
"C19":[("argument checks","src/ParameterizedFunctionBase.cpp CheckCoefficients, constructors of each map")],
"C20":[("coefficient views shared between parent and children","src/ParameterizedFunctionBase.cpp SetCoeffs/WrapCoeffs, src/TriangularMap.cpp WrapCoeffs")],
"C21":[("Cholesky factor of the covariance","src/Distributions/GaussianSamplerDensity.cpp")],
"C22":[("change of variables","MParT/Distributions/PullbackDensity.h, MParT/Distributions/PushforwardDensity.h")],
"C23":[("objective and gradient over the sample set","src/MapObjective.cpp")],
"C24":[("NLopt driver","src/TrainMap.cpp"),("greedy expansion of the margin","src/TrainMapAdaptive.cpp")],
"C25":[("Kokkos to Eigen conversions and decompositions","src/Utilities/LinearAlgebra.cpp")],
"C26":[("numpy conversions in the bindings","bindings/python/src/ConditionalMapBase.cpp"),("autograd functions","bindings/python/package/torch_helpers.py")],
"C28":[("quadrature of value and derivatives with per-call dimension","MParT/MonotoneComponent.h CoeffJacobian, InputJacobian, DiscreteMixedJacobian")],
"C27":[("strides of views over foreign memory","MParT/Utilities/ArrayConversions.h")],
}
for q in P: q["anchors"]["mechanism"]=[{"name":n,"where":w} for n,w in MECH[q["id"]]]
import sys,os
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    for f in q["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing",q["id"],f)
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
