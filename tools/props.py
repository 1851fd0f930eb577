#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both.
Only properties whose check module exists under vf/checks are emitted."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech="", note=""):
    d = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
    )
    if observe:
        d["anchors"]["observe_at"] = [observe]
    assert len(title) <= 80, (id, len(title))
    P.append((d, tech, note))


BSS = "ssspy/bss/"
WHY_SHAPE = (
    "The suite runs each method for a few iterations on one or two recorded mixtures and asserts shapes "
    "(and a few spot values)"
)

prop(
    "C01",
    "Auxiliary-function FDICA and IVA never increase their objective",
    "For every iteration of the auxiliary-function FDICA and IVA methods (Laplace, time-varying Gauss or "
    "user-given super-Gaussian contrast) with any of their spatial update algorithms, the documented negative "
    "log-likelihood (mean contrast summed over sources, minus twice the summed log-absolute-determinants of "
    "the demixing filters) after the iteration is no greater than before it. The iterations also make progress "
    "from the identity filter.",
    ["inputs", "configurations", "histories"],
    "all well-conditioned multichannel spectrograms, numbers of sources/bins/frames, spatial algorithms (IP, "
    "IP1, IP2, ISS, ISS1, ISS2, IPA), pair schedules, floorings, contrast functions and iteration counts; "
    "runs whose state is numerically degenerate (a source exactly silent in a frame) are excluded",
    WHY_SHAPE + "; whether each step descends depends on every configuration and every state reached.",
    [BSS + "fdica.py", BSS + "iva.py", BSS + "_update_spatial_model.py", "ssspy/linalg/lqpqm.py"],
    [
        ("IP/IP2 updates", "AuxFDICA.update_once*, AuxIVA.update_once_ip1/ip2"),
        ("ISS/IPA updates", "AuxIVA.update_once_iss1/iss2/ipa, update_by_iss1/iss2/ipa"),
        ("variance update", "AuxGaussIVA.update_source_model"),
    ],
    observe="callback after every iteration: demixing filter or output, variance",
    tech="runtime monitor: objective recomputed by an independent oracle after every iteration of real runs",
)
prop(
    "C02",
    "ILRMA never increases its objective",
    "For every iteration of Gauss, Student-t and generalized-Gauss ILRMA without partitioning, the documented "
    "negative log-likelihood of the current demixing filter and low-rank source model is no greater after the "
    "iteration than before it, including the normalization of scales at the end of the iteration.",
    ["inputs", "configurations", "histories"],
    "all well-conditioned mixtures, spatial algorithms (IP, IP1, IP2, ISS, ISS1, ISS2, IPA), source algorithms "
    "(MM, ME), domains 0.5-2, degrees of freedom, shape parameters, normalizations, reference channels",
    WHY_SHAPE + "; the grid of spatial x source algorithm x domain x normalization is far larger.",
    [BSS + "ilrma.py", BSS + "_update_spatial_model.py"],
    [
        ("multiplicative updates", "update_basis_mm/me, update_activation_mm/me"),
        ("spatial updates", "update_spatial_model_ip1/ip2/iss1/iss2/ipa"),
        ("normalization", "ILRMABase.normalize_by_power / normalize_by_projection_back"),
    ],
    observe="callback after every iteration: filter or output, basis, activation",
    tech="runtime monitor: objective recomputed by an independent oracle after every iteration of real runs",
)
prop(
    "C03",
    "MNMF, FastMNMF, IPSDTA and cACGMM never increase their objective",
    "For every iteration of Gauss MNMF, Fast Gauss MNMF, Gauss and Student-t IPSDTA (none partitioned) and the "
    "complex angular central Gaussian mixture model, the documented negative log-likelihood of the current "
    "parameters is no greater after the iteration than before it, normalization included.",
    ["inputs", "configurations", "histories"],
    "determined, over- and under-determined mixtures, numbers of sources, bases, frequency blocks, "
    "diagonalizer algorithms, pair schedules, degrees of freedom, normalization on or off",
    WHY_SHAPE + "; no test looks at the loss between two iterations.",
    [BSS + "mnmf.py", BSS + "ipsdta.py", BSS + "cacgmm.py", "ssspy/linalg/mean.py"],
    [
        ("MNMF updates", "GaussMNMF.update_basis/update_activation/update_spatial"),
        ("FastMNMF updates", "FastGaussMNMF.update_*"),
        ("VCD and PSDTF updates", "GaussIPSDTA/TIPSDTA.update_source_model/update_spatial_model_vcd"),
        ("EM updates", "CACGMM.update_parameters/update_posterior"),
    ],
    observe="callback after every iteration: all public parameters",
    tech="runtime monitor: objective recomputed by an independent oracle after every iteration of real runs",
)
prop(
    "C04",
    "Reported losses equal the documented objective of the current state",
    "For every separation method, each value appended to the loss history, and the loss computed on demand, "
    "equals the method's documented objective evaluated on the state in force at that moment: contrast, "
    "likelihood or penalty term plus the log-determinant term.",
    ["inputs", "configurations", "histories"],
    "all methods, options, shapes, iteration counts, first and later calls",
    "Tests only check that the loss list has the right length; a wrong term, factor, axis or stale state in "
    "the loss passes them.",
    [BSS + m for m in ("base.py", "ica.py", "fdica.py", "iva.py", "ilrma.py", "mnmf.py", "ipsdta.py", "cacgmm.py", "proxbss.py", "pdsbss.py", "admmbss.py")],
    [("loss", "compute_loss, compute_logdet, compute_negative_logdet of every class")],
    observe="loss attribute and compute_loss() beside the public parameters at each callback",
    tech="runtime monitor: reported loss compared with an independent reference objective at every callback",
)
prop(
    "C05",
    "Iteration, callback and loss-history protocol; runs compose",
    "A call with k iterations invokes every callback, in the given order, exactly once before the first "
    "iteration (unless the initial call is disabled) and once after each iteration, and appends exactly one "
    "loss per such moment when loss recording is on and none when off. Continuing an object for m more "
    "iterations without the initial call yields the same state, loss history and callback sequence as one "
    "uninterrupted run of k+m iterations, for the methods that keep a demixing filter, when neither scale "
    "restoration nor permutation alignment is applied between the two; the same holds when the first run ended because a "
    "callback raised, and that exception reaches the caller. What callbacks return is ignored. When a callback assigns "
    "other parameters, the run goes on as one started from those.",
    ["histories", "configurations", "inputs"],
    "all methods, k and m including 0, none/one/several callbacks, recording on/off, initial call on/off",
    "Tests run one fixed history per method and never compare split runs with uninterrupted ones.",
    [BSS + m for m in ("base.py", "ica.py", "fdica.py", "iva.py", "ilrma.py", "mnmf.py", "ipsdta.py", "cacgmm.py", "proxbss.py", "pdsbss.py", "admmbss.py")],
    [("driver loop", "IterativeMethodBase.__call__"), ("resume", "_reset of every class")],
    observe="callback event log and loss list",
    tech="runtime monitor: offline check of the recorded callback/loss event log; run-composition differential",
)
prop(
    "C06",
    "Separation never mutates caller data and is reproducible",
    "No separation method, alignment, projection, transform or linear-algebra routine modifies an array its "
    "caller passed in (unless overwriting is explicitly requested), and changing the caller's array afterwards "
    "does not change the object's stored input or results. Two runs on equal inputs with equally seeded random "
    "generators give identical results, whatever other objects do in between or in other threads, without depending on or advancing the "
    "process-global random state when a generator is given.",
    ["inputs", "configurations", "histories"],
    "all public entry points, C- and F-ordered, strided and read-only inputs, initial parameters given by keyword",
    "Tests rarely keep a copy of their inputs and never pass read-only or strided arrays.",
    ["ssspy/bss", "ssspy/algorithm", "ssspy/linalg", "ssspy/transform", "ssspy/special"],
    [("input copy", "__call__ of every class"), ("parameter copies", "_reset of every class"),
     ("overwrite options", "update_by_ip1/ip2/..., permutation solvers")],
    observe="byte snapshots of caller arrays around each call; twin runs",
    tech="runtime monitor: read-only guards and byte snapshots of caller arrays, twin-run differential",
)
prop(
    "C07",
    "Final estimates are the final filter applied to the input",
    "After a separation call returns, the returned array is the object's output, has one signal per source "
    "with the input's bins and frames, is finite, and equals the final demixing filter applied to the input "
    "(the whitened input for the fast fixed-point methods) whenever the method holds a filter; the direct "
    "output-updating algorithms return an output that lies in the span of the input, per bin. Applying the "
    "public separation function to any input with any filter gives that product.",
    ["inputs", "configurations"],
    "all methods and options, scale restoration and permutation alignment on/off, channel counts 2-5, 1+ bins",
    WHY_SHAPE + ", not the consistency of filter, output and post-processing.",
    [BSS + m for m in ("ica.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "pdsbss.py", "admmbss.py", "proxbss.py")],
    [("separate", "separate() of every class"), ("post-processing order", "__call__ of every class")],
    observe="return value, output, demix_filter, input",
    tech="runtime monitor: input/output/filter consistency invariants on real runs",
)
prop(
    "C08",
    "Scale restoration fixes scales as documented",
    "Projection back makes the source images sum to the reference microphone signal and is invariant to any "
    "per-source, per-bin rescaling of its argument; given no reference it returns the images at every "
    "microphone. The minimal distortion principle multiplies each source in each bin by the factor minimizing "
    "the squared error to the reference microphone. Each separation method that offers scale restoration applies exactly that "
    "selected restoration, for the selected reference microphone, to the unrestored result.",
    ["inputs", "configurations"],
    "all filters/outputs, reference indices (incl. negative and none), real scale dynamics, both keywords and "
    "their spellings, all methods",
    "Tests check shapes on one mixture; the identities must hold for every input, reference and method.",
    ["ssspy/algorithm/projection_back.py", "ssspy/algorithm/minimal_distortion_principle.py"]
    + [BSS + m for m in ("fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "proxbss.py", "pdsbss.py", "admmbss.py")],
    [("projection back", "projection_back"), ("MDP", "minimal_distortion_principle"),
     ("dispatch", "restore_scale/apply_projection_back/apply_minimal_distortion_principle")],
    observe="restored outputs beside the twin run without restoration",
    tech="runtime monitor: algebraic identities and reference model on the real restoration calls",
)
prop(
    "C09",
    "Permutation solvers only permute, consistently, and restore alignment",
    "A permutation solver returns, in every frequency bin, the input sources in some permuted order, applies "
    "the same permutation to every companion array given, and never changes values. On sources with distinct, "
    "bin-independent temporal activity whose order was shuffled in every bin (correlation-based) or in a minority "
    "of bins (score-based), the result is aligned across bins. The correlation-based solver visits the bins in "
    "increasing order of within-bin correlation and greedily maximizes the correlation with the bins already "
    "aligned.",
    ["inputs", "configurations"],
    "both solvers, 2-4 sources, any shuffling, companion arrays of any trailing shape, overwrite on/off, "
    "grouped and global options",
    "Tests shuffle one recorded mixture or only check shapes.",
    ["ssspy/algorithm/permutation_alignment.py", BSS + "_solve_permutation.py", BSS + "fdica.py", BSS + "cacgmm.py"],
    [("correlation solver", "correlation_based_permutation_solver"), ("score solver", "score_based_permutation_solver")],
    observe="solver inputs and outputs",
    tech="runtime monitor: permutation-consistency checker plus reference model on shuffled workloads",
)
prop(
    "C10",
    "Linear-algebra kernels return what they define",
    "Generalized Hermitian eigenvalue routines return eigenpairs of the requested problem type (ascending, "
    "complete, normalized); 2-by-2 inverse and eigen routines agree with the general ones; matrix square root "
    "and inverse square root, geometric mean of positive definite matrices, linear solve, cube root, cubic "
    "equation solver and quadratic forms satisfy their defining equations for every admissible argument, batch "
    "shape and dtype.",
    ["inputs"],
    "real and complex, batched arguments; condition numbers up to 1e6; cubic polynomials with one, two or three "
    "real or complex roots over wide scales",
    "Tests sample a few random matrices of one shape.",
    ["ssspy/linalg"],
    [("eigh/eigh2", "ssspy/linalg/eigh.py"), ("inv2", "ssspy/linalg/inv.py"), ("sqrtmh/invsqrtmh", "ssspy/linalg/sqrtm.py"),
     ("gmeanmh", "ssspy/linalg/mean.py"), ("solve_cubic", "ssspy/linalg/polynomial.py"), ("cbrt", "ssspy/linalg/cubic.py"),
     ("quadratic", "ssspy/linalg/quadratic.py"), ("solve", "ssspy/linalg/_solve.py")],
    observe="return values checked against the defining equations",
    tech="runtime monitor: residual oracles on every observed kernel call (generated workloads and calls made inside real separations)",
)
prop(
    "C11",
    "The log-quadratically penalized minimizer is globally optimal",
    "The solver of the log-quadratically penalized quadratic minimization returns a feasible point whose "
    "objective value is no greater, up to numerical tolerance, than at any other point, given enough Newton "
    "iterations; this includes a zero linear term, repeated eigenvalues and components orthogonal to the "
    "leading eigenspace.",
    ["inputs"],
    "positive definite matrices of size 1-5, any linear term and offset, with and without normalization",
    "Tests compare one generic random instance; optimality is a claim over all points and all instances.",
    ["ssspy/linalg/lqpqm.py", "ssspy/linalg/polynomial.py"],
    [("solver", "lqpqm2"), ("secular equation", "solve_equation / find_largest_root")],
    observe="returned point; objective at competitor points",
    tech="runtime monitor: optimality oracle (multi-start reference optimum and secular-equation certificate)",
)
prop(
    "C12",
    "Each spatial update attains the optimum it is defined by",
    "Given the current filter and weighted covariances, iterative projection, pairwise iterative projection, "
    "iterative source steering (single and pairwise), iterative projection with adjustment, and vectorwise "
    "coordinate descent return the minimizer of the log-determinant-penalized quadratic objective over the "
    "coordinates they update, and leave the other coordinates unchanged; overwriting or not only decides "
    "whether the argument itself receives the result.",
    ["inputs", "configurations"],
    "any invertible filter, any positive definite weighted covariances, 2-5 sources, any source/pair order",
    "Tests compare two implementations on one random draw or check only shapes.",
    [BSS + "_update_spatial_model.py", BSS + "ipsdta.py", BSS + "mnmf.py", BSS + "iva.py", BSS + "fdica.py", BSS + "ilrma.py"],
    [("IP", "update_by_ip1"), ("IP2", "update_by_ip2/update_by_ip2_one_pair"), ("ISS", "update_by_iss1/update_by_iss2"),
     ("IPA", "update_by_ipa"), ("VCD", "GaussIPSDTA.update_spatial_model_vcd")],
    observe="arguments and results of the update kernels; one-iteration state pairs",
    tech="runtime monitor: stationarity/optimality certificates and reference updates on observed steps",
)
prop(
    "C13",
    "Proximal operators are the proximal mappings they name",
    "The proximal operators of the l1 norm, the group l2,1 norm, the negative logarithm and the negative "
    "log-determinant return the unique minimizer of the penalty plus the scaled squared distance to their "
    "argument, for any positive step size and any shape and axis.",
    ["inputs"],
    "real and complex arguments incl. zeros, groups over any axis, positive step sizes, any filters",
    "Tests compare shapes/one value; minimality is a claim over all competitors.",
    ["ssspy/linalg/prox.py"],
    [("prox", "l1, l21, neg_log, neg_logdet")],
    observe="return values",
    tech="runtime monitor: first-order optimality certificates and competitor sampling on observed calls",
)
prop(
    "C14",
    "Primal-dual, ADMM and masking iterations follow their documented steps",
    "Every iteration of the primal-dual splitting and ADMM separation methods (single or several penalties, "
    "masking variants, harmonic vector analysis, IVA variants) maps the filter, auxiliary and dual variables "
    "to those given by the documented update formulas with the given step sizes, relaxation and attenuation; "
    "masks lie between 0 and 1.",
    ["inputs", "configurations", "histories"],
    "any step sizes, relaxation in (0,2), one to three penalties, masks, mask iterations, spectral "
    "normalization, resumed runs with dual variables given",
    WHY_SHAPE + " for one setting of step sizes.",
    [BSS + m for m in ("pdsbss.py", "admmbss.py", "proxbss.py", "hva.py", "iva.py")],
    [("PDS", "PDSBSS.update_once"), ("ADMM", "ADMMBSS.update_once"), ("mask", "MaskingPDSHVA.mask_fn")],
    observe="filter, dual and auxiliary variables before/after each iteration",
    tech="runtime monitor: one-step conformance of observed state pairs to an independent reference model",
)
prop(
    "C15",
    "Softmax, log-sum-exp, flooring and PSD projection are exact and stable",
    "Softmax and log-sum-exp agree with their definitions for any axis and keepdims choice without overflow "
    "for arguments of any magnitude; the floorings return at least the floor and never change larger values "
    "(max) or add exactly the floor (add); the positive semidefinite projection returns a Hermitian matrix "
    "whose eigenvalues are the floored eigenvalues of the Hermitian part of the argument.",
    ["inputs"],
    "any shapes, axes, magnitudes up to 1e300, real and complex matrices",
    "Tests cover one small array per function.",
    ["ssspy/special", "ssspy/bss/_psd.py", "ssspy/bss/_flooring.py", "ssspy/utils/flooring.py"],
    [("functions", "softmax, logsumexp, to_psd, max_flooring, add_flooring, identity, choose_flooring_fn")],
    observe="return values",
    tech="runtime monitor: high-precision reference oracles on observed calls",
)
prop(
    "C16",
    "Whitening decorrelates; PCA rotates onto ordered principal axes",
    "Whitening returns, per bin or batch item, an invertible linear image of the input whose (uncentred) sample "
    "covariance is the identity. Principal component analysis returns a unitary rotation of the input whose components are uncorrelated and "
    "ordered by variance in the requested direction, preserving total power.",
    ["inputs"],
    "real and complex inputs of every supported rank, any channel count, conditioning and gain",
    "Tests check one random array per rank.",
    ["ssspy/transform/whiten.py", "ssspy/transform/pca.py"],
    [("whiten", "whiten"), ("pca", "pca")],
    observe="return values",
    tech="runtime monitor: sample-covariance invariants on observed calls",
)
prop(
    "C17",
    "Wave files read back what was written",
    "Writing a mono or stereo waveform and reading it back returns the same samples up to one quantization step "
    "of the written format (16-bit for floating-point input, 8- or 16-bit for integer input) and the same "
    "sampling rate, with floating-point values outside [-1, 1] saturated, for every channel layout; the written "
    "file is a valid RIFF/WAVE file. Reading returns the integer PCM samples divided by full scale, in the requested "
    "layout, for 8-, 16-, 32- and 64-bit files of any channel count, identically to an independent reader; "
    "reading a segment equals slicing the whole file, and invalid files or ranges are rejected with an error.",
    ["inputs", "configurations"],
    "mono/multichannel, channel-first or last, 8/16/32/64-bit PCM, int8/int16 and 16-128-bit float inputs, sampling "
    "rates, offsets, lengths, 1-D or 2-D results, float inputs inside and outside [-1, 1], extra RIFF chunks",
    "Tests read two fixtures and round-trip one.",
    ["ssspy/io/__init__.py"],
    [("reader", "wavread"), ("writer", "wavwrite")],
    observe="written bytes parsed by an independent RIFF reader; returned arrays",
    tech="runtime monitor: round-trip and independent RIFF parser oracle over generated files",
)
prop(
    "C18",
    "Separation respects the symmetries of the problem",
    "Complete runs on transformed inputs give the transformed result, parameter by parameter and in the returned "
    "estimate: reordering time frames reorders the estimated frames of every method; reordering frequency bins reorders "
    "the bins for the methods that treat bins alike (FDICA, IVA, ILRMA, MNMF, PDS, ADMM); complex conjugation conjugates; a "
    "phase rotation per bin rotates; for natural-gradient and auxiliary-function methods an invertible mixing per bin, "
    "compensated in the initial filter, changes nothing in the separated signals; for plain gradients and the proximal "
    "methods a unitary mixing does the same; with the scale restored, the input gain carries over to the output; repeating "
    "the recording in time leaves the filters of the methods that average over time unchanged; relabelling the sources in the initial "
    "parameters relabels the result of the methods that update sources alike; reordering the microphones with the "
    "matching reference index and initial filter gives the same separation; and memory layout, write protection and, "
    "up to rounding, single or double precision of the input are irrelevant.",
    ["inputs", "configurations"],
    "all classes and algorithms, sources, bins, frames, options and initial parameters; eleven symmetries; short runs so "
    "that differently ordered sums stay comparable; flooring off where the symmetry rescales the model",
    "Tests never run related inputs; relations between runs are not visible to single-run assertions.",
    [BSS + m for m in ("ica.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "pdsbss.py", "admmbss.py")],
    [("updates", "update_once of every class"), ("scale", "apply_projection_back, apply_minimal_distortion_principle")],
    observe="parameters and outputs of twin runs on transformed inputs",
    tech="runtime monitor: metamorphic relations between observed twin runs",
)
prop(
    "C19",
    "Source-pair schedules are as documented and are what methods update",
    "For N sources the sequential schedule lists the cyclically adjacent pairs (k mod N, k+1 mod N) for k = 0, step, "
    "2 step, ... below stop (N by default), each optionally sorted, and the combination schedule lists every unordered "
    "pair exactly once in lexicographic order; indices are valid and never equal within a pair. A method given a schedule "
    "updates exactly the scheduled pairs in that order.",
    ["configurations", "inputs"],
    "2-8 sources, any stop/step/sort options, default and user schedules",
    "Tests list the pairs for one or two sizes.",
    ["ssspy/utils/select_pair.py", BSS + "_select_pair.py", BSS + "_update_spatial_model.py"],
    [("schedules", "sequential_pair_selector, combination_pair_selector")],
    observe="generated pairs; rows changed by one iteration",
    tech="runtime monitor: schedule checker and observed-change footprints",
)
prop(
    "C20",
    "Source-model updates follow the documented multiplicative rules",
    "One iteration maps the low-rank source model (basis, activation, and partition when used) of ILRMA, MNMF, FastMNMF "
    "and IPSDTA, and the mixture weights, covariances and posteriors of cACGMM, to exactly the documented "
    "majorization-minimization, majorization-equalization or EM update of the previous state, in the documented "
    "order, with flooring and normalization.",
    ["inputs", "configurations", "histories"],
    "all classes, source algorithms, domains, partitioning on/off, floorings, normalizations, numbers of bases and blocks",
    WHY_SHAPE + "; a wrong exponent, axis, stale factor or order passes them.",
    [BSS + m for m in ("ilrma.py", "mnmf.py", "ipsdta.py", "cacgmm.py")],
    [("NMF updates", "update_latent/update_basis/update_activation"), ("PSDTF", "update_basis_mm/update_activation_mm"),
     ("EM", "CACGMM.update_once"), ("normalization", "normalize*, normalize_psdtf")],
    observe="state pairs before/after each iteration",
    tech="runtime monitor: one-step conformance of observed state pairs to an independent reference model",
)
prop(
    "C21",
    "Dataset downloads return the requested recording",
    "A dataset helper returns the samples and sampling rate of the recording that the request names (source tags, "
    "reverberation, duration, convolution options), whatever was requested or cached before; repeated requests return "
    "equal data, and an archive that is already cached is not fetched again. (Interrupted downloads are out of scope.)",
    ["histories", "inputs"],
    "request sequences over tags, reverberation times, durations and cache states, against a local stand-in server",
    "Tests need the network and make one request each.",
    ["ssspy/utils/dataset"],
    [("cache", "download_sample_speech_data and siblings")],
    observe="returned arrays against the stand-in archive contents",
    tech="runtime monitor: request-history checker against a local stand-in archive",
)
prop(
    "C22",
    "Gradient and fixed-point steps are the documented ones",
    "Each iteration of gradient and natural-gradient ICA, FDICA and IVA moves the filter by the step size times the "
    "documented (natural) gradient of the objective, holonomic or not; each iteration of the fast fixed-point ICA and IVA methods "
    "applies the documented fixed-point update followed by orthonormalization, so their filters are orthonormal after every iteration.",
    ["inputs", "configurations", "histories"],
    "any step size, contrast/score functions, constraint choice, shapes, mixtures",
    WHY_SHAPE + "; a wrong sign, factor or transposition still separates two-channel toy data.",
    [BSS + m for m in ("ica.py", "fdica.py", "iva.py")],
    [("gradient", "Grad*/NaturalGrad*.update_once"), ("fixed point", "FastICA/FastIVA/FasterIVA.update_once")],
    observe="filter before/after each iteration",
    tech="runtime monitor: one-step conformance to numerical gradients and reference fixed-point maps; orthonormality monitor",
)
prop(
    "C23",
    "Wiener and posterior estimates conserve the mixture",
    "The multichannel Wiener estimates of MNMF and FastMNMF sum over the sources to the observed reference-microphone "
    "signal and equal the documented Wiener filter of the current parameters; the posterior-masked estimates of cACGMM sum to the "
    "observed reference microphone, and its posteriors are non-negative and sum to one over the sources.",
    ["inputs", "configurations"],
    "determined, over- and under-determined settings, any reference microphone, parameters at any iteration",
    "Tests only check output shapes.",
    [BSS + "mnmf.py", BSS + "cacgmm.py"],
    [("Wiener filter", "GaussMNMF.separate, FastGaussMNMF.separate"), ("posterior", "CACGMM.separate, update_posterior")],
    observe="returned estimates and parameters",
    tech="runtime monitor: conservation and reference-filter oracle on observed estimates",
)
prop(
    "C24",
    "Normalization changes representation, not the model",
    "Normalizing scales during separation leaves the modelled quantities unchanged: the likelihood, and the ratio between "
    "estimated source power and its model, are the same before and after, and the normalized quantity satisfies its "
    "defining condition (unit power, unit trace, or projection-back scale).",
    ["inputs", "configurations"],
    "ILRMA, MNMF, FastMNMF, IPSDTA and cACGMM normalizations at any state (partitioned GaussMNMF, whose normalization is documented to change the cost, is exempt)",
    "Tests run with one normalization and never compare models before and after.",
    [BSS + m for m in ("ilrma.py", "mnmf.py", "ipsdta.py", "cacgmm.py")],
    [("normalization", "normalize, normalize_by_power, normalize_by_projection_back, normalize_by_trace")],
    observe="state before/after the public normalization step",
    tech="runtime monitor: invariance checker around the observed normalization step",
)
prop(
    "C25",
    "Model parameters stay feasible at every iteration",
    "At every moment a callback can observe, non-negative parameters are non-negative, partition "
    "weights and mixture weights are non-negative and sum to one, bases and activations of the NMF-based methods do not fall below "
    "the floor of the flooring function (normalization aside), covariance-like parameters are Hermitian positive definite, "
    "demixing filters are invertible (except ADMM's), shapes and dtypes match the problem, and everything is finite unless the iterates "
    "degenerate; parameters given by the caller are used as the initial state and are not modified, and parameters not given start "
    "from their documented initial values.",
    ["inputs", "configurations", "histories"],
    "all model-based methods and options, over many iterations, random and given initial parameters",
    "Tests never inspect parameters between iterations.",
    [BSS + m for m in ("ilrma.py", "mnmf.py", "ipsdta.py", "cacgmm.py", "iva.py", "fdica.py")],
    [("state", "_reset/_init_nmf/_init_instance and update_* of every class")],
    observe="public parameters at every callback",
    tech="runtime monitor: feasibility invariants evaluated at every callback",
)

prop(
    "C26",
    "Digitally silent frames or samples do not disturb separation",
    "With the default (or a larger) flooring, a recording that contains digital silence - leading, trailing or interspersed "
    "all-zero frames, single zero time-frequency samples, or frames so faint that their power underflows - is separated like "
    "any other: every parameter, loss and estimate stays finite, and the estimates are exactly zero in silent frames. For the "
    "auxiliary-function IVA methods, inserting silent frames leaves the separated signals of the other frames unchanged.",
    ["inputs", "configurations"],
    "all classes and algorithms, seven silence patterns, options, up to eight iterations; every bin keeps enough active "
    "frames for full-rank covariances; contrast functions with finite slope at zero for the Newton-type methods",
    "The suite uses a continuous recorded mixture without an exactly zero sample; every division by a norm, a variance or a "
    "model value is only exercised away from zero.",
    [BSS + m for m in ("ica.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "pdsbss.py", "admmbss.py")]
    + ["ssspy/special/flooring.py"],
    [("floored weights and models", "flooring_fn in update_* and compute_loss of every class"),
     ("variance", "update_source_model of the Gaussian IVA classes")],
    observe="parameters and loss after every iteration, returned estimate, twin runs with and without the silent frames",
    tech="runtime monitor: finiteness, zero-in-zero-out and insertion invariance on runs with injected digital silence",
)

prop(
    "C27",
    "Equivalent configurations separate identically; meaningless ones are refused",
    "Configurations the documentation calls equivalent give the same parameters, losses and estimates at every iteration: "
    "an option left out and its documented default; aliases (IP/IP1, ISS/ISS1, True/power, True/projection_back/PB, MDP); "
    "deprecated and current names; None and the identity flooring; a flooring function given to the object or to an update "
    "method; reference channels counted from either end; specialized classes and the general class with the same contrast, "
    "penalty or mask; a single-bin FDICA and IVA; heavy-tailed models in their Gaussian limit; a one-hot partitioning and no "
    "partitioning. Configurations the documentation excludes (unknown algorithms, out-of-range domain or shape, missing "
    "functions, restoration without reference channel) raise an error instead of returning a result.",
    ["inputs", "configurations"],
    "all classes; 11 alias relations, random subsets of documented defaults, specializations, limits, given initial values, "
    "memory layouts; about 220 excluded configurations",
    "The suite runs each documented spelling on its own and never compares two that must agree, nor tries the excluded ones.",
    [BSS + m for m in ("ica.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "pdsbss.py", "admmbss.py", "hva.py")]
    + ["ssspy/utils/flooring.py", "ssspy/utils/select_pair.py"],
    [("option handling", "__init__, __call__ and update_once dispatch of every class")],
    observe="public state at every callback, losses and estimate of both twins; exceptions of excluded configurations",
    tech="runtime monitor: twin runs of documented-equivalent configurations compared state by state; refusal monitor",
)

prop(
    "C28",
    "Mixtures that follow a method's model are separated",
    "On determined mixtures of independent sources that follow the model a method assumes - non-Gaussian samples for ICA and "
    "FDICA, frame-wise activity common to the bins for IVA, proximal, harmonic-vector and cACGMM methods, low-rank spectra "
    "(with the true spectral parameters as starting point) for ILRMA, IPSDTA and MNMF - the method improves the "
    "signal-to-distortion ratio against the true source images at the reference channel by a wide margin (median over scenes).",
    ["inputs", "configurations"],
    "all classes and algorithms, random scenes (2-3 sources, 5-11 bins, 150-260 frames), reference channels, contrasts, "
    "pair schedules and normalizations",
    "No test knows the true sources: the suite checks shapes and finishes after a few iterations, so a method that runs but "
    "does not separate passes.",
    [BSS + m for m in ("ica.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "pdsbss.py", "admmbss.py", "hva.py")]
    + [BSS + "_update_spatial_model.py"],
    [("separation", "__call__ of every class")],
    observe="returned estimates against the known source images",
    tech="runtime monitor: end-to-end separation quality against ground truth on model-conform random scenes",
)

NA = []


def main():
    have = lambda i: os.path.exists(os.path.join(HERE, "vf", "checks", i.lower() + ".py"))  # noqa: E731
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            if have(d["id"]):
                f.write(json.dumps(d) + "\n")
    checks = []
    for d, tech, note in P:
        if not have(d["id"]):
            continue
        checks.append(
            dict(
                property=d["id"],
                quick_cmd="python3 run.py %s" % d["id"],
                thorough_cmd="python3 run.py %s --tier thorough" % d["id"],
                evidence_file="evidence/%s.json" % d["id"],
                technique=tech,
                level="exploration",
                level_note=note
                or "real executions over generated and adversarial workloads, decided by an oracle at every "
                "observed step; holds on everything observed, not proved for unobserved inputs",
            )
        )
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -c \"import numpy, scipy\"",
        checks=checks,
        not_applicable=NA,
        notes="Pure-Python package: no hooks are needed in /repo; monitors observe public state through callbacks.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks")


if __name__ == "__main__":
    main()
