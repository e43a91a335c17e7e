from . import shared, alias, kinds, stream, contract, domain, logs, rest, tables, options, forms, lines, laws, freq, resample, shapes, models, design, adaptive, zt, relate, accept
CHECKS = {
 'C01': (alias.c01, 'Alias analysis: every write event of every public constructor, assignment and operation (and sequences of two) is checked against the abstract locations of the arguments of the caller.'),
 'C02': (alias.c02, 'Escape analysis: abstract locations stored in attributes after construction, assignment and operation are disjoint from argument, class-table and other-instance locations.'),
 'C03': (alias.c03, 'Freshness: abstract locations of every returned container are allocated by the call and not reachable from instance, class table, argument or earlier result.'),
 'C04': (kinds.c04, 'Element-kind inference over all combinations of integer, floating point and complex signals, coefficients and states, including sequences of mixed kinds: every store, cast and in-place operation whose value derives from data is checked not to narrow.'),
 'C05': (relate.c05, 'Dependence analysis with loop-cursor labels: with the signal element-wise labelled and the instance attributes replaced by symbolic history, outputs and stored state may depend on the current sample and on carried instance state only; local loop-carried values must start from and return to the instance.  Closed-form propagation: the forms of the outputs of one call and of every partition of the same formal samples must agree at fixed points.'),
 'C06': (relate.c06, 'Dependence and provenance analysis of property assignment: the value read back is the assigned one, unmodified; every attribute the constructor derives from the parameter depends on the assigned value afterwards; where both are closed-form terms, constructor and assignment compute the same expression; the forms of the outputs after construction with a value and after construction with another value and assignment must agree at fixed points.'),
 'C07': (domain.c07, 'Interval analysis: the real line (or the integers) is partitioned at the bounds of the documented domain and at every constant the code compares the parameter with; for each cell the guards must decide rejection with ValueError outside and leave an accepting path inside, in constructor, setter and sibling operations alike.'),
 'C08': (contract.c08, 'Effect analysis of failing paths: for every explicit rejection (and every failure inside a fit, with each library call made to fail in turn) the effects of the path on the instance and class-level tables before the raise must be empty.'),
 'C09': (logs.c09, 'Lock-set and critical-section analysis: on every path (normal, raising, with failing logger calls) of level, stream and write, each access to shared class state, each handler installation or removal and each emission happens with the common re-entrant lock held, acts rely only on values read in the same critical section, and the lock is released on exit.'),
 'C10': (logs.c10, 'Effect-trace analysis: per-path traces of logger calls for all pairs of levels, stream replacement sequences, failures and unknown levels are compared with the required emission and with the set of handlers that remains installed.'),
 'C11': (rest.c11, 'Effect-trace and provenance analysis: every request event of request and live is compared with the configured base address, proxies and timeout and with the arguments of the call; rejection precedes the request; every returning path passes the status check; no failure of the request escapes the probe.'),
 'C12': (rest.c12, 'Value numbering of codec layers: the term of decode( encode( x ) ) must reduce to x for every branch of both, the term of code must be the SHA3-256 hexadecimal digest of the encoded text; guards reject empty text and encoding names.'),
 'C13': (contract.c13, 'Type-state of attributes: every value reachable from an instance after every constructor, assignment, operation and sequence of two is of a kind which pickle stores by value or by importable name.'),
 'C14': (tables.c14, 'Constant propagation: class-level tables and constructors are folded to the effective kernels of every advertised derivative, integral and wavelet ( and the three-phase transform to its matrix ), whose algebraic identities are then checked entry by entry.'),
 'C15': (laws.c15, 'Linearity lattice ( zero, constant, linear, non-linear ) propagated through every path of every linear operator, and affine forms over bounded lengths in which the coefficient of each imaginary part must be j times that of the real part.'),
 'C16': (contract.c16, 'Effect analysis: reads of clocks, random sources, environment and files, writes of module or class state, and unbalanced changes of process-wide settings over all constructors, assignments and operations.'),
 'C17': (tables.c17, 'Affine-form propagation: every sample is a formal variable and the forward and inverse transforms are folded to linear forms in these variables, which must be the identity, for bounded lengths of either parity, several windows, both references and both representations.'),
 'C18': (options.c18, 'Constant propagation of options: every advertised style, order, method and level, in four letter cases, is folded through its guards to an accepting path and to the external design it selects; every unlisted value is folded to a rejection with ValueError.'),
 'C20': (forms.c20, 'Exact value forms: each distance is folded to a closed expression in the elements of two formal vectors of one to four elements; exchange, equal vectors, permutation and scaling are decided on canonical forms and degrees, and refuted where two forms take different values.'),
 'C21': (shapes.c21, 'Symbolic shape analysis: lengths are affine expressions over the lengths of arguments, propagated through every operation; result shapes are compared with the documented ones symbolically and for all small lengths of either parity.'),
 'C22': (lines.c22, 'Shape and value-form propagation: constructors of FIR and IIR filters are folded for all combinations of vector lengths up to five; the stored vectors must have the common length and be the given forms followed by zeros.'),
 'C23': (laws.c23, 'Kind, sign and degree lattices for every length; for bounded lengths of either parity and several hops the density and spectrogram are folded to closed forms in the samples and compared with the mean over segments of squared transform magnitudes at fixed points of the samples.'),
 'C24': (lines.c24, 'Value-form propagation: each output of a rank filter must be the form "element at the index of the magnitude ordering of the newest order plus one samples", for all orders and indices up to a bound, after construction, assignment of index or state, and reset.'),
 'C25': (lines.c25, 'Value-form propagation with path conditions: on every path the output is split by coefficient into proportional, integral and derivative forms; each growth of the integral must be dominated by a guard on the magnitude of exactly the new integral.'),
 'C19': (models.c19, 'Typestate and value-form propagation: histories of construction, assignment, rejected and accepted training, prediction and clearing are folded; predictions of an untrained model or of another width must have no returning path, rankings after training again must be those of the last training data alone, reported diversity after clearing must be that of a new model.'),
 'C27': (shared.c27, 'Publication typestate: the first construction is folded over a small unpublished table with a formal low-pass prototype; the only publication must be one store of a complete, normalised bank of the phases of the prototype, independent of arguments, never written afterwards; with a published bank no construction or operation may store or write it.'),
 'C28': (models.c28, 'Value-form propagation with trace partitioning: histories of fits over formal observations are folded, path by path, to reported values and a kept set; on every path the members must be observations, and at fixed points of the observations the reported values must be those of the documented selection and the smallest distance of the kept set.'),
 'C29': (lines.c29, 'Value-form propagation: outputs and states of FIR and IIR filters (symbolic and fixed coefficients, given and default state, consecutive calls, mixed kinds) are compared with the forms of a direct-form delay line; reset must reach the fixed point of a constant input.'),
 'C33': (lines.c33, 'Affine-form propagation: Goertzel outputs are folded to linear forms in window and samples, which must be the discrete Fourier transform of each block.'),
 'C32': (resample.c32, 'Affine-form propagation: a signal with formal samples is folded through the forward and the inverse transform, for every style and order; the result must be the signal delayed by the order less one ( one stage, one and two dimensions ), and the signal itself for every number of Haar stages.'),
 'C34': (resample.c34, 'Affine-form propagation: polynomials with formal coefficients are folded through the polynomial rate filter and must be reproduced at the positions of the outputs; polyphase outputs must be the row of a small formal bank at the accumulated position applied to the most recent formal samples, over consecutive calls.'),
 'C35': (models.c35, 'Closed-form propagation: training and prediction are folded, for constant and formal training data and formal samples, to rankings of closed forms, which are compared with the order of the distances ( or of the mixture sums over the parameters the library returns for exactly the samples of the label ).'),
 'C36': (freq.c36, 'Closed-form propagation with formal coefficients: reported response and group delay, at the frequency each value is reported for, are compared with the response of the difference equation and its phase derivative; reported roots with the zeros of the coefficient polynomials by constant propagation.'),
 'C37': (freq.c37, 'Affine-form propagation: every value of a spectrum must be the transform of the windowed formal samples at exactly the frequency its axis reports, for bounded lengths of either parity.'),
 'C30': (design.c30, 'Closed-form propagation with formal coefficients for the designs the library returns: the search is followed through its first three candidates on every path; at fixed points of the formal values the filter must be the candidate with the least half-power error, mirrored and scaled as requested, and the requests must move against the error.'),
 'C31': (adaptive.c31, 'Closed-form propagation: every value the adaptive filters return, over calls of one to four formal samples, real and complex, zero samples among them, and after assignments and reset, must agree at fixed points (arbitrary signals and stationary exponentials) with the normalised least mean squares recursion, whose coefficient error shrinks by 1 - rate per sample.'),
 'C38': (adaptive.c38, 'Closed-form propagation: every value, over calls of one to seven formal frequencies, is the exponential of the phase accumulated before it; the carried phase equals the accumulated one up to whole turns and stays in its domain on every path.'),
 'C39': (zt.c39, 'Closed-form propagation: the coefficients of every style and order up to the bound fold to constants, which must be the symmetric window of that style, normalised to unit mean magnitude unless told otherwise; every output is the product of sample and coefficient at the same place, in every call.'),
 'C40': (zt.c40, 'Closed-form propagation over formal prototype coefficients, frequency and roots: at fixed points the returned vectors must be the expansion of the mapped poles and zeros (partial fractions for the impulse invariant method), with leading zero and unit gain at zero frequency.'),
 'C42': (design.c42, 'Constant propagation: for every style and order up to the bound the prototype polynomial which a designed filter hands to the z transform is folded and compared with the classical one up to a common scale, with the transform that maps it; window designs with the window of their style.'),
 'C41': (accept.c41, 'Shape analysis of guards: every constructor and operation is folded for empty, smallest, other and mismatched shapes, kinds and constant values of its data; every path of an unsupported one must end in the documented exception, a supported one must reach a result.'),
 'C26': (contract.c26, 'Dependence analysis: for each documented parameter of each constructor, assignment and operation, some result of that call or of later operations must depend (data or control) on it.'),
}
GENERAL = ('Static: an abstract interpreter evaluates the current source under most-general-client scenarios; a violation is reported only where the domain positively establishes it, constructs it cannot interpret '
           'are counted as undecided.  Trusts the transfer functions for numpy, scipy, scikit-learn, requests and loguru, and the documented surface in sa/spec.py.')
TECH = {
 'C01': 'alias and effect analysis (abstract interpretation)',
 'C02': 'escape analysis (abstract interpretation)',
 'C03': 'freshness / alias analysis (abstract interpretation)',
 'C04': 'element-kind inference (abstract interpretation)',
 'C05': 'dependence analysis with loop-carried labels, closed-form comparison of partitions (abstract interpretation)',
 'C06': 'dependence and provenance analysis, value numbering, closed-form comparison (abstract interpretation)',
 'C07': 'interval analysis of guards (abstract interpretation)',
 'C08': 'effect analysis of exceptional paths (abstract interpretation)',
 'C09': 'lock-set and critical-section analysis (abstract interpretation)',
 'C10': 'effect-trace analysis (abstract interpretation)',
 'C11': 'effect-trace and provenance analysis (abstract interpretation)',
 'C12': 'value numbering of codec layers (abstract interpretation)',
 'C13': 'type-state analysis of attributes (abstract interpretation)',
 'C14': 'constant propagation (abstract interpretation)',
 'C15': 'linearity type inference and affine-form propagation (abstract interpretation)',
 'C16': 'effect analysis (abstract interpretation)',
 'C17': 'affine-form propagation (abstract interpretation)',
 'C18': 'constant propagation through option guards (abstract interpretation)',
 'C20': 'value numbering with polynomial normal forms and degree analysis (abstract interpretation)',
 'C21': 'symbolic shape analysis (abstract interpretation)',
 'C22': 'shape and value-form propagation (abstract interpretation)',
 'C23': 'kind / sign / degree lattices and closed-form propagation (abstract interpretation)',
 'C24': 'value-form propagation with ordering provenance (abstract interpretation)',
 'C25': 'value-form propagation with trace partitioning and guard domination (abstract interpretation)',
 'C19': 'typestate analysis and value-form propagation over histories (abstract interpretation)',
 'C27': 'publication typestate and value-form propagation (abstract interpretation)',
 'C28': 'value-form propagation with trace partitioning (abstract interpretation)',
 'C29': 'value-form propagation over delay lines (abstract interpretation)',
 'C33': 'affine-form propagation (abstract interpretation)',
 'C32': 'affine-form propagation (abstract interpretation)',
 'C34': 'affine-form propagation with constant phase accumulators (abstract interpretation)',
 'C35': 'closed-form propagation with ordering provenance (abstract interpretation)',
 'C36': 'closed-form propagation with formal coefficients (abstract interpretation)',
 'C37': 'affine-form propagation (abstract interpretation)',
 'C42': 'constant propagation of design prototypes (abstract interpretation)',
 'C41': 'shape and constant propagation through guards (abstract interpretation)',
 'C30': 'closed-form propagation through the design search with trace partitioning (abstract interpretation)',
 'C31': 'closed-form propagation of the adaptation against its recursion (abstract interpretation)',
 'C38': 'closed-form propagation of the phase with trace partitioning (abstract interpretation)',
 'C39': 'constant and closed-form propagation (abstract interpretation)',
 'C40': 'closed-form propagation with formal roots (abstract interpretation)',
 'C26': 'dependence analysis (abstract interpretation)',
}
NOTE = {}
SINGLE = {'C20', 'C09', 'C10', 'C11', 'C12', 'C14'}
ITEMS = {'C42': 64, 'C41': 24, 'C30': 40, 'C31': 24, 'C38': 24, 'C39': 40, 'C40': 24, 'C14': 64, 'C15': 16, 'C17': 16, 'C18': 16, 'C20': 16, 'C22': 16, 'C23': 40, 'C24': 16, 'C25': 16, 'C19': 64, 'C27': 64, 'C28': 16, 'C29': 16, 'C33': 24, 'C32': 64, 'C34': 40, 'C35': 64, 'C36': 24, 'C37': 24}  # longest array whose elements are tracked one by one
NORMAL = {'C42', 'C41', 'C30', 'C31', 'C38', 'C39', 'C40', 'C27', 'C19', 'C15', 'C17', 'C20', 'C22', 'C23', 'C24', 'C25', 'C28', 'C29', 'C32', 'C33', 'C34', 'C35', 'C36', 'C37'}  # terms of elements are kept as polynomials
SPLIT = {'C42': 64, 'C41': 64, 'C30': 64, 'C31': 64, 'C38': 64, 'C40': 64, 'C27': 8, 'C19': 2500, 'C28': 2500, 'C35': 32, 'C32': 32, 'C34': 32, 'C36': 32, 'C15': 32, 'C25': 64, 'C24': 32, 'C29': 32, 'C33': 32, 'C22': 32}  # most states kept apart by path conditions
GIVEN = {'C05': 0, 'C06': 0, 'C17': 0, 'C21': 8, 'C22': 0, 'C23': 0, 'C29': 0, 'C32': 0, 'C33': 0, 'C34': 0, 'C36': 8, 'C37': 0, 'C39': 0, 'C41': 0}  # searched for violations with given samples where more than this is undecided
