#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that anchors and wording are edited in one place)."""
import json, os
F='diamondback/filters/'; T='diamondback/transforms/'; M='diamondback/models/'; K='diamondback/commons/'
ALLF=[F+n+'_filter.py' for n in 'fir iir complex_bandpass complex_exponential complex_frequency derivative goertzel integral pid polynomial_rate polyphase_rate rank window'.split()]
ALLT=[T+n+'_transform.py' for n in 'complex fourier psd wavelet z'.split()]
ALLM=[M+n+'_model.py' for n in 'diversity gaussian gaussian_mixture'.split()]
STREAM=[F+n+'_filter.py' for n in 'fir iir complex_bandpass complex_exponential complex_frequency goertzel pid polyphase_rate rank'.split()]
P=[]
def p(id,title,statement,over,quant,tests,files,mech,observe=(),state=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":list(observe),"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":tests,"anchors":a})

p("C01","Caller-supplied arguments are never modified",
  "No constructor, property assignment or operation of a filter, transform, model, serializer or REST client changes the contents of a list, array or dictionary that the caller passed in, whether the call succeeds or raises. The caller sees exactly the same contents in its own argument after the call, and also after any later call on the same instance.",
  ["inputs","histories"],"every public constructor, setter and operation, every accepted container (list or array) and element kind (integer, float, complex), every option combination",
  "The unit tests pass freshly built arrays, mostly of one element kind, and never look at them afterwards; aliasing shows only for particular container, kind and option combinations or on a later call.",
  ALLF+ALLT+ALLM+[K+'rest_client.py',K+'serial.py'],
  [("defensive copies: numpy.array( list( x ) ) / numpy.array( x )","all filter / transform entry points"),("normalisation out of place","ZTransform.transform")],
  ["the argument object after the call"])
p("C02","Instances own their arrays",
  "After construction or a property assignment, no numeric array that the instance keeps shares memory with an argument of the caller, with another instance, or with a class-level coefficient table. Filtering, resetting, adapting or fitting one instance therefore never changes another instance, a class-level table, or a caller's array; the single exception is the read-only polyphase coefficient bank, which all rate-filter instances share by design.",
  ["inputs","histories"],"every class that keeps arrays, every way of supplying them (constructor argument, default, setter, class table), every later operation",
  "Each test builds one instance per class; sharing needs two owners of the same array and a write through one of them.",
  ALLF+[T+'wavelet_transform.py']+ALLM,
  [("copy on construction","FirFilter.__init__, IirFilter.__init__, GoertzelFilter.__init__, WindowFilter.__init__"),("copy on assignment","b, s, a setters"),("fresh state per instance","PolyphaseRateFilter.__init__, DiversityModel.__init__")],
  ["arrays read from two instances, the class tables and the argument after operations on one of them"])
p("C03","Results of operations are fresh arrays",
  "Every array returned by an operation (filter, transform, delay, response, roots, fit, predict) is new: it shares no memory with an argument, with the state of the instance, with a class-level table, or with a result returned earlier. Later calls therefore never change a result the caller already holds.",
  ["inputs","histories"],"every operation that returns arrays, every option branch (including trivial ones such as window, neutral, spectrogram and inverse options), any later call",
  "Tests inspect a result immediately after the call and never call again before looking at it, and reach one option branch per operation.",
  ALLF+ALLT+ALLM,[("outputs allocated per call","numpy.zeros / numpy.concatenate in filter, transform, delay, response, roots, predict")],["returned arrays after a later call"])
p("C04","Element kind of the input never silently changes the result",
  "A signal, coefficient or state given with integer elements produces the same values as the equal floating point input: nothing is truncated to integers. A signal with complex elements either is rejected with an exception or keeps its imaginary part through the operation; the imaginary part is never silently discarded (including when a complex signal happens to have zero imaginary parts).",
  ["inputs"],"every filter and transform operation, state reset and array-valued constructor argument or setter, over integer, float and complex element kinds of signal, coefficients and state",
  "The tests use float signals built by the library's own generators; truncation needs an integer or complex operand meeting a narrower destination array.",
  [f for f in ALLF]+ALLT,[("destination arrays typed from operands","numpy.zeros( n, type ) in filter / transform"),("state typed from operands","FirFilter.__init__")],["returned values, instance state"])
p("C05","Streaming filters do not depend on how the signal is split into blocks",
  "For the FIR, IIR, derivative, integral, Goertzel, rank, PID, polyphase rate and complex exponential filters, and for the adaptive complex bandpass and complex frequency filters fed complex-valued signals, filtering consecutive blocks of a signal gives the concatenation of the outputs of filtering the whole signal in one call. Everything one call needs to know about earlier samples is carried in the instance; no output depends on the position of a sample within its block, on the block length, or on later samples of the block.",
  ["inputs","histories"],"all signals and all partitions into non-empty blocks, from every reachable state",
  "Every unit test calls filter exactly once on a fresh instance, so nothing about state carried from one call to the next is observed.",
  STREAM,[("state written for every sample inside the loop","filter methods"),("phase / fractional index / table index kept on the instance","ComplexExponentialFilter.filter, PolyphaseRateFilter.filter, GoertzelFilter.filter")],["outputs of consecutive filter calls"],
  [("s","delay line / accumulators","FirFilter and subclasses"),("phase","accumulated phase","ComplexExponentialFilter"),("index","fractional or window position","PolyphaseRateFilter, GoertzelFilter")])
p("C06","Assigning a parameter acts like constructing with it",
  "Reading a parameter back after assigning it returns the assigned value. Assigning an accepted value to a parameter also recomputes everything the constructor derives from that parameter (coefficients, oscillator weight), so subsequent outputs follow the new value as if the instance had been constructed with it, signal history apart.",
  ["histories","inputs"],"every assignable parameter of every filter and model, assigned at any point of any history",
  "Tests construct and read back; they do not assign a parameter after construction and filter again.",
  [F+'goertzel_filter.py',F+'complex_frequency_filter.py',F+'complex_bandpass_filter.py',F+'complex_exponential_filter.py',F+'pid_filter.py',F+'rank_filter.py',F+'polynomial_rate_filter.py',F+'polyphase_rate_filter.py',F+'fir_filter.py',F+'iir_filter.py',M+'gaussian_model.py',M+'gaussian_mixture_model.py'],
  [("setters","frequency, rate, phase, limit, index, order, b, s, a, regularize setters")],["property values and outputs after assignment"])
p("C07","Parameter domains are enforced, identically everywhere",
  "A numeric parameter outside its documented domain is rejected with ValueError, and every value inside the domain, closed end points included, is accepted. The constructor and the property setter of the same parameter enforce the same domain, and sibling operations (delay, response, roots of FIR and IIR filters) enforce the same domains for the same parameters. Default values lie inside the domain.",
  ["inputs"],"every documented numeric parameter of every public constructor, setter and operation; every number (NaN excluded) below, at and above each end point",
  "The tests probe one or two out-of-range values of some constructors only; setters, end points and the sibling operations are not probed.",
  ALLF+ALLT+ALLM,[("range guards raising ValueError","constructors, setters, delay / response / roots / transform")],["exception type per parameter value"])
p("C08","A rejected or failing call leaves the object unchanged",
  "When a constructor-time check, a property assignment, a reset, a filter, a transform or a predict call rejects its arguments, the instance and class-level tables are left exactly as they were. A fit that fails at any point, and a log level or log stream change that fails at any point, leaves the previous model, level and stream in force.",
  ["inputs","fault_sequences"],"every raising path of every public operation, including failures reported by the numerical, learning and logging libraries they call",
  "Tests check that an exception is raised but never use the object afterwards, and no test makes a library call inside fit or stream fail.",
  ALLF+ALLM+[K+'log.py'],[("validate before write","all setters and operations"),("build then publish","GaussianModel.fit, GaussianMixtureModel.fit, Log.stream")],["state after the exception"])
p("C09","Log state is only touched under one re-entrant lock",
  "Every read or write of the shared logging state (current level, current handler) and every handler installation or removal performed by the log level, log stream and log write operations happens while the one process-wide re-entrant lock is held, for the whole check-then-act sequence. The lock is released on every exit, normal or exceptional, and a log operation may call another without deadlock.",
  ["schedules"],"all interleavings of concurrent level, stream and write calls from any number of threads, on every path including error paths",
  "The single log test runs in one thread; no schedule other than the sequential one is ever explored.",
  [K+'log.py'],[("with Log._rlock","Log.level, Log.stream, Log.write")],["lock set at each access"],[("level","threshold","Log._level"),("identity","current handler","Log._identity")])
p("C10","Log entries are gated by level and go to exactly the installed stream",
  "An entry is emitted exactly when the severity of its level is at least that of the current level, under its own level and with a text entry unchanged, whatever the order of level, stream and write calls; an unknown level raises ValueError and emits nothing. Exactly one library handler is installed after any successful stream change: the new stream receives everything the gate passes, the previously installed one is removed, no handler of the application is ever removed except the pre-installed default one, and writing without a stream installs standard output once.",
  ["histories","inputs"],"all sequences of level, stream and write calls, all level names in any letter case, text and exception entries, all stream objects",
  "The test writes a few entries to one stream; it does not enumerate level pairs, stream replacement sequences or failures.",
  [K+'log.py'],[("severity comparison","Log.write"),("remove then add own handler","Log.stream"),("handler level 0","Log.stream")],["entries received by the stream; handlers installed"])
p("C11","REST requests always carry the configured connection settings and fail loudly",
  "Every request, including the liveness probe, is sent to the configured base URL joined with the API path by a single slash, with the configured proxies and timeout. A request passes method, authentication, headers, query items, body and JSON through unchanged, rejects unknown methods and simultaneous body and JSON with ValueError before anything is sent, and returns a response only if its status is not an error; the liveness probe answers true or false and never raises.",
  ["inputs","fault_sequences"],"all arguments, all configurations of url, proxy and timeout, all transport failures and status codes",
  "The only REST test needs a network and is not run; no transport failure or status code is exercised.",
  [K+'rest_client.py'],[("requests.request( ... )","RestClient.request, RestClient.live"),("raise_for_status","RestClient.request")],["calls made to the HTTP library; exceptions"])
p("C12","Serialization round-trips and its integrity code is the SHA3-256 of the text",
  "Decoding the encoding of any picklable object gives back an equal object, for compressed and uncompressed encodings alike and with no need to tell the decoder which was used, for every text encoding which represents ASCII text as ASCII (UTF-8, ASCII, Latin-1 and the like), used consistently. The integrity code of a text is the SHA3-256 hexadecimal digest of that text in the given encoding; empty text or an empty encoding name is rejected with ValueError.",
  ["inputs"],"all picklable objects, both compression options, all text encodings",
  "Tests round-trip a handful of objects with the default encoding.",
  [K+'serial.py'],[("pickle > gzip > base85 > text, and back","Serial.encode, Serial.decode"),("sha3_256","Serial.code")],["decode( encode( x ) ), code( x )"])
p("C13","Every library instance can be pickled",
  "Every instance of every filter, model and transform class, in any state reachable through its public operations, holds only picklable attributes, so it can be copied, sent to another process, or stored with the serializer of the library. No attribute of an instance is ever a lambda, a locally defined function, a lock, a generator, a module, or an open resource.",
  ["histories"],"every class, every attribute assigned by any constructor, setter or operation, on every path",
  "Tests serialise plain data only; no library instance is pickled, and an attribute may be assigned only on a rare path.",
  ALLF+ALLM+ALLT,[("attribute assignments","constructors, setters, operations")],["types of instance attributes"])
p("C14","Coefficient tables satisfy their defining identities",
  "Each derivative kernel of derivative order d annihilates polynomials of lower degree and maps the monomial of degree d to d factorial; each integral kernel is symmetric with unit gain; each wavelet kernel has order plus one coefficients, is orthonormal to its even shifts and sums to a constant, to within 1e-7; and the three-phase transform matrix is the amplitude-invariant Clarke matrix with unit-invertible gain. Every (derivative, order), (style, order) and order advertised has such a kernel.",
  ["inputs"],"every entry of every coefficient table in the package",
  "Tests instantiate some entries and assert shapes, never the algebraic identities; a wrong digit in one of about nine hundred coefficients passes.",
  [F+'derivative_filter.py',F+'integral_filter.py',T+'wavelet_transform.py',T+'complex_transform.py'],
  [("tables","DerivativeFilter.B, IntegralFilter.B, WaveletTransform.B, ComplexTransform.COEFFICIENT, ComplexTransform.GAIN")],["class-level tables"])
p("C15","Linear operators are linear in the signal",
  "The FIR, IIR, derivative, integral, Goertzel, window, polynomial rate and polyphase rate filters and the Fourier, complex and wavelet transforms are linear: scaling the signal (and the carried state) scales the result by the same factor, and the response to a sum is the sum of the responses. No added offset, rectification, clipping, thresholding, normalisation or sign operation is applied to signal values, and no path is chosen by comparing signal values.",
  ["inputs"],"all signals of a given element kind, all states, all option combinations",
  "Tests feed one signal and check length or finiteness; they compare no two responses.",
  [F+n+'_filter.py' for n in 'fir iir derivative integral goertzel window polynomial_rate polyphase_rate'.split()]+[T+n+'_transform.py' for n in 'fourier complex wavelet'.split()],
  [("dot products, elementwise products with coefficients, interpolation","filter and transform bodies")],["returned arrays"])
p("C16","Operations are deterministic and free of global side effects",
  "Constructing any object and running any operation (stochastic mixture fitting excepted) depends only on the arguments and the state of that instance: no random source, clock, environment variable, file or mutable module or class variable influences a result. No operation outside logging changes process-wide state: warning filters are restored on every exit, floating point error handling, print options and class tables are left alone (the one-time computation of the shared polyphase bank excepted).",
  ["histories","inputs"],"all call sequences on all instances; every path of every public operation",
  "Tests run each operation once; a second run, or a check of process-wide state after an exception, is absent.",
  ALLF+ALLT+ALLM+[K+'serial.py',K+'rest_client.py'],[("warnings.catch_warnings context","FirFilter, IirFilter"),("local state only","all operations")],["calls to impure libraries; writes to module and class variables"])
p("C17","Fourier and three-phase transforms are reversible",
  "Applying the inverse Fourier transform, with the same window (nowhere zero), to the forward transform gives the original signal for every length, odd and even. Applying the complex (three-phase) transform to a signal of one representation and then to the result gives the original back, with either reference, neutral or line, for balanced three-phase signals and for all complex signals.",
  ["inputs"],"all signal lengths (both parities), all windows without zeros, both reference options",
  "Tests check shapes of one even length and do not compose the two directions.",
  [T+'fourier_transform.py',T+'complex_transform.py'],[("half rotation, scaling and window inverse of each other","FourierTransform.transform"),("matrix and gain inverse of each other","ComplexTransform.transform")],["inverse( forward( x ) )"])
p("C18","Advertised options are accepted in any letter case and nothing else is",
  "Every style listed as supported by the FIR, IIR and window filters, the wavelet transform and the diversity model is accepted in any letter case, is implemented, and selects its own design; any other style raises ValueError. The same holds for the supported HTTP methods, the log levels, and the advertised derivative, integral and wavelet orders.",
  ["inputs"],"every advertised option of every class, any letter case, and every non-advertised value",
  "Tests try some styles in one spelling.",
  [F+'fir_filter.py',F+'iir_filter.py',F+'window_filter.py',F+'derivative_filter.py',F+'integral_filter.py',T+'wavelet_transform.py',M+'diversity_model.py',K+'rest_client.py',K+'log.py'],
  [("title-casing and membership tests","constructors, RestClient.request, Log.level")],["accepted and rejected option values"])
p("C19","Model lifecycle: train, predict, retrain, clear",
  "Predicting with an untrained Gaussian or Gaussian mixture model, or with samples whose width differs from the training samples, raises an exception and never returns labels. Training again completely replaces what was learned before; predictions rank the labels that occurred in the training data, one complete ranking per sample; clearing a diversity model makes it equivalent to a newly constructed one of the same style and order.",
  ["histories","inputs"],"all sequences of fit, predict, parameter assignment and clear, all label sets and sample counts",
  "Tests fit once with labels 0..n-1 and predict once; retraining, clearing and other label sets are not exercised.",
  ALLM,[("model list rebuilt per fit","GaussianModel.fit, GaussianMixtureModel.fit"),("guards in predict","GaussianModel.predict, GaussianMixtureModel.predict"),("clear","DiversityModel.clear")],["predictions, exceptions, state after clear"])
p("C20","Diversity distances are symmetric, non-negative and scale with the data",
  "Every distance style of the diversity model gives the same value for (x, y) and (y, x), is never negative, is zero for equal vectors, and doubles when all data are doubled. The distances do not depend on the order of the vector elements.",
  ["inputs"],"all pairs of vectors, all styles",
  "Tests evaluate the diversity of one data set.",
  [M+'diversity_model.py'],[("distance table","DiversityModel.DISTANCE")],["distance values"])
p("C21","Result lengths and shapes follow the documented relation",
  "FIR, IIR, derivative, integral, rank, PID, window, complex exponential, bandpass and frequency filters return exactly one output per input sample, in every returned array; wavelet and line-to-phase transforms preserve the number of samples; response and delay return arrays of exactly the requested length with a frequency axis of the same length; forward and inverse Fourier transforms return as many values and as many axis points as window samples, and the power spectral density has as many columns as axis points and, as a spectrogram, one row per segment that fits into the signal.",
  ["inputs"],"all input lengths, both parities, all option combinations, all requested lengths",
  "Tests use one (even) length per operation.",
  ALLF+ALLT,[("allocation and rotation of outputs","filter, transform, delay, response")],["lengths of returned arrays"])
p("C22","Coefficient and state vectors of a filter always agree in length",
  "After constructing an FIR or IIR filter from coefficient and state vectors of any lengths, the forward coefficients, feedback coefficients and state have one common length, the longest of those given, shorter ones being extended with trailing zeros and none truncated. A vector given is used unchanged in its leading part.",
  ["inputs"],"all relative orders of the lengths of a, b and s, lists and arrays, every element kind",
  "Tests supply vectors of equal length or only one of them.",
  [F+'fir_filter.py',F+'iir_filter.py'],[("zero padding","FirFilter.__init__, IirFilter.__init__")],["lengths of a, b, s after construction"])
p("C23","Power spectral density is real, non-negative and quadratic",
  "Every value of a power spectral density or spectrogram is real and non-negative for real and complex signals. Scaling the signal by c scales it by the squared magnitude of c, and the density is the mean over segments of the spectrogram of the same signal, window and hop. A spectrogram row is the squared magnitude of the discrete Fourier transform of one window-length segment, weighted by the window and divided by the window length, segments starting at every multiple of the hop that leaves a complete segment.",
  ["inputs"],"all signals, windows and hops, both result forms",
  "Tests check the shape of one result.",
  [T+'psd_transform.py'],[("squared magnitude, mean over segments","PsdTransform.transform")],["returned values"])
p("C24","A rank filter only selects",
  "Every output of a rank filter is exactly one of the samples it received or one of its initial or reset state values; no arithmetic is applied to it. The position selected in the magnitude ordering is the current index of the filter, the newest sample takes part in the selection, and exactly the most recent order plus one values take part.",
  ["inputs","histories"],"all signals, orders, indices and block partitions",
  "Tests check output length.",
  [F+'rank_filter.py'],[("sort, select, shift","RankFilter.filter")],["outputs compared with the window of inputs"])
p("C25","The PID integral never grows past its limit",
  "Whenever the PID filter changes its integral term by a sample, the magnitude of the new integral is within the configured limit; when adding a sample would exceed the limit the integral keeps its previous value, otherwise the sample is added. The proportional, integral and derivative terms use the coefficients in that documented order, the derivative being current minus previous error.",
  ["inputs","histories"],"all signals, limits and histories",
  "Tests run with the default infinite limit.",
  [F+'pid_filter.py'],[("conditional accumulation","PidFilter.filter")],["integral state after each sample"])
p("C26","Every documented parameter takes effect",
  "Each parameter documented for a public constructor, assignable property or operation influences the observable outcome (result, later results, or exception) of that call or of later operations on that instance. No documented parameter is accepted and then ignored.",
  ["inputs","configurations"],"every parameter of every public constructor, setter and operation, under every option branch in which it is documented to matter",
  "Tests vary few parameters and never compare two outcomes that differ in one parameter only.",
  ALLF+ALLT+ALLM+[K+'serial.py',K+'rest_client.py',K+'log.py'],[("data and control flow from parameter to result","all public operations")],["outcome as a function of each parameter"])
p("C27","The shared polyphase bank is published complete and never changes",
  "The coefficient bank shared by all polyphase rate filters becomes visible to other instances and threads only when it is completely computed and normalised: it has one row per phase, each with unit sum and proportional to the samples, at the spacing of the number of rows, of one low-pass prototype whose cutoff is at most one over the number of rows and which does not depend on the arguments of the filter constructed first. A published bank never changes afterwards. Constructing and using rate filters in any order or from several threads therefore uses the same coefficients.",
  ["schedules","histories"],"all interleavings of constructions and uses in any number of threads, all rates",
  "Tests construct one filter in one thread.",
  [F+'polyphase_rate_filter.py'],[("compute locally, then publish by one assignment","PolyphaseRateFilter.__init__")],["writes to the shared table and to arrays reachable from it"])
p("C28","Diversity never decreases and members come from the data",
  "The diversity reported by a diversity model is non-decreasing from observation to observation and from one fit call to the next, until it is cleared. The set it keeps always has the configured number of places, each of which is unused or an exact copy of a sample observed since the model was created or cleared. Samples fill unused places in order; after that a sample replaces the kept one which leaves the largest smallest distance between kept samples, exactly when that is larger than the diversity reported before, and the diversity reported is then that smallest distance.",
  ["inputs","histories"],"all data, styles, orders and sequences of fit calls",
  "Tests fit one data set once.",
  [M+'diversity_model.py'],[("replace only on improvement","DiversityModel.fit")],["returned diversity, kept set"])
p("C29","Direct-form filters keep an ordered delay line",
  "After filtering, the state of an FIR filter holds exactly the most recent input samples, newest first, each inserted once; for an IIR filter it holds the most recent intermediate values in the same order. Every output uses the sample just received (no added delay), and a reset puts every place of the delay line into the steady state of a constant input, so that the constant input which follows gives a constant output (for IIR filters without a pole at zero frequency).",
  ["inputs","histories"],"all signals, lengths, coefficient vectors of any length (one included) and reset values",
  "Tests check output length and finiteness of single calls on short filters.",
  [F+'fir_filter.py',F+'iir_filter.py'],[("shift, insert, dot","FirFilter.filter, IirFilter.filter, reset")],["state after each sample"])
p("C30","Designed low-pass filters meet their cutoff",
  "A designed FIR or IIR filter has order + 1 coefficients, exactly the requested gain at zero frequency (at Nyquist when complemented) and, for IIR, no response at the other end of the band. The design search starts at the requested frequency (1 - frequency when complemented), moves the design frequency up when the response of the stated number of cascaded instances at the requested frequency is below half power and down when it is above, goes on while the half-power error exceeds its tolerance and iterations remain, and keeps the examined design with the least half-power error. A complemented filter is the mirror image about half the Nyquist frequency of the low-pass design for 1 - frequency.",
  ["inputs"],"all styles, frequencies, orders, counts and gains; whatever the design library returns for each candidate","Tests design a few filters and look at shapes.",[F+'fir_filter.py',F+'iir_filter.py'],[("iterative design search","FirFilter.__init__, IirFilter.__init__")],["coefficients of the designed filter, designs examined"])
p("C31","Adaptive complex filters converge to the signal",
  "A complex frequency filter normalises each sample to unit magnitude (zero stays zero), reports the phase of its coefficient divided by pi, the error between the sample and coefficient times previous normalised sample, and the coefficient before the update, and then adds rate times error times the conjugate of the previous sample to the coefficient. A complex bandpass filter does the same with the sample as it is and a complex exponential of the configured frequency, of continuous phase, as reference, the reported signal being coefficient times reference. Real signals are made analytic call by call. So for a stationary complex exponential (at the configured frequency for the bandpass filter) the coefficient error is multiplied by 1 - rate for every sample, wherever calls begin and end; assigning frequency or rate and resetting act on the recursion which goes on.",
  ["inputs","histories"],"all signals, frequencies, rates, amplitudes and partitions into calls","Tests run one signal.",[F+'complex_bandpass_filter.py',F+'complex_frequency_filter.py'],[("LMS update","ComplexBandpassFilter.filter, ComplexFrequencyFilter.filter, frequency, reset")],["reference, error and coefficient returned"])
p("C32","Inverse wavelet transform reconstructs the signal",
  "For every style and order, the inverse wavelet transform of a one-stage forward wavelet transform is the signal delayed by order - 1 samples (zeros before the first sample), to the accuracy of the kernels, in one dimension and, for a two-dimensional signal, along both dimensions, for real and complex signals. For the Haar style this holds for every number of stages, without delay.",
  ["inputs"],"all signals, styles, orders, shapes; stages for the Haar style","Tests check shapes.",[T+'wavelet_transform.py'],[("analysis and synthesis banks, decimation, recursion","WaveletTransform.__init__, WaveletTransform.transform")],["inverse transform of the transform"])
p("C33","Goertzel output equals the discrete Fourier transform bin",
  "There is one Goertzel output per complete block of window length. It equals the sum over the block of window value times sample times exp( j pi f ( N - 1 - n ) ), the discrete Fourier transform of the windowed block at the configured frequency f with its phase referred to the last sample, divided by the window length N and doubled for real signals; no block influences another, and a call may end anywhere in a block.",
  ["inputs","histories"],"all signals, windows, frequencies and partitions into calls","Tests check shape.",[F+'goertzel_filter.py'],[("second order recursion","GoertzelFilter.filter")])
p("C34","Rate filters place every output at its position in the signal",
  "A polynomial rate filter turns N samples into round( N rate ) samples, output i being the value at position i / rate: signals which are polynomials of a degree up to the order (at most three) are reproduced exactly, linear signals everywhere, others away from the edges. A polyphase rate filter produces output j at position j / rate in units of input samples, counted without drift over consecutive calls: it is the row of the shared bank at the fractional part of the position, applied to the most recent samples, newest first; a reset makes all previous samples equal to its value.",
  ["inputs","histories"],"all signals, rates, orders and partitions into calls","Tests check length.",[F+'polynomial_rate_filter.py',F+'polyphase_rate_filter.py'],[("local polynomial fit, linear extension","PolynomialRateFilter.filter"),("phase accumulator","PolyphaseRateFilter.filter")],["outputs for polynomial signals, outputs against the bank"])
p("C35","Gaussian models rank classes by the fitted distributions",
  "For every sample a Gaussian model orders the labels by increasing Mahalanobis distance from the class, under the mean of the samples of the class and their maximum likelihood covariance (the scatter divided by the number of samples of the class) plus regularize on the diagonal. A Gaussian mixture model orders them by decreasing weighted sum, over the components of the class, of exp(-d*d/2) with d the Mahalanobis distance from the component; the components of each class are those which the library fits, with the configured order, iterations and regularization current at the time and full covariance, to exactly the samples of that class. Labels may be any integers in any order of appearance, classes may have different numbers of samples.",
  ["inputs","histories"],"all training sets, labels, features, class sizes, parameters and samples","Tests predict for one random data set and look at the shape.",ALLM,[("statistics of each class","GaussianModel.fit, GaussianMixtureModel.fit"),("distances and ranking","GaussianModel.predict, GaussianMixtureModel.predict")],["order of the labels returned by predict"])
p("C36","Reported response, group delay and roots are those of the filter",
  "The frequency response an FIR or IIR filter reports for each frequency of its returned axis is the response at that frequency of the difference equation which its filter operation implements, raised to the stated count; the reported group delay is the negative phase derivative of that response times count (the first FIR point, and IIR points at the two ends of the axis where the delay is limited, excepted). The reported poles and zeros are those of the same difference equation, each repeated count times, in order of magnitude. All follow the current coefficients.",
  ["inputs","histories"],"all coefficients, real and complex, lengths of either parity and counts","Tests check shapes of even lengths.",[F+'fir_filter.py',F+'iir_filter.py'],[("freqz, group_delay, roots of the coefficient vectors","response, delay, roots")],["reported values at the reported frequencies"])
p("C37","Spectrum axes name the frequencies of their bins",
  "Every value of a forward Fourier transform or power spectral density belongs to the frequency the returned axis gives for it: it is the transform of the windowed signal with the kernel exp( -j pi f n ), normalised by the window length (squared magnitude for the density). The axis is increasing in equal steps and stays inside [-1, 1) or [0, 1). The inverse Fourier transform reads its values in the same order. This holds for odd and even lengths.",
  ["inputs"],"all signals and windows, lengths of either parity, real and complex","Tests use one even length and never relate values to the axis.",[T+'fourier_transform.py',T+'psd_transform.py'],[("exchange of halves, axis","FourierTransform.transform, PsdTransform.transform")],["values against axis"])
p("C38","Complex exponential filter keeps a continuous phase",
  "Every value of a complex exponential filter is exp( j pi p ), where p is the initial or assigned phase plus the sum of all frequencies received before that sample, in this and in earlier calls. The phase reported after a call equals the accumulated phase up to whole turns and stays in [-1, 1], so no sequence of frequencies in [-1, 1] is ever rejected.",
  ["inputs","histories"],"all frequencies in [-1, 1], phases, lengths and partitions into calls","Tests filter one constant frequency in one call.",[F+'complex_exponential_filter.py'],[("phase accumulation and wrapping","ComplexExponentialFilter.filter, phase")],["values and phase after each call"])
p("C39","Window filter applies the symmetric normalised window of its style",
  "A window filter has order + 1 coefficients, those of the symmetric window of its style (Kaiser with shape 7), scaled to unit mean magnitude unless normal is false. Each output is the sample times the coefficient at the same place, for real and complex signals, and no call influences another.",
  ["inputs","histories"],"all styles, orders, signals and sequences of calls; the Hann window of order 1, which is all zero, has no normalised form","Tests check one order and look at the length.",[F+'window_filter.py'],[("window, normalisation and product","WindowFilter.__init__, WindowFilter.filter")],["coefficients and outputs"])
p("C40","Z transform maps every pole and zero of the continuous filter",
  "The bilinear z transform maps every pole and finite zero p of the continuous filter to ( 1 + p pi f / 2 ) / ( 1 - p pi f / 2 ), f being the frequency, and places missing zeros at the origin; the impulse invariant transform maps every pole p to exp( pi f p ) and keeps the residues of the partial fractions (distinct poles). Both return recursive coefficients with a leading zero and forward coefficients scaled to unit gain at zero frequency, as many of each as the continuous filter has poles plus one. Leading zero coefficients do not matter. In particular a stable continuous filter becomes a stable discrete one.",
  ["inputs"],"all proper continuous filters with no zero at zero frequency, and frequencies","Tests transform one filter and look at shapes.",[T+'z_transform.py'],[("mapping of roots and residues, normalisation","ZTransform.transform")],["returned coefficient vectors"])
p("C41","Unsupported data is rejected, supported data is accepted",
  "Every filter, transform and model rejects with ValueError, before it computes anything, data it cannot serve: an empty signal; fewer than two samples or more than one dimension for the polynomial rate filter; a length other than order + 1 or more than one dimension for the window filter; complex samples or samples outside [-1, 1] for the complex exponential filter; a reset value which is not a scalar; an empty coefficient vector, a recursive vector whose leading value is not zero, PID coefficients other than three; an empty or all-zero window (or, for the z transform, polynomial, and by impulse invariance one without poles) and a window longer than the signal; more than two dimensions, no columns, rows other than 1 or 3 for the complex transform, rows or columns which are neither 1 nor a multiple of 2 to the number of stages for the wavelet transform; training data which is not a matrix with rows and columns, labels of another number, samples of another width than the training data, prediction before training, complex observations for the diversity model. Labels which are not integers are rejected with TypeError. All other shapes, real, integer or complex, given as list or array, of any length from the smallest up, are accepted.",
  ["inputs","histories"],"all shapes, lengths, element kinds and container kinds; dimensions above one are not prescribed for the FIR, IIR and adaptive filters","Tests pass one or two unsupported values per class.",ALLF+ALLT+ALLM,[("argument guards","__init__, filter, reset, transform, fit, predict")],["exception or result of each call"])
p("C42","Designed filters have the response shape of their style",
  "Every design the search of an IIR filter examines is the discrete image of the classical low-pass prototype of its style and order: equally spaced poles on the left half circle for Butterworth, poles on the ellipse of 0.125 dB ripple for Chebyshev, the reverse Bessel polynomial for Bessel, up to a common frequency scale, no finite zeros, mapped by the bilinear transform (impulse invariant transform for Bessel). Every design an FIR filter examines is a window design with the window of its style, Kaiser with shape 7. So a Butterworth filter is maximally flat, a Chebyshev filter has equal ripple and a Bessel filter flat delay, whatever the spelling of the style, order, count or complement.",
  ["inputs"],"all styles, orders, counts and frequencies","Tests design single filters and look at the lengths of coefficient vectors.",[F+'iir_filter.py',F+'fir_filter.py'],[("prototype polynomials","IirFilter._evaluate"),("window of the design","FirFilter.__init__")],["poles of designed filters, response"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for r in P:
        assert len(r['title'])<=80,(r['id'],len(r['title']))
        f.write(json.dumps(r)+'\n')
print(len(P))
