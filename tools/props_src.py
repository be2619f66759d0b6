p("C01", "Filling a spectrum puts each weight in exactly the right bin",
  "For any number of dimensions and any binning, each accepted fill adds its weight to the single bin whose half-open interval [edge, next edge) contains the given values (up to floating-point rounding at an edge; the largest value below the upper edge is in the last bin) and changes nothing else, so bin contents and the total are the sums of the accepted weights. "
  "A fill with a value outside the range of any dimension (the upper edge itself included), with a missing dimension or with an unknown one is rejected with an error and leaves the spectrum unchanged.",
  ["inputs", "histories", "configurations"], "every binning (dimensions, ranges, bin counts), every sequence of accepted and rejected fills, every weight",
  "The existing test fills one 3-d spectrum with random values and never runs here; edges, rejected fills, other shapes and orders of dimensions are not sampled.",
  [C+"spectra.py", C+"config.py", C+"parameter.py"],
  [("fill", "echidna/core/spectra.py:Spectra.fill"), ("sum", "echidna/core/spectra.py:Spectra.sum")],
  [("_data", "n-d histogram", "Spectra._data"), ("_config", "ordered axes", "Spectra._config")],
  ["Spectra.get_data()", "Spectra.sum()"])
p("C02", "Cutting keeps exactly the requested bins and axes stay true to the data",
  "After any sequence of shrink, cut and region-of-interest operations the spectrum holds exactly those bins that overlap the requested ranges (an overlap of at most one percent of a bin may be treated as none), each with unchanged content and unchanged physical interval, and the low edge, high edge and bin count of every axis describe the data array. "
  "Axes not named in the request are untouched. A request that reaches below the current lower edge, above the current upper edge, names an unknown axis, or selects no bin at all is rejected with an error and changes nothing.",
  ["inputs", "histories", "configurations"], "every binning (including ranges not aligned to multiples of the bin width), every sequence of cuts with bounds on and off bin edges",
  "Existing tests cut one spectrum at aligned bounds; sequences, unaligned ranges and rejected requests are not reached, and they do not run here.",
  [C+"spectra.py", C+"parameter.py"],
  [("shrink", "echidna/core/spectra.py:Spectra.shrink"), ("shrink_to_roi", "echidna/core/spectra.py:Spectra.shrink_to_roi"), ("cut", "echidna/core/spectra.py:Spectra.cut"), ("round", "echidna/core/parameter.py:SpectraParameter.round")],
  [("_data", "n-d histogram", "Spectra._data"), ("_config", "axis low/high/bins", "Spectra._config"), ("_rois", "recorded ROI and efficiency per axis", "Spectra._rois")],
  ["Spectra.get_data()", "Spectra.get_config()", "Spectra.get_roi()"])
p("C03", "Rebinning merges neighbouring bins and conserves the content",
  "Rebinning to new bin counts that divide the old ones makes each new bin hold the sum of the consecutive old bins it covers, in every dimension, keeps the range of every axis, and updates the bin counts to match the data. "
  "A request with the wrong number of dimensions or with a count that is below one or does not divide the old one is rejected with an error and leaves data and axes unchanged.",
  ["inputs", "histories", "configurations"], "every shape, every divisor tuple, every invalid request, after any earlier operations",
  "One rebin of one shape is tested (and does not run here).",
  [C+"spectra.py"], [("rebin", "echidna/core/spectra.py:Spectra.rebin")], None, ["Spectra.get_data()", "Spectra.get_config().get_shape()"])
p("C04", "Projections are the marginal sums of the spectrum",
  "Projecting a spectrum on one, two or any set of its axes returns, for each combination of bins of the requested axes, the sum over all bins of the other axes, in the order the axes have in the configuration; the total of every projection equals the total of the spectrum. "
  "Projections never change the spectrum, and changing a returned array never changes the spectrum.",
  ["inputs", "histories", "configurations"], "every number of dimensions and shape, every subset of axes, any content",
  "Existing tests cover one 3-d spectrum's 1-d and 2-d projections and do not run here; general subsets are untested.",
  [C+"spectra.py"], [("project", "echidna/core/spectra.py:Spectra.project"), ("surface", "echidna/core/spectra.py:Spectra.surface"), ("nd_project", "echidna/core/spectra.py:Spectra.nd_project")], None, ["return values", "Spectra.get_data()"])
p("C05", "Normalisation and addition keep counts, decays and events consistent",
  "Scaling a spectrum to N decays multiplies every bin by N over the previous number of decays and records N, so the content after a chain of scalings depends only on the last; shrinking leaves the number of decays as it was, while a cut multiplies it by the surviving fraction of counts. "
  "Adding a spectrum with the same axes adds bin contents, decays and raw events; adding one with different dimensions, bounds or binning is rejected with an error and changes neither spectrum; the same axes in another order are either rejected as well or added axis by axis according to their names.",
  ["inputs", "histories"], "every chain of scale, shrink, cut and add over compatible and incompatible spectra",
  "Tests check a single scale and one add; chains and incompatible operands are barely sampled, and do not run here.",
  [C+"spectra.py"], [("scale", "echidna/core/spectra.py:Spectra.scale"), ("add", "echidna/core/spectra.py:Spectra.add"), ("cut", "echidna/core/spectra.py:Spectra.cut")],
  [("_num_decays", "decays represented by the full spectrum", "Spectra._num_decays"), ("_raw_events", "number of raw events", "Spectra._raw_events")],
  ["Spectra.get_num_decays()", "Spectra.sum()"])
p("C06", "Operations on a copied or convolved spectrum never alter its source",
  "A spectrum obtained by copying another one, or by scaling, shifting or smearing it along an axis, is independent of its source: cutting, rebinning, rescaling, filling or adding to the derived spectrum leaves the data, axes, number of decays and regions of interest of the source unchanged, and vice versa.",
  ["histories"], "every interleaving of derivations and in-place operations on sources and derived spectra",
  "No test modifies a derived spectrum and looks back at the source.",
  [C+"spectra.py", C+"scale.py", C+"shift.py", C+"smear.py", "echidna/fit/fit.py"],
  [("copy", "copy.copy(spectrum) in scale/shift/smear/fit"), ("config", "Spectra._config shared by reference")], None, ["Spectra.get_data()", "Spectra.get_config()"])
p("C07", "Fit parameter values form a complete ordered grid that maps to indices",
  "For every fit parameter the generated grid is strictly increasing, starts at the low bound and ends at the high bound, and has exactly as many points as the parameter has bins: equally spaced in linear mode, equally spaced in the logarithm in log mode, and in log-deviation mode containing the prior, with equal logarithmic steps of the distance from it on each side. "
  "Looking up a grid value gives the index that returns the same value and looking up a value that is not on the grid is an error; changing the bounds, prior or binning changes the grid accordingly, and every update of a parameter is the one it reports from then on. A grid that misses the prior, or holds values that its kind of parameter does not allow (negative rates), is warned about when it is checked, and no other grid is.",
  ["inputs", "configurations", "histories"], "every low/high/bins/prior and scale mode; every sequence of updates",
  "Tests use two linear grids only.",
  [C+"parameter.py"], [("get_values", "echidna/core/parameter.py:FitParameter.get_values"), ("get_value_index", "echidna/core/parameter.py:FitParameter.get_value_index"), ("set_par", "echidna/core/parameter.py:FitParameter.set_par")], None, ["get_values()", "get_value_at()", "get_value_index()"])
p("C08", "Axis geometry: bins, edges and centres of a spectrum axis agree",
  "For every spectrum axis the bin edges run from low to high in equal steps of the bin width, each bin centre lies half-way between the edges of its bin, and the bin found for any value in the range is the one whose interval contains it (up to floating-point rounding at an edge). "
  "Rounding a value gives the nearest bin edge; values outside the range and bin numbers that are negative or too large are rejected with an error.",
  ["inputs", "configurations", "histories"], "every axis range and binning, before and after updates, every value and bin number",
  "Only used indirectly by tests on a handful of axes.",
  [C+"parameter.py"], [("SpectraParameter", "echidna/core/parameter.py:SpectraParameter")], None, ["get_bin()", "get_bin_boundaries()", "get_bin_centre()", "get_bin_centres()", "round()"])
p("C09", "Configurations survive dump and load, and keep parameter order",
  "Dumping a spectra, spectra-fit or global-fit configuration (as dictionaries or YAML files) and loading it back yields a configuration with the same parameters in the same order and the same dimensions, bounds, bins, priors, sigmas and scale modes, and, for full dumps, the same current values, best fits and penalty terms. "
  "A global-fit configuration is written with its global parameters first, grouped by dimension in order of first appearance, then the spectral ones, and is read in that order. Parameter lookup by name, by index and by position agree in every configuration, and input with an unknown kind of global parameter, an unknown field of a parameter or a missing section is rejected with an error.",
  ["inputs", "configurations"], "every set and order of parameters, dimensions and types, including unset optional fields",
  "One spectra config is round-tripped through the HDF5 store in a test that does not run here.",
  [C+"config.py", C+"parameter.py", "echidna/util/yaml_loader.py"],
  [("load/dump", "echidna/core/config.py"), ("to_dict", "echidna/core/parameter.py:FitParameter.to_dict"), ("ordered yaml", "echidna/util/yaml_loader.py")], None, ["dump()", "load()", "get_pars()", "get_index()"])
p("C10", "Test statistics: bins add up, and the value follows its definition",
  "For every supported statistic and all observed and expected counts, the total value equals its published formula (empty bins replaced by a tiny floor where the statistic divides or takes logarithms), the per-bin form has one entry per bin adding up to the same total, and the per-bin flag only selects which form is returned. "
  "The statistic is zero for chi-squared-like forms when observed equals expected, observed and expected arrays of different shape are rejected with an error, and the penalty added for a parameter is ((value - prior)/sigma) squared with the factor the statistic documents, zero at the prior.",
  ["inputs"], "every pair of count arrays (zeros, fractions, large counts, any length) and every per-bin/penalty combination",
  "Unit tests evaluate each statistic on one scalar example.",
  ["echidna/fit/test_statistic.py"], [("compute_statistic/get_penalty_term", "echidna/fit/test_statistic.py")], None, ["compute_statistic()", "get_penalty_term()"])
p("C11", "Grid search evaluates every parameter combination once, in its own cell",
  "A grid search evaluates the objective exactly once at every combination of grid values of all parameters and stores the statistic and the penalty of each combination in the cell whose indices select exactly those values; no other cell is written. "
  "The full statistic grid is the stored statistic (summed over spectral bins in per-bin mode) plus the stored penalty, and cells outside the grid cannot be read or written.",
  ["inputs", "configurations", "histories"], "every number of parameters, grid shapes, objective values, per-bin or not, repeated searches",
  "The existing test searches one 2-d grid and does not run here.",
  ["echidna/fit/minimise.py"], [("minimise", "echidna/fit/minimise.py:GridSearch.minimise"), ("_get_values", "echidna/fit/minimise.py:GridSearch._get_values"), ("set_stat/set_penalty_term", "echidna/fit/minimise.py:GridSearch")],
  [("_stats", "statistic grid", "GridSearch._stats"), ("_penalty_terms", "penalty grid", "GridSearch._penalty_terms")], ["get_stats()", "get_raw_stats()", "get_penalty_term()"])
p("C12", "The reported best fit is the global minimum of the grid",
  "After a grid search the reported best-fit values are a grid point whose statistic plus penalty is the smallest on the whole grid, the returned statistic and penalty are those of that point, and the best fit and penalty recorded on each parameter belong to that point. "
  "Both minimum-finding methods agree on the minimum value for every grid, in any number of dimensions, and locate a cell that holds it.",
  ["inputs", "configurations"], "every objective (multiple minima, ties, minima at corners), every number and size of dimensions, both methods",
  "One parabola in 2-d is tested; ties, more dimensions and unequal sizes are not.",
  ["echidna/fit/minimise.py"], [("find_minimum", "echidna/fit/minimise.py:GridSearch.find_minimum"), ("minimise", "echidna/fit/minimise.py:GridSearch.minimise")], None, ["minimise() return value", "FitParameter.get_best_fit()", "FitParameter.get_penalty_term()"])
p("C13", "The fitted expectation is fixed plus floating backgrounds plus signal",
  "At every grid point the expectation compared with data is the fixed background as it was given plus every floating background normalised to its rate at that point plus the signal if one is set, the floating backgrounds and the signal each convolved with all global parameters at their values and reduced to the fit region, and the returned penalty is the sum over all parameters that have a sigma. Bins are put together by the place they stand for, whatever the order of the axes of each spectrum, over the present region of interest. "
  "Evaluating the same point again, after any other points, gives the same result.",
  ["inputs", "histories", "configurations"], "every combination of fixed, floating and signal spectra, rate and global parameters, and every order of evaluation",
  "No existing test runs a fit with backgrounds.",
  ["echidna/fit/fit.py"], [("_funct", "echidna/fit/fit.py:Fit._funct"), ("fit", "echidna/fit/fit.py:Fit.fit"), ("convolution cache", "Fit._global_dict")],
  [("_global_dict", "cache of convolved spectra per background and global values", "Fit._global_dict")], ["Fit.fit()", "Fit._funct()", "GridSearch.get_stats()"])
p("C14", "The fit confines every spectrum to the region of interest, or refuses",
  "Every spectrum handed to a fit is cut to the region of interest, fixed backgrounds are the sum of the given spectra each scaled to its prior counts, and the original objects given as fixed backgrounds are not modified. "
  "A fit refuses to run, with an error, when data or all backgrounds are missing, when a spectrum does not match the region of interest, when parameters and floating backgrounds do not fit together, or when a per-bin fit is given a statistic that is not per bin; what it rejects leaves the fit as it was. Moving the region, cutting everything to it at once or giving the fit other parameters changes exactly that.",
  ["inputs", "histories", "configurations"], "every sequence of set/append/make/remove calls and every ROI",
  "No existing test constructs a fit with several spectra.",
  ["echidna/fit/fit.py"], [("shrink_all/make_fixed_background/check_fitter", "echidna/fit/fit.py:Fit")], None, ["Fit.get_data()", "Fit.get_fixed_background()", "Fit.check_fitter()"])
p("C15", "The limit is the first signal scale past the minimum that exceeds the threshold",
  "For every signal grid, background model and confidence threshold, the limit returned is the first tested signal scale, at or after the scale with the lowest statistic (the lowest may be taken with or without the penalty terms), whose statistic relative to the no-signal fit (or to the zero statistic the caller supplies) plus penalty terms exceeds the threshold; if no tested scale does, an error is raised rather than a number returned. The scan evaluates this limit's own signal at each of its scales, whatever the fit held before, and records the statistics, penalty terms and best fits of every scale. "
  "A higher threshold never yields a smaller limit; a repeated question gets the same answer.",
  ["inputs", "configurations", "histories"], "every statistic-versus-scale shape, threshold, signal grid with or without zero, repeated calls",
  "No existing test sets a limit.",
  ["echidna/limit/limit.py", "echidna/fit/fit_results.py"], [("get_limit", "echidna/limit/limit.py:Limit.get_limit"), ("get_array_limit", "echidna/limit/limit.py:Limit.get_array_limit"), ("full stats", "echidna/fit/fit_results.py:LimitResults.get_full_stats")], None, ["get_limit()", "get_array_limit()"])
p("C16", "A stored spectrum is read back identical",
  "Dumping a spectrum to file and loading it returns an equal spectrum: bin contents, axes in order with bounds and bins, name, background name, number of decays, raw events, BiPo flag, style, regions of interest and fit configuration. A file holds one spectrum: a plain dump replaces the whole file, appending keeps the other objects in it, and appending where a spectrum is already stored is refused with an error and leaves the file as it was unless overwriting was asked for. What is loaded is what was last stored, whatever happened to the stored object or to earlier loaded ones since, neither dumping nor loading changes any object in memory, and files of the older layout without groups still load.",
  ["inputs", "histories"], "every spectrum, fit configuration, style and ROI; every sequence of dump, append, overwrite and load",
  "One round trip per style is tested, and does not run here (no HDF5).",
  ["echidna/output/store.py", C+"config.py"], [("dump/load", "echidna/output/store.py"), ("dict_to_string/string_to_dict", "echidna/output/store.py")], None, ["store.load()"])
p("C17", "Stored fit and limit results are read back identical",
  "Dumping fit or limit results and loading them returns results with the same statistic grid, penalty terms, best fits, parameter configurations and name, whatever their values, for grid-search results and for limit results with the fits stored in them; the order of the parameters, which is that of the array dimensions, is kept. A plain dump replaces the file, appending keeps the other objects and refuses to replace results already there. Objects saved with dump_ndarray get their arrays, numbers and texts back from load_ndarray, while attributes that were not stored are left alone.",
  ["inputs"], "every grid shape and content, with and without spectral parameters",
  "No existing test runs a result round trip here.",
  ["echidna/output/store.py"], [("dump_fit_results/load_fit_results/dump_limit_results/load_limit_results", "echidna/output/store.py")], None, ["store.load_fit_results()", "store.load_limit_results()"])
p("C18", "Scaling an axis conserves counts and moves content by the scale factor",
  "Scaling a spectrum along an axis by a positive factor returns a new spectrum with the same axes, the same total counts (whenever any content stays in range) and the same number of decays, in which content at position x has moved to about x times the factor; a factor of one returns the same content, and non-positive factors are rejected. "
  "The other axes keep their distribution at each position and the input spectrum is unchanged.",
  ["inputs", "configurations"], "every factor, axis, number of dimensions and content",
  "Tests scale one gaussian and do not run here.",
  [C+"scale.py"], [("scale", "echidna/core/scale.py:Scale.scale")], None, ["Scale.scale()"])
p("C19", "Shifting an axis moves content by exactly the shift",
  "Shifting a spectrum along an axis by a whole number of bins moves every positive bin content by exactly that many bins, dropping only what leaves the range; any other shift interpolates: it returns a spectrum of the same total counts (whenever any content stays in range) whose content has moved by the shift, and moving bins as they are by part of a bin is refused. "
  "Axes, number of decays and the input spectrum are unchanged, and the other axes keep their distribution.",
  ["inputs", "configurations"], "every shift (positive, negative, zero, larger than the range), axis, number of dimensions and content",
  "Tests shift one gaussian by one bin and do not run here.",
  [C+"shift.py"], [("shift", "echidna/core/shift.py:Shift.shift"), ("shift_by_bin", "echidna/core/shift.py:Shift.shift_by_bin")], None, ["Shift.shift()"])
p("C20", "Smearing redistributes each bin's content without losing any",
  "Weighted smearing along an axis spreads the content of each bin over the bins of the same axis within the configured number of standard deviations (rounded to whole bins), with weights proportional to the response at the bin centres, so the total, the distribution over the other axes, the axes and the raw event count are unchanged and the result is linear in the input; random smearing moves whole entries along the smeared axis only and loses only those that leave the range. "
  "Invalid resolutions, light yields or unknown axes are rejected with an error and the input spectrum is unchanged.",
  ["inputs", "configurations"], "every resolution or light yield, axis, binning, number of dimensions and content, including content in the edge bins",
  "Tests smear one gaussian far from the edges and do not run here.",
  [C+"smear.py"], [("weighted_smear/random_smear", "echidna/core/smear.py")], None, ["weighted_smear()", "random_smear()"])
p("C21", "Pre-convolved file names identify the parameter values they hold",
  "For any set of global parameters and values, the directory and file name derived for a pre-convolved spectrum are the documented ones (a directory per dimension, one per kind of systematic applied in it, and the value with its ending in the file name) and name every applied parameter and its value: different values of the same parameters give different files, the same combination gives the same file whatever was asked for before, and replacing a value in an already convolved name keeps the other values and the words of the name that are not values. "
  "The directory set for pre-made spectra is the one used, and a fit in pre-made mode loads exactly the file of the current values.",
  ["inputs", "histories", "configurations"], "every combination and order of scale, shift and resolution values over any dimensions; base directories above the first dimension not called smear, scale or shift",
  "Not tested at all.",
  [C+"parameter.py", "echidna/fit/fit.py"], [("get_pre_convolved", "echidna/core/parameter.py"), ("load_pre_made", "echidna/fit/fit.py:Fit.load_pre_made")], None, ["get_pre_convolved()"])
p("C22", "Decay, activity and half-life conversions are mutually inverse",
  "Counts, activity, half-life and effective mass convert into one another by the decay law: every conversion has the physical value for the isotope, number of atoms and livetime given (the isotope's own atoms and five years where none are given), a conversion there and back returns the starting value and the result does not depend on the path. The number of atoms follows from loading, abundance, atomic weights and the mass or volume of scintillator, and what is given to a call or to the isotope overrides the detector's values, which are only used where nothing was given. "
  "Abundances or loadings outside 0 to 1, radii, livetimes or effective masses that are not positive are rejected with an error.",
  ["inputs", "configurations", "histories"], "every isotope, loading, radius, density, livetime and value in the physical range, every chain of conversions (zero or negative values a conversion would divide by are left open)",
  "Physics tests compare a few numbers and need data files; they do not run here.",
  ["echidna/calc/decay.py", "echidna/calc/constants.py"], [("DBIsotope", "echidna/calc/decay.py"), ("constants", "echidna/calc/constants.py")], None, ["DBIsotope methods"])
p("C23", "Event filling selects exactly the intended events and counts them all",
  "Filling a spectrum from a ROOT file or an ntuple adds weight one, at the extracted values, for each candidate that passes the selection of every dimension of the spectrum and lies in its range, and nothing else: candidates are the triggers (the entries of a ROOT file when only true dimensions are asked for), the BiPo cut keeps only single triggers (the last one of a file too), reconstructed dimensions need a valid reconstruction, and the fiducial cut is on the true or the reconstructed position as the dimension and the kind of background demand. "
  "The raw events are the ones added and the number of decays grows by the entries of the file; files add up when filled into one spectrum; settings that cannot be met are an error that leaves the spectrum as it was.",
  ["inputs", "histories", "configurations"], "every sequence of events (empty, untriggered, multi-trigger, BiPo pairs, unreconstructed, out of range), every set of dimensions, fiducial and outer radius, external or not, BiPo cut or not, and any sequence of files of both formats",
  "Existing tests do not cover filling (it needs ROOT).",
  [C+"fill_spectrum.py", C+"dsextract.py"], [("fill_from_root/fill_from_ntuple", "echidna/core/fill_spectrum.py"), ("extractors", "echidna/core/dsextract.py")], None, ["returned spectra"])
p("C24", "Fit and limit results are read out exactly as they were recorded",
  "Reading statistics, penalty terms, best fits or projections from fit or limit results, by parameter name, by value or by scale index, returns exactly the entries recorded for those parameters and indices: slices keep the right axis, full statistics are recorded statistic plus all recorded penalties, and unknown parameters or indices are an error; asked without a parameter, penalty terms are returned as the whole stored array. "
  "Reading never changes the results.",
  ["inputs", "histories", "configurations"], "every number of parameters and shapes and every order of writes and reads",
  "No existing test runs these here.",
  ["echidna/fit/minimise.py", "echidna/fit/fit_results.py"], [("getters/setters", "echidna/fit/minimise.py, echidna/fit/fit_results.py")], None, ["get_*()"])
p("C25", "Combining configurations keeps every parameter distinct and typed",
  "A global fit configuration assembled from any sequence of spectra-fit and global-fit configurations and single parameters contains each parameter exactly once under its own name and kind, keeps insertion order (a parameter added again keeps its place and takes the later definition; adding a global configuration adds its global parameters and then its spectral ones), reports as global or spectral exactly those added as such, and rejects other kinds of configuration and parameter kinds with an error.",
  ["histories", "configurations"], "every sequence of add operations",
  "Not tested.",
  [C+"config.py"], [("add_config/add_par", "echidna/core/config.py:GlobalFitConfig")], None, ["get_pars()", "get_global_pars()", "get_spectra_pars()"])
p("C26", "Command-line scripts save exactly what the library computes, where they say",
  "Run on a given command line, each of the scripts that combine, rebin, shrink, scale, shift, smear or fill spectra leaves exactly one new file per spectrum asked for: at the given output path or directory, or else next to its input (combined.hdf5 in the working directory) under the input's name with the documented suffix (_rebin, _shrunk, _shifted, _smeared, _<factor>sc, _<resolution>rs, _<light yield>ly; for event files their name with .hdf5). Wherever the input lies and however its path is written, nothing else is created or changed, and nothing is written outside that place. "
  "The saved spectrum loads back with the content, dimensions, decays and raw events that the operation gives for the values on the command line, every one of them (a value of zero is a value). What cannot be done - an unknown axis, factors or resolutions out of range, a missing file, directory or argument, spectra that cannot be combined - leaves all files as they were.",
  ["inputs", "configurations", "histories"], "every script and combination of its options, paths with and without directories, extra dots, relative or absolute, values in any notation, and sequences of scripts working on each other's output (files have an extension; a value of zero for a radius or resolution counts as not given)",
  "Scripts are not tested at all.",
  ["echidna/scripts/"], [("scripts", "echidna/scripts/*.py")], None, ["files after the run"])
p("C27", "Plots show exactly what is recorded and leave it unchanged",
  "The histograms, meshes and graphs that the plotting functions of echidna.output.plot and echidna.output.plot_root return or draw hold the recorded numbers at the right place: a projection shows each bin's marginal sum within that bin's edges; a surface has the first named dimension along its first axis (or, with matplotlib, each dimension along the axis that carries its label) whichever comes first in the configuration; a spectral plot draws every spectrum once, under its own label, with the sum of exactly those marked as background, the sum of all of them and, if given, the limit and the per-bin statistics; graphs and histograms of fit and limit results show each raw or full statistic, penalty term, best fit and pull (best fit - prior)/sigma at its own scale or parameter values. "
  "Spectra that do not share the plotted axis are refused. Drawing changes neither the spectra nor the results, things appear on the screen when that is asked for and only then, and plot_summary saves one such plot of stored limit results per quantity and parameter.",
  ["inputs", "configurations", "histories"], "every binning (also those whose edges round), number and order of axes, content, choice of dimensions, set of spectra with types, labels and limits, and shape of fit and limit results, with plots drawn one after another from the same objects (plots of per-bin results over parameters, and pulls of parameters without a sigma, are left open)",
  "Plots are not tested at all, and the graphics libraries are not even installed here.",
  ["echidna/output/plot.py", "echidna/output/plot_root.py", "echidna/scripts/plot_summary.py"],
  [("projection", "echidna/output/plot.py:plot_projection"), ("spectral plot", "echidna/output/plot.py:spectral_plot"), ("surface", "echidna/output/plot.py:plot_surface"), ("ROOT plots", "echidna/output/plot_root.py"), ("summary", "echidna/scripts/plot_summary.py")], None,
  ["contents, edges, labels and points of what is drawn", "Spectra.get_data()", "FitResults and LimitResults getters"])
p("C28", "A session's log holds every message, and the terminal those asked for",
  "Once a script has started logging, every message of any logger of the process is written exactly once, with its level, to one log file: the file named after the script and (unless short names are asked for) the host and process, inside the log directory of the user profile however that directory is written; scripts started later in the same process go on in that file, and another process of another name never touches it. "
  "The terminal shows exactly the messages that reach the level chosen in the profile, with the name of their logger, and those of the \"extra\" logger as bare text. "
  "Warnings are logged the same way when capturing is asked for and left alone otherwise; in cautious mode user warnings are raised as errors, and only those. Starting without an existing log directory is an error and writes nothing.",
  ["inputs", "configurations", "histories"], "every profile (level, mode, directory), every sequence of script starts, messages and warnings, over several processes sharing a directory",
  "No test starts logging.",
  ["echidna/utilities.py", "echidna/settings.py"],
  [("start_logging", "echidna/utilities.py:start_logging"), ("DispatchingFormatter", "echidna/utilities.py:DispatchingFormatter"), ("user_profile", "echidna/settings.py:user_profile")],
  [("logger_set", "whether the process has started logging", "utilities.logger_set")], ["files in log_save_path", "terminal output", "return value of start_logging()"])
