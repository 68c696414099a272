NOTE = 'static rule decided on every path of the analysed source; it decides the structural condition described in DESIGN.md, not numerical values'
PROPS = [
 dict(id='P01', title='Statistics always describe the current samples',
      statement='After any operation that changes the samples, their weights or their likelihoods, every statistic, density or limit subsequently '
                'asked of the samples object describes the new contents; a value cached before the change is never returned again.',
      over=['histories'], q='every sequence of modifying operations (filtering, thinning, reweighting, cooling, burn-in removal, adding or deleting parameters) and queries',
      why='Tests query fresh objects or after one fixed modification; a stale cache only shows for particular orders of queries and changes.',
      files=['python/getdist/chains.py', 'python/getdist/mcsamples.py'],
      mech=['WeightedSamples._weightsChanged resets every cached statistic', 'MCSamples.updateBaseStatistics refreshes densities, limits and likelihood statistics', 'needs_update flag consulted by queries'],
      technique='typestate data-flow analysis of cache validity over all methods of the sample classes', note=NOTE),
 dict(id='P02', title='Samples, weights and likelihoods stay paired row by row',
      statement='Every operation that selects, drops, joins or splits samples applies the same row selection, in the same order, to the parameter values, the weights and the '
                'likelihoods, so each row keeps its own weight and likelihood; chains split out of a combined set contain exactly their own rows; files written and read back keep the same columns and rows together.',
      over=['inputs', 'histories'], q='every row selection (boolean mask, index list, slice), every number and length of chains, with or without likelihoods, every sequence of operations',
      why='Tests check a few selections on samples where a mispairing is statistically invisible; they never compare row identity through sequences of operations.',
      files=['python/getdist/chains.py', 'python/getdist/mcsamples.py'],
      mech=['WeightedSamples.setSamples/filter/thin/weighted_thin/removeBurn', 'Chains.makeSingle/getSeparateChains and chain_offsets', 'saveAsText/setColData column layout'],
      technique='row-space inference (abstract interpretation of array provenance) at every hand-over and method exit', note=NOTE),
 dict(id='P03', title='Parameter names, columns and values stay matched',
      statement='The value reported for a parameter is always that of its own column: looking up a name gives the column at that name\'s position or an error, never another column; '
                'a list of names of another length than the columns is refused and a name cannot be added twice. '
                'Adding a parameter puts its values and its name last; removing constant parameters removes the same positions from the names and from every chain, only parameters constant in all chains, and keeps each fixed value under its own name.',
      over=['inputs', 'histories'], q='every parameter list (base and derived in any order), every sequence of additions and removals, every number of chains, every lookup by name, position or parameter object',
      why='Tests use samples whose parameters are all varying and in base-then-derived order, so shifted or stale positions are invisible.',
      files=['python/getdist/chains.py', 'python/getdist/mcsamples.py', 'python/getdist/paramnames.py'],
      mech=['Chains._getParamIndices, _parAndNumber, _makeParamvec', 'Chains.addDerived and ParamList.addDerived', 'deleteFixedParams and ParamList.deleteIndices', 'getParamSampleDict, setParams'],
      technique='index-provenance analysis: each column position paired with a parameter must originate from the same list position', note=NOTE),
 dict(id='P04', title='Samples loaded through the disk cache equal samples read from the files',
      statement='Loading a chain returns, whether or not a cached copy exists, what reading its files with the settings of the present call would give: the cached copy is used only when caching is allowed, '
                'it is newer than every file the samples are built from (chains, parameter names, ranges, properties, yaml inputs) and it was made by the same format version with the same burn-in, weight cut and limits; '
                'the settings of the present call, and only those, are then applied to it. Chains of the same name in different directories never share a cached copy, and an unusable copy is ignored.',
      over=['histories', 'inputs'], q='every history of loads, settings changes and file modifications, every chain root and settings',
      why='Whether a stale cache is returned depends on file times, settings of earlier calls and directory layout that the tests never vary.',
      files=['python/getdist/mcsamples.py', 'python/getdist/chains.py'],
      mech=['loadMCSamples: cache file name, age test, version and settings guards, updateSettings on the cached object', 'last_modified'],
      technique='path-sensitive value-flow: facts established on every path that returns the unpickled object', note=NOTE),
 dict(id='P05', title='Burn-in is removed exactly once',
      statement='The configured burn-in (a number of rows if at least one, otherwise a fraction) is removed from the start of every chain exactly once, before chains are joined, and equally from values, weights and likelihoods. '
                'Nothing is removed from nested samples, importance-sampled chains or chains recorded as already treated (in their properties or in the sampler information), and removal is recorded with the saved samples so that loading or copying them never removes it again. '
                'The batch scripts that analyse or copy grids of chains obey the same rule.',
      over=['inputs', 'histories', 'configurations'], q='every burn-in setting, number of chains, sampler type and history of saving, copying and reloading',
      why='Losing or doubling the cut only changes how many rows remain; tests generate samples without burn-in and never reload post-processed chains.',
      files=['python/getdist/mcsamples.py', 'python/getdist/chains.py', 'python/getdist/cobaya_interface.py', 'python/paramgrid/batchjob.py', 'python/runGridGetdist.py', 'python/copyGridFiles.py'],
      mech=['MCSamples._setBurnOptions and readChains', 'Chains.removeBurnFraction, loadChains', 'burn_removed property: MCSamples.__init__, jobItem.isBurnRemoved', 'runGridGetdist ignore_rows, copyGridFiles doCopy'],
      technique='path-fact and value-flow analysis of every place rows are cut or the cut is configured or recorded', note=NOTE),
 dict(id='P06', title='A kept result is only reused for the inputs it was computed from',
      statement='A density, set of sample points or transform kept for reuse is handed out again only for the parameter, options and settings it was computed with and while the samples are as they were then; a request with overriding settings neither uses nor replaces the result kept for the default settings. '
                'Convolutions sharing a cache give the same numbers as without it: each array whose transform is kept stays alive and unchanged for as long as the cache is used. '
                'Using or drawing a kept result does not change it.',
      over=['inputs', 'histories'], q='every sequence of requests and of changes of the samples in between, and every combination of options',
      why='A wrong reuse needs a particular earlier request, or a freed array whose address is used again; each request alone gives the right answer.',
      files=['python/getdist/convolve.py', 'python/getdist/mcsamples.py', 'python/getdist/plots.py'],
      mech=['convolution caches', 'densities kept by the samples and the plotter', 'sample_analyser of the plotter'],
      technique='value-flow analysis of memo keys (stored value determined by key), lifetime/aliasing analysis of identity-keyed caches, effect analysis of results handed out', note=NOTE),
 dict(id='P07', title='Result tables and result files keep every value under its own heading',
      statement='A file of marginalised limits, and the summary of likelihoods, reads back as the same means, deviations, limits, kinds of limit and labels of the same parameters, whatever the number of limits or the length of names and labels. '
                'Every row of a results table has exactly one cell for each heading, in the order of the headings, whichever parameters a result lacks; every parameter is in exactly one place of the table. '
                'Values shown are those of the parameter named in the row: a two-sided limit as mean with its upper and lower differences, a one-sided limit with the sign and end of its kind, the best fit and the shift from the reference by their definitions.',
      over=['inputs', 'configurations'], q='every set of parameters, labels, limits and results, number of columns and combination of table options',
      why='Tests compare one table of two parameters; a missing parameter, an empty label, a second limit, several columns or a one-sided limit are never tried.',
      files=['python/getdist/types.py'],
      mech=['MargeStats.__str__, loadFromFile, headerLine, texValues, addBestFit', 'LikeStats.likeSummary, loadFromFile', 'ResultTable.__init__, addFullTableRow, addHeaderRow, addTitlesRow', 'BestFit.texValues, getParamDict; ParamLimit'],
      technique='symbolic evaluation of the text written, fed to the symbolic reader (abstract strings with symbolic names, labels and numbers); symbolic rows of a table for every number of columns, results and values; reference formulas in canonical form', note=NOTE),
 dict(id='P08', title='Marginalised limits have the probability and direction they claim',
      statement='For each requested probability a parameter gets one limit, in that order: two-tail with the excluded probability split equally, or between points of equal density when the density differs too much at the two ends; a one-tail limit with all of it on the open side and the prior end on the other when the density is high at one prior end; and none when it is high at both. '
                'The kind, the tag, the two ends and the sign in tables and titles always agree, and the limit quoted is the one asked for. '
                'The extent of the N-dimensional confidence region is that of the most likely samples whose weights sum to the stated fraction.',
      over=['inputs', 'configurations'], q='every sample set, weighting, set of probabilities, combination of prior ends and density thresholds',
      why='Tests check a two-tail limit of one smooth distribution; one-tail limits, bounded ends, equal-density limits and weights are not sampled.',
      files=['python/getdist/mcsamples.py', 'python/getdist/chains.py', 'python/getdist/densities.py', 'python/getdist/types.py'],
      mech=['MCSamples._setMargeLimits, _setLikeStats, _initLimits', 'WeightedSamples.confidence, initParamConfidenceData, twoTailLimits', 'Density1D.getLimits, initLimitGrids', 'ParamLimit, MargeStats.texValues, getLatex, ResultTable'],
      technique='symbolic values of limits, quantiles and flags compared with reference formulas case by case up to the laws of arithmetic', note=NOTE),
 dict(id='P09', title='Settings files: precedence, missing values and saving are exact',
      statement='A setting takes the value of the file that defines it: the file itself and the files it includes, and only where neither defines it the default files; defining a name twice is an error and nothing already defined is overwritten; relative file names are taken relative to the file naming them. '
                'A defined setting is returned converted to the requested type, an undefined or (for typed values) empty one gives the caller\'s default or an error if there is none, and booleans accept only text starting T or F. '
                'Saving writes every setting exactly once with its current value to the named file, or to the file that was read.',
      over=['inputs', 'configurations'], q='every tree of settings files with includes and defaults, every combination of defined, empty and missing settings, types and defaults',
      why='Tests use flat settings dictionaries; include trees, falsy defaults, empty values and save-after-include are never exercised.',
      files=['python/getdist/inifile.py'],
      mech=['IniFile.readFile (INCLUDE/DEFAULT recursion)', 'IniFile.asType, bool, split and typed getters', 'IniFile.fileLines, saveFile'],
      technique='path-fact analysis of every store, recursive read, returned value and saved line', note=NOTE),
 dict(id='P10', title='Density grids: axes, contour levels and boundary corrections are exact',
      statement='The range of a parameter reaches a known limit or else goes beyond the samples\' quantiles by the same margin at both ends, and samples are counted in the bin whose position on the grid they are nearest. '
                'Every stated estimate (its smoothing width, the correction at each prior boundary from the moments of the cut kernel, the removal of leading bias) follows its definition, the lower and upper end and the x and y axis being treated alike. '
                'Array dimensions belong to their axes, integrals weight the edges of the grid by one half, and a contour level is the density above which the stated fraction of the integral lies.',
      over=['inputs', 'configurations'], q='every sample, weight, prior limit at either end, smoothing and correction setting, contour fraction and grid size',
      why='Tests use Gaussian and a few truncated samples with loose tolerances; one wrong boundary, edge weight, moment or axis changes results by less than they notice.',
      files=['python/getdist/densities.py', 'python/getdist/mcsamples.py', 'python/getdist/convolve.py'],
      mech=['getContourLevels, GridDensity, Density1D, Density2D', 'MCSamples._initParam, _binSamples, _setEdgeMask2D, Kernel1D', 'MCSamples.get1DDensityGridData, get2DDensityGridData', 'convolve1D, convolve2D, convolveFFT'],
      technique='symbolic value extraction of every result and stored element, compared with reference formulas in canonical form, case by case', note=NOTE),
 dict(id='P11', title='Parameter names and ranges files are read back as they were written',
      statement='Writing a list of parameters and reading the file gives the same parameters in the same order, each with its name, label, comment and derived marker, whatever combination of these it has; blank lines are not parameters. '
                'Writing parameter ranges and reading them gives each parameter its own lower and upper limit to the written precision, a limit of zero staying a limit and a missing one staying missing, also for long names. '
                'A limit is stored and returned under its own name and end, and only an absent (N or none) or infinite limit counts as no limit.',
      over=['inputs'], q='every list of names, labels and comments of any length, every combination of present, zero and missing limits',
      why='Tests write only a few short names; labels with blanks, comments, long names, zero or missing limits are never read back.',
      files=['python/getdist/paramnames.py', 'python/getdist/parampriors.py'],
      mech=['ParamInfo.string / setFromString', 'ParamList.__str__, saveAsText, ParamNames.loadFromFile', 'ParamBounds.__str__ / loadFromFile / setRange, getLower, getUpper, fixedValue'],
      technique='abstract-string analysis: every written text shape (symbolic words, numbers, paddings) is put through the reading code', note=NOTE),
 dict(id='P12', title='Covariance matrix elements belong to the named parameters',
      statement='Row and column i of a covariance matrix belong to the parameter at position i of its names: saving writes all names in that order as a header followed by the whole matrix, and loading gives back those names and numbers (also for one parameter) or refuses a file without names. '
                'Merging keeps the first matrix\'s value for every pair of its parameters, takes other pairs from the positions of both names in the second matrix and leaves the rest zero; rescaling multiplies the row and the column of the named parameter once each; the correlation divides each row and column by its own standard deviation. '
                'The matrix obtained from samples holds exactly the non-derived parameters with their own elements.',
      over=['inputs'], q='every list of parameter names in any order, overlap of the merged matrices, scale factor and matrix size',
      why='Tests only make one covariance from samples; name order, partial overlaps, single parameters and aliasing are never compared.',
      files=['python/getdist/covmat.py', 'python/getdist/mcsamples.py', 'python/getdist/covcomb.py', 'python/getdist/covscale.py'],
      mech=['CovMat.loadFromFile, saveToFile, mergeCovmatWhereNew, rescaleParameter, correlation', 'MCSamples.getCovMat, writeCovMatrix'],
      technique='index-provenance analysis of every element read and written, with path facts', note=NOTE),
 dict(id='P13', title='The job index records every submitted job and survives interruption',
      statement='Every job submitted successfully, and no other, is recorded in the stored index of its batch directory under the id the queue reported, with its name and all of its runs; removing a job removes its own entries from every table and leaves those of other jobs, including newer ones with the same names. '
                'A stop at any moment while the index is saved leaves a complete old or new index, and every change is made to the stored index and saved back to the same place. '
                'Queue listings give, entry by entry, exactly the recorded jobs of the user that are running or waiting, as asked.',
      over=['histories', 'crash_points', 'inputs'], q='every history of submissions, resubmissions and deletions, every stop while saving, every queue listing',
      why='No test touches the job queue; the index only goes wrong after resubmissions, interruptions or with particular queue states.',
      files=['python/paramgrid/jobqueue.py'],
      mech=['jobIndex.addJob, delId', 'loadJobIndex, saveJobIndex, addJobIndex, deleteJobNames, deleteJobs', 'submitJob', 'queue_job_details, queue_job_names'],
      technique='effect-order and path-fact analysis of every table update, file effect and recorded value', note=NOTE),
 dict(id='P14', title='Nothing is changed without confirmation or in a dry run',
      statement='Without the confirmation option, cleaning up files, deleting jobs and renaming parameters of a grid change no file and cancel no job; in a dry run, copying a grid and submitting jobs create, write and submit nothing. '
                'With confirmation exactly what was selected is affected: the files of the selected runs with the selected endings, sizes, convergence and chain number, the jobs of the given ids, names, range or state, and the given parameters in the files of their own run.',
      over=['inputs', 'configurations'], q='every combination of command line options, grid contents and queue states',
      why='No test runs these scripts; a lost guard or a wrong selection deletes data for option combinations nobody tried.',
      files=['python/cleanup.py', 'python/deleteJobs.py', 'python/renameParam.py', 'python/copyGridFiles.py', 'python/runbatch.py', 'python/paramgrid/jobqueue.py', 'python/paramgrid/batchjob.py'],
      mech=['cleanup, deleteJobs, renameParam: --confirm', 'copyGridFiles, runbatch, jobqueue.submitJob: --dryrun', 'jobqueue.deleteJobs selection'],
      technique='interprocedural effect analysis: every file or process effect is dominated by the guard; selection conditions compared by implication', note=NOTE),
 dict(id='P15', title='Each run of a grid has its own name, files and settings',
      statement='A grid has one run for each data set and parameter combination of each group that is not skipped, and one importance run for each importance setting wanted that adds new data, kept unless an equivalent run exists; '
                'the name, tags, folders and files of each run are made from its own base, parameters and data, importance runs extending those of their parent, and a run is found under the same name whatever the order of its parameters and data. '
                'The settings written for each run are its own, under its own file and output name, with parameter options, group options, data settings and defaults applied in their order of precedence.',
      over=['configurations', 'inputs'], q='every grid configuration: groups, data sets, parameters, importance settings, options and defaults',
      why='No test makes a grid; two runs sharing a file or taking the settings of another only show for certain combinations of groups and settings.',
      files=['python/paramgrid/batchjob.py', 'python/paramgrid/gridconfig.py'],
      mech=['jobItem constructor and makeImportance', 'dataSet construction and extension', 'makeNormedName, normalizeDataTag, resolveName', 'batchJob.makeItems', 'makeGrid and updateIniParams'],
      technique='abstract interpretation to symbolic terms; names, paths and layered settings of each saved file compared with their specification case by case', note=NOTE),
 dict(id='P16', title='Calls leave the inputs of the caller and shared defaults unchanged',
      statement='A call of the library never changes in place a list, dictionary or array it is given, an element of one, or a parameter, range or settings object it is given, unless that argument is the documented output of the call or a flag asks for it. '
                'An object which keeps what it was given does not change it in later calls either. Mutable default values, shared tables and the default settings are the same after any sequence of calls.',
      over=['inputs', 'histories'], q='every argument of every public call, and every later call on an object which keeps it',
      why='A test that passes fresh arguments cannot see the change; it shows in the next use of the same list, settings or array by the caller.',
      files=['python/getdist/chains.py', 'python/getdist/mcsamples.py', 'python/getdist/plots.py', 'python/getdist/inifile.py', 'python/getdist/covmat.py', 'python/getdist/cobaya_interface.py', 'python/paramgrid/jobqueue.py', 'python/paramgrid/gridconfig.py'],
      mech=['all public functions of the analysis library and the grid library', 'fields set from arguments', 'default arguments and module-level tables'],
      technique='interprocedural effect analysis: least fixed point of which parameters each function may change in place, by value flow through views, elements, attributes and calls', note=NOTE),
 dict(id='P17', title='Named statistics are the ones their definitions give',
      statement='Means, variances, standard deviations, covariances, correlations and differences from the mean are the weighted averages they are named for, over all rows or exactly the rows selected, for all parameters or those asked for in that order. '
                'Autocorrelation, correlation length, effective sample number, the between-to-within-chain convergence statistic, signal-to-noise modes and the likelihood summaries (mean, mean likelihood, mean inverse likelihood, complexity) equal their documented definitions. '
                'Reweighting and cooling multiply each weight by the change of likelihood of its own sample.',
      over=['inputs'], q='every sample set, weighting, selection of rows and parameters, number of chains and offset of the likelihood',
      why='Tests compare a few moments of unit-weight Gaussian samples; selections, weights, parameter order, small chain numbers and likelihood offsets are not sampled.',
      files=['python/getdist/chains.py', 'python/getdist/mcsamples.py', 'python/getdist/convolve.py', 'python/getdist/types.py'],
      mech=['WeightedSamples.mean, var, std, cov, corr, mean_diff(s), getMeans, getVars, getCov', 'Chains.getGelmanRubinEigenvalues, WeightedSamples.getCorrelationLength', 'MCSamples._setLikeStats, getCovMat, makeSingleSamples', 'getSignalToNoise, covToCorr, cool, reweightAddingLogLikes'],
      technique='symbolic values of results, attributes and array elements compared with reference formulas case by case up to the laws of arithmetic', note=NOTE),
 dict(id='P18', title='Gaussian mixtures are consistent with their own densities',
      statement='The density, samples, mean and covariance of a mixture belong to one and the same distribution, cut at the stated limits. '
                'A marginalised mixture keeps the components and the limits of the parameters kept; a conditional mixture is the density at the fixed values, each component weighted by its own weight times its density there. '
                'Ranges and grids cover the stated number of deviations within the limits, a value given for one parameter being used for that parameter.',
      over=['inputs'], q='every number of components and dimensions, weights, covariances, limits, parameters kept or fixed and names or indices given for them',
      why='Tests use mixtures to make samples and check contours by eye or tolerance; moments, conditional weights and limits of a component are not compared.',
      files=['python/getdist/gaussian_mixtures.py'],
      mech=['MixtureND.__init__, pdf, pdf_marged, sim, autoRanges', 'MixtureND.marginalizedMixture, conditionalMixture', 'density1D, density2D; Mixture2D, Mixture1D, GaussianND'],
      technique='symbolic value extraction of every result and stored element, compared with reference formulas in canonical form, case by case', note=NOTE),
 dict(id='P19', title='Analysis settings take effect under their own names',
      statement='Every setting of the default settings file, whether it comes from a file, a dictionary or the defaults, reaches the calculation it is documented for, under its own name, with its own type and for its own index; settings given in a call override those of the file, and those override the defaults. '
                'A per-call override of a setting replaces the value of the samples in that call, and leaving it out uses the value of the samples. The settings of a chain folder apply to the chains found in that folder, and every plot setting which is documented or used exists.',
      over=['configurations', 'inputs'], q='every setting, every source it can come from, every call which can override it',
      why='A setting which is silently ignored or crossed with another leaves plausible results; tests run with the defaults.',
      files=['python/getdist/mcsamples.py', 'python/getdist/plots.py', 'python/getdist/inifile.py', 'python/getdist/analysis_defaults.ini'],
      mech=['MCSamples.initParameters, updateSettings, get1DDensityGridData, get2DDensityGridData, getAutoBandwidth1D/2D', 'MCSampleAnalysis.samples_for_root, sampleAnalyser construction', 'GetDistPlotSettings and its uses'],
      technique='abstract interpretation of the settings code; agreement of setting names, attributes, types and defaults; order of merges; def-use of every setting', note=NOTE),
 dict(id='P22', title='Job scripts run every file given with the resources asked for',
      statement='A job setting is taken from the arguments, else from the job template, else from the environment, else from its default. '
                'The script written for a job runs each parameter file given exactly once, under its own file and log names, one after another only if asked, and every placeholder of the template is replaced by its value. '
                'The numbers of nodes, chains, tasks, slots and cores in it agree with the settings and with each other for the number of runs actually in the job.',
      over=['configurations', 'inputs'], q='every combination of arguments, templates, environment and lists of parameter files',
      why='No test submits jobs; a wrong count or precedence only shows on a cluster, for particular numbers of runs per job.',
      files=['python/paramgrid/jobqueue.py', 'python/runbatch.py', 'job_script'],
      mech=['getDefaulted', 'jobSettings constructor', 'submitJob', 'replacePlaceholders, extractValue', 'job templates'],
      technique='abstract interpretation to symbolic terms; precedence decided case by case, resource values compared as products, placeholders of the templates matched with the values given', note=NOTE),
 dict(id='P24', title='Grid commands act on exactly the runs selected by options and state',
      statement='Every selection option of the grid commands (names, groups, parameters, data sets, tags, importance runs, sub-grids) selects exactly the runs it describes, combined options select exactly the runs meeting all of them, and listing a grid gives each run and wanted importance run once. '
                'Whether a run exists, is running, is finished, has converged, has been analysed or needs updating is read from the files of that run alone. '
                'Submitting runs, running the analysis and listing act once on each selected run whose state meets the options given, and on no other.',
      over=['inputs', 'configurations', 'histories'], q='every combination of options, every grid and every state of the run files',
      why='No test uses a grid; the conditions combine over twenty options with file states, and a wrong case submits, skips or repeats runs silently.',
      files=['python/paramgrid/batchjob_args.py', 'python/paramgrid/batchjob.py', 'python/runbatch.py', 'python/runGridGetdist.py', 'python/listGrid.py'],
      mech=['batchArgs matching methods and filteredBatchItems', 'batchJob.items, hasName, normed_name_item', 'jobItem state predicates', 'runbatch selection and collection of runs', 'runGridGetdist and listGrid conditions'],
      technique='symbolic path conditions of every predicate and effect compared with their specification as boolean formulas with bounded quantifiers (decision diagrams)', note=NOTE),
 dict(id='P23', title='Statistics weight every sample once and scale correctly',
      statement='Means, variances, covariances, correlations, limits by counting, histograms and effective sample numbers use the weight of every sample they sum over and are normalised by the weight of exactly those samples, so they do not depend on the overall scale of the weights; '
                'they scale with the units of the parameters and move with an offset of the parameter as such a statistic must, and a statistic of a selection uses that selection throughout. '
                'Likelihood summaries move with a constant added to all log likelihoods, and reweighting by a change D of the log likelihoods multiplies each weight by exp(-D) up to a common factor.',
      over=['inputs'], q='every set of samples, weights and likelihoods, every parameter vector and every row selection',
      why='Tests use unit weights or loose tolerances on one data set; a wrong normalisation, missing weight or mixed selection passes unnoticed there.',
      files=['python/getdist/chains.py', 'python/getdist/mcsamples.py'],
      mech=['WeightedSamples.mean, var, cov, mean_diff(s), weighted_sum, get_norm, setMeans, getVars', 'confidence and initParamConfidenceData', 'effective sample numbers, Gelman-Rubin', 'MCSamples._setLikeStats, histograms, getCombinedSamplesWithSamples', 'reweightAddingLogLikes, cool'],
      technique='dimensional (scaling and shift) type inference over every statistic, modular by method, with and without a row selection', note=NOTE),
]
NA = [
 dict(id='P40', title='Density estimates and limits converge to those of the sampled distribution',
      statement='One and two dimensional marginalised densities, confidence limits and contours estimated from samples agree with those of the distribution the samples were drawn from, within the error expected for the number of effective samples, also next to prior boundaries.',
      over=['inputs'], q='every distribution, boundary and number of samples', why='Tests compare a few Gaussian mixtures within loose tolerances.',
      files=['python/getdist/mcsamples.py', 'python/getdist/kde_bandwidth.py', 'python/getdist/densities.py'], mech=['get1DDensityGridData, get2DDensityGridData, boundary corrections, bandwidth selection'],
      reason='a statement about estimation error: the truth of a kernel estimate depends on the numerical values of all samples and of iterative bandwidth optimisation, which no static argument bounds; the structural parts (weights, units, pairing, caches) are P01, P02, P23'),
 dict(id='P41', title='Convergence and effective sample numbers are statistically valid',
      statement='The reported convergence (R-1, Raftery-Lewis, split tests) and effective sample numbers are valid estimates for correlated chains: they tend to their true values as chains grow.',
      over=['inputs', 'histories'], q='every chain and correlation length', why='Validity is asymptotic; tests see a few chains.',
      files=['python/getdist/mcsamples.py', 'python/getdist/chains.py'], mech=['getConvergeTests, getEffectiveSamples, getCorrelationLength'],
      reason='asymptotic statistical validity of numerical estimators; a static argument can only reach weighting and units (P23)'),
 dict(id='P42', title='The sampler leaves the posterior invariant and restarts exactly from checkpoints',
      statement='Chains generated by the Metropolis, slice and fast-slow samplers have the posterior as their stationary distribution, and a run restarted from a checkpoint continues as if it had not stopped.',
      over=['inputs', 'crash_points', 'histories'], q='every likelihood, proposal and stopping point', why='No test runs the sampler.',
      files=['source/MCMC.f90', 'source/propose.f90', 'source/SampleCollector.f90'], mech=['TMetropolisSampler, BlockedProposer, checkpoint reading and writing'],
      reason='Fortran sources that do not build here (CAMB and its libraries are missing) and for which no analysis front end is installed; invariance of the distribution is in any case a statement on probabilities, not on program structure'),
 dict(id='P43', title='Likelihood codes return the likelihood of the data',
      statement='Each likelihood module returns minus the log probability of its data given the theory prediction, for every allowed parameter point.',
      over=['inputs'], q='every data file and parameter point', why='No test evaluates a likelihood.',
      files=['source/CMBlikes.f90', 'source/bao.f90', 'source/mpk.f90'], mech=['LogLike functions'],
      reason='numerical agreement with published data analyses; there is no specification in the sources to compare with, and the Fortran code cannot be compiled or analysed here'),
 dict(id='P44', title='Iterative optimisation and root finding terminate with a valid result',
      statement='Bandwidth optimisation, limit searches and contour level searches terminate for every sample set and return finite values.',
      over=['inputs'], q='every sample set', why='Tests only use well-behaved samples.',
      files=['python/getdist/kde_bandwidth.py', 'python/getdist/densities.py', 'python/getdist/mcsamples.py'], mech=['fixed-point and brentq searches, searchsorted interpolation'],
      reason='termination and finiteness depend on floating point values of the samples'),
]
