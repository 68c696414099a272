HEAD = '''# Static checks for CosmoMC's Python code

This file is written by `tools/design.py` from the property table (`tools/props.py`), the text in `tools/designtext.py`,
the rules the checks declare, the planted bugs and `known_findings.txt`.

## What is checked, and how

`python3 check.py <id>` parses `/repo/python` (no file of it is imported or run), evaluates the functions a property is
anchored in *symbolically over abstract values*, and decides the property's rules on every path. No solver is used and no
code of the repository is executed. The pieces (`sa/`):

* `project.py` – modules, classes, methods, inheritance, imports of `/repo/python`.
* `terms.py` – hash-consed terms with normalising constructors (concatenation and formatting, comparisons, slices,
  sequences with repeated and optional parts, updates of dictionaries and arrays), so that different spellings of one
  computation give one term.
* `interp.py` – a path-sensitive abstract interpreter: branches split the state and record *path facts*, joins give
  conditional values, loops are summarised (element of the iterated collection, loop-carried values, appended elements as
  repeated parts, counters recognised), calls of repository functions are inlined on demand and **helpers unknown to the
  checked version are always inlined** (`vocabulary.json` lists the known names), so extracting a helper changes nothing.
  Effects (calls, stores, file and process operations, yields, breaks, raises) are recorded as events with their facts,
  loops and order.
* `logic.py` – propositional reasoning over path facts; `checks/quant.py` adds bounded quantifiers (any/all/set
  operations/early returns) and compares conditions exactly by decision diagrams.
* `alias.py` – which arrays may share memory; `dims.py` – inference of rows/columns, weights, units (scaling degrees);
  `strings.py` – abstract strings (symbolic words, numbers, paddings) with split/strip/format/% semantics.
* `report.py` – obligations, notes, evidence, known findings, exit codes.

**Verdicts.** Each rule instance is an *obligation* (construct, rule, holds or not). A violated obligation prints
`VIOLATION property=<id> replay=<file>` and names file, function and line; the replay file holds the construct, the rule
and the path facts. A construct the rule recognises but cannot decide (an unknown idiom) is a *note* in the evidence, never
an alarm: the checks are built to stay quiet on code that is merely written differently. If too few instances of a
rule are found at all (the anchor has vanished or was renamed) the check ends with exit 2, "analysis broken", rather than
passing on nothing.

**Bounds and soundness.** Every path of an analysed function is covered (loops by summary, no unrolling bound on
data). The limits are: Python dynamics not modelled (monkey patching, `exec`), numpy/scipy functions are taken at their
documented meaning, callbacks passed from outside are opaque, and an unrecognised idiom is noted instead of decided. What is
decided is the structural condition stated by the rules, not numerical values.

**Cost.** Each check takes 0.3–15 s on one core. The analysis is complete for its rules at that cost, so the quick and
the thorough command run the same analysis.

**Checking the checks.** `tools/mutate.py` applies the broken and the equivalent rewritings in `tools/variants/` to a
scratch copy and compares the verdict with the expectation; `tools/seed.py` makes a planted bug (patch, demonstration,
stable tests) in a scratch copy. Neither is used by a check.

## Properties decided
'''
HOW = {
'P01': '''The caches are found, not listed: every attribute of the sample classes that holds a value computed from samples,
weights or likelihoods (or from another such attribute). A data-flow over all methods (with callees) gives for each exit
which of the three arrays may have changed since each cache was last reset or recomputed; reads of caches require
"current". Oracle: the dependency relation inferred from the code that fills each cache.''',
'P02': '''Arrays carry a *row space*: the identity of the row selection they came from (all rows of file f, mask m of
rows r, rows i…j of chain k, …). At every hand-over and method exit the three arrays must have the same row space. Boolean
masks, index lists, slices, concatenations over chains and offsets are tracked symbolically, so the result holds for every
number and length of chains.''',
'P03': '''Positions carry the list they index. A column read or written for a parameter must use the position of that
parameter in the list describing the columns; deletions must remove equal position sets from names, columns and each
chain.''',
'P04': '''All paths of loadMCSamples that return an unpickled object are enumerated with their facts; each must imply
the conditions of the statement (age against each input file, version, burn-in, weight cut, settings applied after).''',
'P05': '''All places that cut rows, set the cut, or record it are found by effect; each path must cut once, and never
where the facts say the chain is nested, importance-sampled or already treated.''',
'P06': '''Every store of results is found with its keys: in the convolution functions (`cache`), the plotter's analyser and the
samples. **keys**: the interpreted value stored must be determined by the components of its key (an argument or attribute the value
depends on and the key does not is a violation; for a lookup likewise what the function computes otherwise). **identity**: caches keyed
by `id()` must be made in the calling function; for every call that lets an array be cached, no temporary is cached when an array made
later is looked up, and no cached array is changed in place or replaced between two cached uses (order of statements and loops of
the caller). **untouched**: no in-place operator, `normalize`/`setP` or attribute assignment reaches an object handed out by a
store, through shallow copies included. **densities**: the samples return or keep a density only where no overriding settings are
given, under its own name. **current**: before a kept result of the plotter is looked up, a pending update is done and results are dropped under a
comparison with an object which every update replaces. Assumes the samples are changed through their methods (P01).''',
'P07': '''Files: the text written for symbolic parameters (one, several or no label words, sampled or derived, one to three limits of
each kind) is evaluated to abstract strings, and these are fed to the reader's own code, evaluated over abstract strings; every value has
to come out under the name it was written for. Values are assumed to be finite and of exponents of two digits (with three digits the
columns of the format run together; no claim). Tables: the rows, headings and titles are evaluated for every number of columns (1-3),
results (1-3), values per result (1-2), of parameters in the last row and for a missing parameter, and compared cell by cell. The
layout of rows, the kinds of limit, the text of values and the best fit's dictionary are compared with reference formulas as in P10.''',
'P08': '''The functions which make limits are interpreted to symbolic values, and so are reference formulas written next to the
rule (the statement spelled out: which ends, quantiles and tag in which case). Both are split into the cases of their conditions and
compared in each feasible case up to the laws of arithmetic, the usual spellings of the same array function and equivalent quantiles
(`sa/algebra.py`, `checks/refspec.py`); how the code reaches the value does not matter. A case using functions the reference does not
know is reported as not decided. The level of equal-density limits is taken as given (its interpolation is a matter of accuracy).''',
'P09': '''Stores into the settings table, recursive reads, raised errors, conversions and saved lines are compared with the
statement by path facts.''',
'P10': '''As P17: each function is interpreted next to its definition and results, attributes, stored elements (place and value), arguments of
constructed densities and the inputs refused are compared case by case. The corrections at prior boundaries are written out from the
moments of the cut kernel, so any other arrangement of the same algebra agrees and a wrong moment, sign or end does not; the masks are
elements stored, decided for either end and either axis. Attributes which the project only ever sets to truth values are compared as
such. The iterated bias removal inside a loop is compared only where its values can be extracted (the rest is noted, not judged);
the automatic bandwidths, and whether an estimate is close to the true density, are out of reach (P41).''',
'P11': '''The writer is evaluated on symbolic parameters to abstract strings; each of these is fed to the reader\'s own
code, evaluated over abstract strings; the parameter coming out must be the one that went in.''',
'P12': '''Every element store of a matrix is expressed as (row position, column position, source element, factor); these are
compared with the statement for all orders and overlaps of names.''',
'P13': '''Table updates are expressed as symbolic map updates; the order of file effects decides the crash property
(write to a temporary file, close, then one rename over the old file: any stop leaves a complete index).''',
'P14': '''An effect inventory (file creation, writing, removal, renaming, copying, process start, directory creation),
found interprocedurally, must be dominated by the guard; the facts of each effect are compared with the selection asked for.''',
'P23': '''Dimension analysis: each term has a degree in the weights, in the unit of its parameter and a behaviour under shifts;
statistics must have degree 0 in the weights and the declared degree in units, sums over samples must carry weights once, and
quantities of a row selection must only use arrays restricted to it.''',
'P15': '''Constructors, `makeImportance`, the name functions and `makeItems` are interpreted to symbolic terms and every field
of a run (name, tags, roots, paths, settings) is compared with its specification as a text built from its own base, parameters
and data, in each case of the choices inside. `makeGrid` is interpreted with the settings files tracked as layered dictionaries:
at each save the layers (parameters, options, outputs, action, data settings) and default files are compared in content, condition
and order, and the file they are saved under with the run they belong to.''',
'P16': '''Every function of the two libraries (about 660) is interpreted once; each in-place change (item assignment or deletion,
mutating method, in-place operator on a container or array, `out=`, `overwrite_…=`, and methods which change a parameter list, range
or settings object) is traced back through views, elements, fresh containers, attributes and functions which return their argument to
the object it may belong to. Changes of parameters are propagated to callers, by keyword for `**kwargs`, until nothing is added. A
public function must have none apart from the listed outputs (axes, convolution caches, parameter objects, the object being filled);
a field which still holds an argument when the method ends must not be changed in place anywhere in its class hierarchy; likewise
default values, tables and default objects of modules. Attributes set on an object passed in are not counted (the plotter's settings
object is shared with the caller on purpose).''',
'P17': '''As P08: each function is interpreted next to its definition, written as source beside the rule; results, attributes set and
array elements stored are compared in every feasible case up to the laws of arithmetic. Weighted sums are one linear form however
they are spelled (dot products, sums, averages), accumulation in a loop is a sum, products of matrices are associative and linear.
Both sides are compared with calls kept and with calls expanded; a violation is reported only if neither agrees and the value is made
of known ingredients. The Fourier method behind the autocorrelation and the approximate effective numbers of kernel estimates are
taken as given (P41).''',
'P18': '''As P10: each function is interpreted next to its definition (moments of the mixture, density, rejection of samples outside the
limits, marginal and conditional mixtures, ranges, grids, the one- and two-dimensional forms) and all values are compared in canonical
form, case by case. Numerical accuracy and the quality of the random numbers are out of reach.''',
'P19': '''The code which reads the settings is interpreted: each setting of the default settings file has to be read on every
path, its value stored under the attribute of the same name (numbered settings with the index the value is used for), and nothing may
assign that attribute after the settings have been applied. The type of the default assigned in the constructor decides how text is
converted, so a setting documented as real needs a real default. Each per-call setting has to be taken from the call, else from the
samples, under the same name, and a function which allows an override may not also read the attribute. An attribute which is set but
read nowhere is a setting with no effect. The order of the merges decides preference (call over folder over file over defaults), the
facts at the folder merge decide whether the chains were found there. Every attribute used on a plot settings object has to be one the
class defines or documents. Not decided: whether the value of a setting gives the numerically best result.''',
'P22': '''`getDefaulted` is interpreted and its result decided for each first source that is given; every setting must be
read under its own name from arguments and template. `submitJob` is interpreted with the settings constructor inlined, for a list
of files and for a single file: the values present in the placeholder table when the script is written are compared, as products
of the settings, with their specification in each case; the command list must have one entry per file. The placeholders and
defaults in the job templates of the repository are matched with the keys of that table.''',
'P24': '''Each predicate is turned into a boolean formula over atoms (option given, member of, exists element …) from all of
its return paths, and compared with the formula of the specification by decision diagrams; the condition of each effect in
the scripts likewise. Compared exactly: a case in which they differ is printed.''',
}
TAIL = '''
## False alarms met while building, and what was done

Every alarm raised on an equivalent rewriting (`@ok` variants) was treated as a fault of the check and removed by
normalising the terms compared or by turning the rule instance into a note; examples are comparisons moved across the
inequality sign, emptiness tests by `len` or truth, numbers compared with 0 or tested directly (P24), and loops rewritten as
comprehensions or the reverse (all checks). None of these is listed as a known finding.
'''
