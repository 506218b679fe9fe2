def D(text, note, technique="property-based testing: generated cases against a reference model"):
    return dict(text=text, note=note, technique=technique)

EXPL = "Bounded random exploration with a fixed seed; no proof. Trusts the reference model in the harness, the sanitizers and the stand-ins for Elements/CCfits in /verif/shim. "

P("C01", "Thread pool runs every task once, in order, and reports the failures",
  "Every task submitted to a thread pool is run exactly once, tasks are started in the order of submission and no more at a time than the pool has threads, and blocking returns only when all submitted tasks have finished. When tasks throw, blocking rethrows one of those exceptions, no further task is started, and the pool goes on reporting that exception. Destroying a pool waits for the running tasks and never runs a task afterwards.",
  ["schedules", "histories"], "all interleavings of the workers and the submitting thread, all task durations, all subsets of tasks that throw",
  "The tests run a handful of tasks once, under whichever schedule happens; lost wake-ups, double execution and lost exceptions need particular interleavings.",
  ["AlexandriaKernel/AlexandriaKernel/ThreadPool.h", "AlexandriaKernel/src/lib/ThreadPool.cpp"],
  [("worker loop", "AlexandriaKernel/src/lib/ThreadPool.cpp"), ("block and exception hand-over", "AlexandriaKernel/src/lib/ThreadPool.cpp")],
  D("""Generated: number of threads, tasks (durations, which throw), sleeping times of the pool, batches of submissions and blocking calls, and a
schedule perturbation (the harness interposes on `pthread_mutex_lock/unlock` and the sleeping calls and inserts seeded yields and sleeps, so no hook
is needed). Oracle: per-task start/finish counters, submission order (a task may start only when all but (threads-1) earlier ones have), a
rendezvous test that needs all threads at once, exception identity. A ThreadSanitizer build of the same harness reports data races. Excluded: a
task that submits to its own zero-thread pool (the pool documents inline execution). Cost about 20 s.""",
    EXPL + "Schedules are sampled (random perturbation plus ThreadSanitizer), not enumerated.", "property-based testing of task histories under randomised schedules, with ThreadSanitizer"))

P("C02", "Lists and wildcard option names survive parsing",
  "Parsing a text that lists values with any mix of the separators gives back exactly the values listed, in order, and a text with an element that is not of the wanted type is refused with an exception. Searching the registered options for the instances of wildcard names returns exactly the instance names for which options exist.",
  ["inputs"], "all lists of integers, reals and strings, all separators; all sets of option names",
  "The tests use a few fixed strings.",
  ["AlexandriaKernel/AlexandriaKernel/StringUtils.h", "Configuration/src/lib/ProgramOptionsHelper.cpp"],
  [("stringToVector", "AlexandriaKernel/AlexandriaKernel/StringUtils.h"), ("findWildcardNames", "Configuration/src/lib/ProgramOptionsHelper.cpp")],
  D("""Generated: lists of int, int64, unsigned, float, double and string values rendered with generated separators; the same with a damaged element;
sets of wildcard option names and registered options. Oracle: round trip, and a definition-level search. Names that are prefixes of each other, which
the matching cannot tell apart, are left out. Cost about 10 s.""", EXPL))

P("C03", "File pool keeps to its limit and accounts for every descriptor",
  "However many files are used through a file pool, and by however many threads, it never has more descriptors open than its limit: it reuses idle descriptors, closes the least recently used idle one to make room, never closes one that is in use, and fails with an exception only when it cannot close any. The numbers of used and available descriptors it reports are the true ones, also after failures to open, and every descriptor is closed exactly once when its owners are gone.",
  ["histories", "schedules", "fault_sequences"], "all histories of acquiring and releasing accessors, handlers and managers, all failures to open, all interleavings of threads that open files",
  "The tests follow a few short scripts; limit, order of eviction and accounting depend on the whole history.",
  ["FilePool/src/lib/LRUFileManager.cpp", "FilePool/src/lib/FileManager.cpp", "FilePool/FilePool/_impl/FileHandler.icpp", "FilePool/FilePool/_impl/FileManager.icpp"],
  [("eviction", "FilePool/src/lib/LRUFileManager.cpp"), ("open and close bookkeeping", "FilePool/FilePool/_impl/FileManager.icpp"), ("descriptor reuse and mode change", "FilePool/FilePool/_impl/FileHandler.icpp")],
  D("""Model-based: histories over up to five files, two descriptor types and limits 1..5 of acquire (read, write, try), release of accessor or handler,
injected failures to open, close-all, and tear-down in every order, compared after each step with a model that knows which descriptor must be open,
idle, reused, evicted (least recently handed out) or refused. The descriptors are records in a registry (OpenCloseTrait specialised in the harness), so
double closes, leaks and use of closed ones are seen. A second test lets 2-4 threads open more files than the limit under schedule perturbation;
the whole harness also runs under ThreadSanitizer; a hang is a failure. Cost about 20 s.""",
    EXPL + "Schedules are sampled.", "model-based property testing of histories with injected open failures; randomised schedules with ASan and TSan"))

P("C04", "A pooled file has one writer or many readers, whatever its path is called",
  "At any moment a file accessed through the pool has either a single writer or any number of readers, even when threads name it by different paths (symbolic links, '.' and '..'), release and re-create its handler, or force it to be closed and re-opened. Asking without blocking succeeds exactly when access is possible at once, and otherwise returns nothing. No update is lost and no request waits for ever once the accessors in its way are gone.",
  ["schedules", "histories"], "all interleavings of readers and writers over all spellings of the paths",
  "The multi-threaded test runs one fixed pattern; races between the end of one handler and the start of the next need particular interleavings.",
  ["FilePool/FilePool/_impl/FileHandler.icpp", "FilePool/src/lib/FileManager.cpp", "FilePool/src/lib/FileHandler.cpp"],
  [("reader/writer lock of the handler", "FilePool/FilePool/_impl/FileHandler.icpp"), ("one handler per canonical path", "FilePool/src/lib/FileManager.cpp")],
  D("""Generated: 2-4 threads, 1-3 files, limits, mixes of read/write/try accesses of two descriptor types, six spellings per path, handlers shared, per
thread or re-created each time, schedule perturbation. Oracle: reader/writer counters around each access, a non-atomic update counter (lost updates;
also a data race for the ThreadSanitizer build), a final try-write on every file; hangs are failures. A sequential history test compares handler
identity, try results and hasHandler with a model. Cost about 20 s.""",
    EXPL + "Schedules are sampled.", "property-based testing under randomised schedules with invariant monitors and ThreadSanitizer; model-based histories"))

P("C05", "N-dimensional arrays and their views obey row-major indexing",
  "An N-dimensional array, and every slice, reshaped or shared version of it, shows at each coordinate the element that row-major indexing of the shared storage prescribes, so a write through one is seen through all others; a deep copy has the same contents and is independent. Iterators visit exactly the elements in row-major order and behave as random access iterators. Coordinates out of range, unknown attribute names and data or shapes of the wrong size are refused with an exception.",
  ["histories", "inputs"], "all shapes, all sequences of slicing, reshaping, copying, concatenating and writing",
  "The tests index a few small arrays; views of views, copies of views and iterators over strided views are combinations they do not reach.",
  ["NdArray/NdArray/NdArray.h", "NdArray/NdArray/_impl/NdArray.icpp"],
  [("offset and stride arithmetic", "NdArray/NdArray/_impl/NdArray.icpp"), ("iterators", "NdArray/NdArray/_impl/NdArray.icpp")],
  D("""Model-based: histories of up to 25 operations over up to eight live arrays (create in six ways, write, write through an iterator, slice along the
first or last axis, reshape, deep copy, share, assign, concatenate, bad accesses, comparison); the model keeps, per array, the list of indices into a
shared vector. All elements, attributes, sizes and iterations of all live arrays are compared after each step, under ASan/UBSan. Separate tests for
iterator arithmetic and for sizes beyond 32 bits. Excluded: concatenation onto views and arrays with an axis of length zero. Known finding:
size()/iteration after concatenate. Cost about 15 s.""", EXPL))

P("C06", "Reductions over array axes equal their definition",
  "The total, the sum along an axis, the trapezoidal integral along an axis and the place of the largest and smallest element of an array or view equal what their definition gives element by element, with axes counted from either end. An axis that does not exist, or knots that do not match the axis, are refused with an exception, and flat indices convert to coordinates exactly when they are within the shape.",
  ["inputs"], "all shapes, contents, axes and knots",
  "The tests check a few arrays of fixed shape.",
  ["NdArray/NdArray/Operations.h", "NdArray/NdArray/_impl/Operations.icpp", "NdArray/src/Operations.cpp"],
  [("sum, trapz, argmax, argmin", "NdArray/NdArray/_impl/Operations.icpp"), ("unravel_index", "NdArray/src/Operations.cpp")],
  D("""Generated arrays and views (1-4 dimensions) of int, float and double; knots; axes from either end and out of range. Oracle: re-computation from the
flat row-major values in long double, with an error bound from the magnitudes (exact for integers). Ties of extremes are accepted anywhere. Cost 10 s.""", EXPL))

P("C07", "Arrays in the numpy format come back unchanged and are what numpy reads",
  "An array written in the numpy format, to a stream, a file or a memory-mapped file, reads back with the same shape, field names and bytes, and the file is one numpy would read as that array. Files as numpy writes them are read back exactly, and files of another type, byte order or memory order are refused. Changes through a writable mapping are in the file, changes through a private one are not, and appending to a mapped array either grows the file or is refused leaving it as it was.",
  ["inputs", "histories"], "all element types, shapes, field names and contents; all sequences of writes and appends to a mapped file",
  "The tests need numpy, which is not there, and check two shapes.",
  ["NdArray/NdArray/io/Npy.h", "NdArray/NdArray/io/NpyMmap.h", "NdArray/NdArray/io/_impl/NpyCommon.h", "NdArray/NdArray/io/_impl/NpyMmap.icpp"],
  [("header writer and parser", "NdArray/NdArray/io/_impl/NpyCommon.h"), ("mapped container", "NdArray/NdArray/io/_impl/NpyCommon.h")],
  D("""Generated arrays and views of the ten supported types, with and without field names (also names such as 'shape' or with brackets and spaces), with
extreme values and NaN. Oracles: round trip (bytes); an independent decoder and encoder of the format in the harness (common/npy_ref.h: strict header
grammar, 64-byte alignment); refusal of other types, byte orders, Fortran order; histories of writes and appends on mapped files against a model.
Cost about 40 s, most of it compiling.""", EXPL, "property-based testing: round trip and differential against an independent codec"))

P("C08", "Damaged numpy files are refused, never misread",
  "A numpy file that is cut short anywhere is refused with an exception, both when read and when mapped. No file contents, however damaged, make reading or mapping crash, hang or touch memory outside the file, and an array that is returned never has more elements than the file has bytes for.",
  ["inputs"], "all truncation points, all mutations of the header, arbitrary bytes",
  "The tests only read well-formed files.",
  ["NdArray/NdArray/io/_impl/NpyCommon.h", "NdArray/NdArray/io/_impl/NpyReader.icpp", "NdArray/NdArray/io/_impl/NpyMmap.icpp"],
  [("header parser", "NdArray/NdArray/io/_impl/NpyCommon.h"), ("data size checks", "NdArray/NdArray/io/_impl/NpyReader.icpp")],
  D("""Generated: valid files cut at every kind of place; headers mutated by bytes and by grammar tokens; arbitrary bytes. Oracle: exception for every
truncation; for the rest memory safety (ASan, UBSan, patterned stack), termination, element count within the file, reading and mapping agree. Headers
that ask for more than a few million elements are discarded (they are allocation requests, not errors), as are mappings with unaligned data. In the
thorough tier libFuzzer drives the same tests by coverage. Cost about 20 s.""", EXPL, "property-based mutation fuzzing under sanitizers (libFuzzer in the thorough tier)"))

P("C09", "Radius searches in a k-d tree return exactly the points inside",
  "A search in a k-d tree returns each stored point at less than the given distance from the query exactly once and no other, whatever the number of points, duplicates, dimensions and leaf size.",
  ["inputs"], "all point sets, queries and radii",
  "The tests check a few random sets with one leaf size.",
  ["KdTree/KdTree/KdTree.h", "KdTree/KdTree/_impl/KdTree.icpp"],
  [("splitting", "KdTree/KdTree/_impl/KdTree.icpp"), ("pruned search", "KdTree/KdTree/_impl/KdTree.icpp")],
  D("""Generated point sets (clustered, on lattices, with duplicates and ties in coordinates, empty to a few hundred points) in 1, 2, 3 and 5 dimensions, leaf
sizes from 4 to 100, queries on and off points, radii including exact distances. Oracle: brute force; points within rounding of the radius may go either
way. Cost about 20 s.""", EXPL, "property-based testing against brute force"))

P("C10", "Grids and their slices address one block of cells",
  "Every cell of a grid is reached by its coordinates, by its knot values' indices, by iteration and through every slice that contains it, always as the same storage, the first axis varying fastest. Iterators report the coordinates and axis values of the cell they stand on, and an iterator restricted to a knot visits exactly the cells with that knot. Coordinates or knots that do not exist are refused with an exception by the checked accesses, and the infimum of a knot value is the last knot not above it.",
  ["histories", "inputs"], "all numbers, types and lengths of axes, all chains of slices, all orders of iteration and restriction",
  "The tests slice one small grid; slices of slices, restricted iterators over slices and grids with axes of length one are combinations they do not reach.",
  ["GridContainer/GridContainer/GridContainer.h", "GridContainer/GridContainer/GridIndexHelper.h", "GridContainer/GridContainer/_impl/GridContainer.icpp", "GridContainer/GridContainer/_impl/GridIterator.icpp", "GridContainer/GridContainer/_impl/GridConstructionHelper.h"],
  [("index arithmetic", "GridContainer/GridContainer/GridIndexHelper.h"), ("slices", "GridContainer/GridContainer/_impl/GridContainer.icpp"), ("iterator and fixAxis", "GridContainer/GridContainer/_impl/GridIterator.icpp")],
  D("""Model-based: grids of one to four axes (int, double, string; sorted or not), over a vector and a cell manager of the harness; histories of writes, reads,
slices by index and by value, slices of slices, iterator walks, restrictions of moved iterators, bad coordinates, infimum queries, against a flat vector of
cells indexed by definition. All live views are compared after each step, under ASan/UBSan. Cost about 40 s, most of it compiling.""", EXPL, "model-based property testing of histories"))

P("C11", "Grids survive export and import and unfold to one table row per cell",
  "A grid, or a slice of one, written to a text or binary archive, a binary stream or a FITS file reads back with the same axes (names and knots) and the same cells, also when several grids share the file or stream and when the cells have no default constructor. Converted to a table it gives one row per cell, in order, with the knot values of the cell and its contents.",
  ["inputs"], "all axes, knot types and cell types, all slices, all numbers of grids per file",
  "The tests store one small grid each way.",
  ["GridContainer/GridContainer/serialize.h", "GridContainer/GridContainer/serialization/GridContainer.h", "GridContainer/GridContainer/GridContainerToTable.h", "XYDataset/XYDataset/serialize.h"],
  [("archives", "GridContainer/GridContainer/serialize.h"), ("FITS export and import", "GridContainer/GridContainer/_impl/FitsSerialize.icpp"), ("grid to table", "GridContainer/GridContainer/_impl/GridContainerToTable.icpp")],
  D("""Generated grids of one to four axes (int, int64, double, string, QualifiedName) with cells of five types, with and without default constructor, and slices;
written with each of the exports (several grids in one file or stream) and read back. Oracle: round trip and, for the table, the definition. FITS files
live in the in-memory stand-in for CCfits (shim/), so the FITS format itself is not judged. Cost about 50 s, most of it compiling.""", EXPL, "property-based testing: round trips"))

P("C12", "Tables survive being written to and read from FITS",
  "A table written to a FITS file, in one or several portions, by one writer or by several that go on with the table of the same name, reads back with the same column names, types, units and descriptions and exactly the same cells in the same order, whether it is read at once or in any portions and whatever other tables the file has; the numbers of rows left are the true ones and reading past the end is an exception. FITS keeps a vector or array of a single element as a plain value and ASCII FITS tables keep integers as 64 bit integers and reals as doubles; columns FITS cannot hold (vectors of varying length, vectors in ASCII tables) are refused with an exception.",
  ["inputs", "histories"], "all column types and cell values, all divisions of the rows among writes and reads",
  "The tests write and read one fixed table; portions, single characters, single elements and several tables per file are not combined.",
  ["Table/src/lib/FitsWriter.cpp", "Table/src/lib/FitsReader.cpp", "Table/src/lib/FitsWriterHelper.cpp", "Table/src/lib/FitsReaderHelper.cpp"],
  [("formats and shapes of columns", "Table/src/lib/FitsWriterHelper.cpp"), ("types of columns", "Table/src/lib/FitsReaderHelper.cpp"), ("row bookkeeping", "Table/src/lib/FitsReader.cpp")],
  D("""Generated tables of up to five columns of all types (strings of one character, vectors of one element, arrays of 1-3 dimensions), written in random
portions, read with random sequences of read, skip, rowsLeft, hasMoreRows, getInfo, getComment, against a model. CCfits is the in-memory stand-in of shim/,
so the bytes of the FITS format are not judged. Strings wider than the first portion of their column (FITS columns have a fixed width), blanks
around strings (FITS pads) and vectors without elements are left out. Cost about 20 s.""", EXPL, "property-based testing: round trip and model of the reader"))

P("C13", "Tables survive being written and read as ASCII text",
  "A table written as ASCII text, in one or several portions, with any comment indicator and with or without the column descriptions, reads back with the same columns (names, types, units, descriptions) and the same cells: integers, booleans, strings (also with blanks, quotes and backslashes) and vectors and arrays exactly, reals to the six digits that are written. It does so from a stream or a file of any size, at once or in portions of any size mixed with skipping; the rows left are always counted right, reading past the end is an exception, and reading the comment changes nothing. This holds for text that does not contain the comment indicator.",
  ["inputs", "histories"], "all column types, names and cell values, all divisions of the rows among writes and reads",
  "The tests write one table and read others; they never read back what was written.",
  ["Table/src/lib/AsciiWriter.cpp", "Table/src/lib/AsciiWriterHelper.cpp", "Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp"],
  [("writer", "Table/src/lib/AsciiWriter.cpp"), ("reader", "Table/src/lib/AsciiReader.cpp"), ("detection of the columns", "Table/src/lib/AsciiReaderHelper.cpp")],
  D("""Generated tables (all fifteen cell types, extreme values, NaN, infinities, empty vectors; names and strings with blanks, quotes, backslashes), comments,
indicators, portions; read back from a stream, a file, or a stream that claims to be beyond 2 GB, with random sequences of read, skip, rowsLeft,
hasMoreRows, getInfo and getComment against a model. Units and descriptions are words separated by single blanks. Cost about 25 s.""", EXPL, "property-based testing: round trip and model of the reader"))

P("C14", "ASCII tables are read as documented, and damaged ones are refused",
  "Any text in the documented format gives the table it describes: columns named and typed by the description comments, by the line with the names, by the user, or col1, col2...; any blanks, blank lines, comments, line ends, spellings of types and booleans. A cell that is not of its column's type (also one that does not fit in the integer type), a line with another number of cells, duplicate names, an unknown type, a missing table or names and types of the wrong number are refused with an exception. No text at all makes the reader crash, hang or return a table that disagrees with the rows it counts.",
  ["inputs"], "all layouts, comments and spellings; all damages; arbitrary text",
  "The tests read a few fixed texts.",
  ["Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp"],
  [("detection of names and descriptions", "Table/src/lib/AsciiReaderHelper.cpp"), ("conversion of cells", "Table/src/lib/AsciiReaderHelper.cpp")],
  D("""Generated: a logical table rendered with random layout (order and presence of descriptions, type synonyms, upper and lower case booleans, quoting,
tabs, CRLF, trailing comments, no final newline) and compared with what the reader returns; the same with one damage of a kind that must be refused; and
random token soup under ASan/UBSan, where only self-consistency is required. libFuzzer drives the same tests in the thorough tier. Cost 17 s.""", EXPL,
    "property-based testing: rendered documents against their model, mutation fuzzing under sanitizers"))

P("C15", "Tables hold exactly what was put in, and refuse what does not fit",
  "A row gives back its cells by index, by name and by iteration, and a table its rows; rows with another number of cells, cells of another type than their column, strings that are empty or contain line breaks, duplicate or empty column names, rows of different columns in a table, and indices or names that do not exist are refused with an exception. A cell converts to another type exactly when no information of its kind is lost (booleans and integers to wider integers and reals, floats to doubles, scalars to vectors, text that is a number), keeping its value, and is refused otherwise, also when the number in a text is too large for the type.",
  ["inputs"], "all columns, cells and pairs of types",
  "The tests try a few cells.",
  ["Table/src/lib/Row.cpp", "Table/src/lib/Table.cpp", "Table/src/lib/ColumnInfo.cpp", "Table/src/lib/ColumnDescription.cpp", "Table/Table/CastVisitor.h"],
  [("row checks", "Table/src/lib/Row.cpp"), ("casts", "Table/Table/CastVisitor.h")],
  D("""Generated columns, rows and tables compared with the values they were made of; one violation of each kind inserted; all pairs of cell type and target type
against a table of what converts; numbers printed and cast back; texts that are no numbers or too large. Cost about 30 s, most of it compiling.""", EXPL))
P("C18", "One-dimensional interpolation passes through its samples",
  "The function made from samples with increasing x is, between two neighbouring samples, the straight line through them (linear) or the natural cubic spline through all of them (cubic spline; zero second derivative at the ends); at a sample it has the sample's value, outside of the samples it is zero, or with extrapolation the continuation of the outermost piece. Repeated samples change nothing, a single sample is a constant when extrapolated and exists only at its x otherwise, and a linear interpolation may jump (same x, different y) without affecting other places or its integral, which is the area under the lines. Samples whose numbers of x and y differ, decreasing x, no samples, and jumps in a spline are refused with an InterpolationException. The dataset overload, clones and simple_interpolation agree with it.",
  ["inputs"], "all sample lists, query points, both types, with and without extrapolation",
  "The tests compare a few points of a few curves.",
  ["MathUtils/src/lib/interpolation/interpolation.cpp", "MathUtils/src/lib/interpolation/linear.cpp", "MathUtils/src/lib/interpolation/spline.cpp", "MathUtils/src/lib/function/Piecewise.cpp"],
  [("sample checks", "MathUtils/src/lib/interpolation/interpolation.cpp"), ("spline coefficients", "MathUtils/src/lib/interpolation/spline.cpp")],
  D("""Generated samples (lattices, uneven steps, several scales, repeated samples, jumps also at the ends), queried at, just beside, between and outside of the samples.
Oracle: the local line, and a natural spline solved independently in long double; the tolerance is the rounding of polynomials kept around x = 0, so |x| stays below a few hundred spacings
(far away from zero the cubic polynomials cancel; that precision is not promised). Cost about 5 s.""", EXPL))
P("C19", "N-dimensional interpolation is multilinear",
  "A function interpolated on a grid is linear in each continuous coordinate between neighbouring knots and has the grid's value at every knot; a discrete coordinate selects its own slice, whatever the order of its knots, and is zero for a value that is not a knot; outside of the knots of any continuous axis it is zero, or with extrapolation the continuation. The order of axes is kept: for interpn coordinate i belongs to axis i of the values, for InterpN the first coordinate to the fastest (last) axis. Copies and clones agree. Unsorted continuous knots, values whose shape does not match the knots, and interpolation types other than linear are refused with an InterpolationException.",
  ["inputs"], "grids of one to four axes, mixed continuous and discrete, all query points",
  "The tests use small regular grids.",
  ["MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp", "MathUtils/MathUtils/interpolation/_impl/interpolation.icpp", "MathUtils/src/lib/interpolation/interpolation.cpp"],
  [("recursion over the axes", "MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp")],
  D("""Generated grids (one to five knots per axis, uneven, single knots; discrete axes of int, enum and string) and queries on, between and outside of the knots, compared with a recursion over the corners in
long double with a propagated rounding bound; grids damaged in one way must be refused. Cost about 10 s.""", EXPL))
P("C20", "Products, integrals and derivatives of functions",
  "The product of any two functions has, at every point, the product of their values (zero where a piecewise function has ended), however the factors are composed and in either order. A piecewise function has the value of the function of the range a point is in and zero outside, and its integral over any range, forward or backward, is the sum of the integrals of the parts; polynomials and products of piecewise polynomials integrate exactly, and derivative and antiderivative of a polynomial are those. A function without an integral of its own is integrated by the given scheme over the asked range and refused without one; a scheme is not used otherwise. Piecewise functions with decreasing knots or another number of functions than ranges are refused.",
  ["inputs"], "compositions of polynomials, piecewise functions, arbitrary functions and their products",
  "The tests multiply a few fixed functions.",
  ["MathUtils/src/lib/function/multiplication.cpp", "MathUtils/src/lib/function/function_tools.cpp", "MathUtils/src/lib/function/Piecewise.cpp", "MathUtils/src/lib/function/Polynomial.cpp"],
  [("dispatch of the multiplication", "MathUtils/src/lib/function/function_tools.cpp"), ("overlap of the ranges", "MathUtils/src/lib/function/multiplication.cpp")],
  D("""Random expressions of polynomials (also without coefficients), piecewise functions (nested, with ranges of no width, disjoint or touching) and opaque functions, up to three levels of products.
Model: a list of ranges with polynomials in long double and their magnitudes for the rounding bound; at a knot any adjacent value is accepted. Cost about 12 s.""", EXPL))
P("C21", "Quadrature, finite differences and the quadratic solver",
  "Simpson's rule is exact for cubics and of fourth order otherwise, at every order from three up, over any range; refining the previous order gives the same as computing the order directly; too low orders are refused. The adaptive integral of a smooth function is within the relative precision that was asked for. First and second finite differences are within the truncation and rounding error of their steps. The quadratic solver returns both solutions of a x^2 + b x + c = y (of a linear equation its solution twice) and refuses an equation without x.",
  ["inputs"], "polynomials, exponentials and sines, ranges, orders, precisions and coefficients",
  "The tests integrate one or two functions.",
  ["MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp", "MathUtils/MathUtils/numericalIntegration/_impl/AdaptativeIntegration.icpp", "MathUtils/src/lib/numericalDifferentiation/FiniteDifference.cpp", "MathUtils/src/lib/helpers/Solvers.cpp"],
  [("weights of the rule", "MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp")],
  D("""Generated functions with known derivatives and antiderivatives against analytic error bounds; refinement against direct computation also for functions that are random on the mesh; equations built from their solutions.
Integrals close to zero relative to the function are left out of the adaptive case: its criterion is relative. Cost about 3 s.""", EXPL))
P("C22", "Cumulative distributions and their inverse",
  "In a cumulative built from its samples or from the samples of a density, findValue gives the first sample whose value reaches the asked share of the total, or the end or middle of the samples that share this value; normalizing moves nothing; the minimal interval is the smallest interval of samples holding the asked share and the centered interval runs from where the share (1-rate)/2 is reached to where (1+rate)/2 is, never backwards. The inverse cumulative gives, for every p, a position up to which the linearly interpolated density holds p of the total, inside of the knots, not decreasing with p; for discrete knots the first knot whose cumulated share reaches p. Shares outside of their range, knots and densities of different size, and unsorted continuous knots are refused with an exception.",
  ["inputs"], "all densities (with zeros, jumps and almost flat parts) and shares",
  "The tests look up a few shares of a few distributions.",
  ["MathUtils/src/lib/PDF/Cumulative.cpp", "MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp"],
  [("interval search", "MathUtils/src/lib/PDF/Cumulative.cpp"), ("inverse of a segment", "MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp")],
  D("""Densities of whole numbers with shares that are multiples of 1/64 make every sum exact, so the expected sample is found by a plain scan over all intervals; the inverse is checked by integrating the
density up to its answer in long double. Cost about 7 s.""", EXPL))
P("C23", "Modes of a sampled density",
  "The highest modes of a sampled density are peeled off one by one: the next mode is at the highest remaining sample and takes the samples on both sides until, below (1 - merge ratio) of its height, the density rises again or reaches zero; its area and mean are those of these samples and its interpolated position the vertex of the parabola through the highest sample and its neighbours, kept inside of the density. The biggest modes are those among all modes with the biggest areas, biggest first, and never more than asked for.",
  ["inputs"], "densities with different sample values, merge ratios and numbers of modes",
  "The tests use densities of a few hand-picked samples.",
  ["MathUtils/src/lib/PDF/PdfModeExtraction.cpp"], [("range of a mode", "MathUtils/src/lib/PDF/PdfModeExtraction.cpp")],
  D("""Sums of bumps and noise on even and uneven samplings against a re-implementation of the peeling; whether the outermost sample of the density belongs to a mode is left open; the biggest modes are compared with
all the modes (only as far as the search cut after three times as many modes as asked for allows). Cost about 5 s.""", EXPL))
P("C24", "Samples follow the density of their grid",
  "Samples drawn from a grid of one or more axes follow the density of the grid: along continuous axes linearly interpolated between the knots, along discrete axes with the probability of each knot, jointly over all axes; no sample falls on a discrete value without probability or outside of the knots. Samplers made from arrays, from grids and from grids whose cells hold one more axis agree on the order of the axes. Grids that do not fit, unsorted continuous knots and output of another size than the number of draws are refused.",
  ["inputs"], "grids of one to three axes, mixed continuous and discrete, all generators",
  "The tests draw from two fixed grids and look at a histogram.",
  ["MathUtils/MathUtils/PDF/_impl/NdSampler.icpp", "MathUtils/MathUtils/PDF/NdSamplerFromGrid.h"],
  [("recursion over the axes", "MathUtils/MathUtils/PDF/_impl/NdSampler.icpp")],
  D("""1500 samples of every generated grid are mapped to the unit cube with the exact conditional distributions; every axis must pass a Kolmogorov test and every pair of axes a chi-square test, at levels that chance fails less than once in
10^11 (the generator seeds are part of the case, so a verdict is reproducible). Cost about 20 s.""", EXPL, "property-based testing: generated grids, statistical tests against the exact distribution"))
P("C17", "Histograms count every value in its bin",
  "A histogram over given edges counts (with its weight) every value inside of the edges in the one bin that contains it - closed at the left, open at the right except for the last one - and nothing else. With the square-root and Scott binnings the bins are ceil(sqrt(n)), respectively ceil(range / (3.5 sigma n^(-1/3))) bins of the same width from the lowest to the highest value, and every value (also when all are the same, or integers) is counted in one whose edges contain it. Mean and sigma are those of the bin centres weighted with the counts, and half of the counts, spread evenly over each bin, lies below the median. Clipping to a range that overlaps the histogram keeps exactly the bins from the one of the lower to the one of the upper limit, in counts, edges, bins and statistics alike; an inverted range is refused; copies do not share their clipping.",
  ["inputs", "histories"], "values (also on the edges, next to them, NaN and infinite for given edges), weights, edges, not empty data for the automatic binnings; histories of clips, copies and moves",
  "The tests use about ten values and bins of the same width, and symmetric distributions.",
  ["Histogram/Histogram/Histogram.h", "Histogram/Histogram/_impl/ComputationImpl.icpp", "Histogram/Histogram/Binning/EdgeVector.h", "Histogram/Histogram/Binning/Sqrt.h", "Histogram/Histogram/Binning/Scott.h"],
  [("bin of a value", "Histogram/Histogram/Binning/Sqrt.h"), ("statistics and clip", "Histogram/Histogram/_impl/ComputationImpl.icpp")],
  D("""Every value has a different power of two as weight, so the counts tell which value went into which bin; edges are compared with a plain scan. Statistics against long double sums and the inverse of the
cumulative counts (any median is accepted); clips against a model of the first and last bin. Cost about 5 s.""", EXPL))
P("C29", "Qualified names",
  "A qualified name made of a string and one made of the groups and the dataset name are the same; groups, dataset name, full name and printed form agree, through copies, moves, assignments and Boost archives. Empty parts, and parts with a slash, are refused with an exception. Two names are equal exactly if their full names are, equal names have equal hashes, < is a strict total order consistent with equality, AlphabeticalComparator orders by the full name, so that ordered and unordered maps find every name again. A name belongs in a group exactly if the parts of the group's name are the first of its groups (not if only the letters match).",
  ["inputs"], "names of arbitrary non-empty parts (also with blanks, dots and other than ASCII), one to five parts",
  "The tests compare a handful of names.",
  ["XYDataset/src/lib/QualifiedName.cpp", "XYDataset/XYDataset/QualifiedName.h", "XYDataset/XYDataset/serialize.h"],
  [("belongsInGroup, comparison", "XYDataset/src/lib/QualifiedName.cpp")],
  D("""Names from a small alphabet of parts (so that prefixes and repetitions are common) compared pairwise and in triples against vectors of strings. Cost about 3 s.""", EXPL))
P("C30", "Datasets are found and read as they are on disk",
  "A file of comments and lines with two numbers is a dataset (with or without a final newline, blank lines or trailing comments), one whose first data line is something else is not; its points are read exactly and in order, its parameters are the values of the '# KEY : value' lines of exactly this key (joined with ';'), and its name the NAME parameter, else the match in the first non-empty line, else the file name without extension; likewise for the table of a FITS file with its name keyword. Over every directory tree, the provider lists, for every group (however many slashes around it), exactly the datasets below the directories of this name, in the order of order.txt where given and alphabetically after it, whatever the slashes at the end of the root; it returns for every listed name the points and parameters of its file, nothing for other names, and refuses two datasets of the same name and roots that are no directory. A caching provider answers the same, asking the other one at most once per group and dataset.",
  ["inputs", "histories"], "directory trees of up to three levels with order files, comments and hidden files; numbers of any size including infinities",
  "The tests read a handful of files written by hand.",
  ["XYDataset/src/lib/AsciiParser.cpp", "XYDataset/src/lib/FitsParser.cpp", "XYDataset/src/lib/FileSystemProvider.cpp", "XYDataset/src/lib/CachedProvider.cpp", "XYDataset/src/lib/XYDataset.cpp"],
  [("order of the contents, groups", "XYDataset/src/lib/FileSystemProvider.cpp"), ("name, parameters, data", "XYDataset/src/lib/AsciiParser.cpp"), ("cache", "XYDataset/src/lib/CachedProvider.cpp")],
  D("""Generated files and trees in a scratch directory together with what they are to be read as; a history of queries against that model. FITS files through the stand-in for CCfits.
Left out: order files that name an entry twice, symbolic links. Cost about 10 s.""", EXPL))
P("C27", "Catalogs hold their sources by id",
  "A catalog iterates over its sources in the order they were given in, finds each of them by its id (64-bit integer or string, which are never mixed up) and nothing else, and refuses two sources with the same id; a source hands out the first of its attributes of the type asked for, or none; copies of a catalog behave the same. A catalog made of a table has one source per row, in order, with the id of the id column (string, int32 or int64; columns of other types and missing columns are refused with an exception), and the attributes - redshift with or without error, PDF over its knots, table row, photometry - hold the values of exactly this row whatever the order of the columns; a PDF of another length than its knots is refused.",
  ["inputs"], "tables of every column order, ids of both kinds including the limits of 64 bits, attribute lists",
  "The tests use a catalog of two or three sources with small ids.",
  ["SourceCatalog/src/lib/Catalog.cpp", "SourceCatalog/src/lib/CatalogFromTable.cpp", "SourceCatalog/SourceCatalog/Source.h", "SourceCatalog/SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h", "SourceCatalog/SourceCatalog/SourceAttributes/PdfFromRow.h"],
  [("sources by id", "SourceCatalog/src/lib/Catalog.cpp"), ("id and attributes of a row", "SourceCatalog/src/lib/CatalogFromTable.cpp")],
  D("""Catalogs of up to ten sources with ids that collide in their lower 32 bits or as text, and tables with generated types, column orders and rows, against the vectors they were made of. Cost about 6 s.""", EXPL))
P("C28", "Photometry of a table row",
  "For every filter of the mapping, in its order, the photometry of a row holds the flux and error of the columns mapped to it, whatever the order and numeric type of the columns. A filter given in AB magnitudes is converted to micro-Jansky (flux 3.631e9 * 10^(-0.4 mag), error 0.4 ln(10) flux error). With missing photometry enabled, a NaN flux (magnitude) or one equal to the missing flag is marked as missing, its error 0. With upper limits enabled a negative error marks an upper limit with the absolute value as error, or the flux divided by the filter's threshold where the error is the upper-limit flag. Infinite fluxes, NaN fluxes that are not missing, zero errors, negative errors without upper limits and upper limits that are not positive are refused with an exception, and so are columns that do not exist. A photometry finds each value by its filter name and no other, in order, values are changed through its iterators only, and a copy does not change with its original.",
  ["inputs"], "rows of one to five filters, all combinations of flags, missing and limit values, magnitudes and fluxes",
  "The tests parse a few rows per flag; the combinations are what breaks.",
  ["SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp", "SourceCatalog/src/lib/Photometry.cpp", "SourceCatalog/SourceCatalog/SourceAttributes/Photometry.h"],
  [("rules of a filter", "SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp"), ("filter by name", "SourceCatalog/src/lib/Photometry.cpp")],
  D("""Rows whose fluxes and errors are drawn from ordinary values, the flags, zero, negative, NaN and infinite ones, against a function written from the rules above. Cost about 6 s.""", EXPL))
P("C32", "Configurations are registered, ordered and initialized once",
  "A manager (one per id, independent of the others) holds each configuration type once, together with everything it declares as dependency, however often and in whatever order types are registered. Extra dependencies count where both types are registered and are ignored otherwise. Closing the registration throws if the dependencies are circular, and otherwise returns every program option of the registered configurations exactly once, in its group, also when called again; after it registering throws. Initialization calls preInitialize of every configuration once before any initialize, initialize of every configuration once and after those of all its dependencies, and postInitialize of every configuration once after all of them, with the user values and the configuration in the matching state; the exception of a configuration reaches the caller and ends the initialization. Afterwards, and not before, each registered configuration (and no other) is handed out, always the same object, in its final state.",
  ["inputs", "histories"], "dependency graphs of up to eight configuration types with and without cycles, registration histories of up to two managers, failing configurations",
  "The tests register at most three types in a fixed order.",
  ["Configuration/src/lib/ConfigManager.cpp", "Configuration/Configuration/ConfigManager.h", "Configuration/Configuration/_impl/ConfigManager.icpp", "Configuration/Configuration/_impl/Configuration.icpp"],
  [("circular dependencies, order of the initialization", "Configuration/src/lib/ConfigManager.cpp"), ("registration", "Configuration/Configuration/_impl/ConfigManager.icpp")],
  D("""Eight configuration types whose dependencies, options and failures are read from the generated case and which log their calls; histories of registrations on one or two managers against the closure and the
topological order of the graph. Cost about 5 s.""", EXPL))
P("C26", "Self organizing maps",
  "The best matching unit of an input is a cell with the smallest distance (plain, weighted with uncertainties, or the user's own), returned with this distance. Training goes through the samples of each iteration in the order of the sampling policy and moves every cell by neighborhood factor times restraint factor of the way to the input, where the unit disk counts the cells closer than radius * (1 - i/n) in any direction, and Kohonen's function is a Gaussian of sigma0^(1-i/n), cut at its multiple of sigma. Bootstrap takes one of the inputs, the jackknife the number asked for of different inputs (as many as there are), of an empty set none. Projection hands every input, in order, to the cell of its best matching unit. The U-matrix (of more than one cell) holds minimum, maximum or mean distance to the up to eight neighbours. A map comes back bit by bit from binary and text archives and FITS files, and reading it with another distance is refused.",
  ["inputs", "histories"], "maps of up to 6 x 6 cells, weights of one to three dimensions, all policies and functions",
  "The test trains one map and checks nothing about it.",
  ["SOM/SOM/_impl/SOM.icpp", "SOM/SOM/SOMTrainer.h", "SOM/src/lib/NeihbourhoodFunc.cpp", "SOM/src/lib/LearningRestraintFunc.cpp", "SOM/SOM/SamplingPolicy.h", "SOM/SOM/_impl/UMatrix.icpp", "SOM/SOM/_impl/SOMProjector.icpp", "SOM/SOM/serialize.h", "SOM/SOM/serialization/SOM.h", "SOM/SOM/Distance.h"],
  [("training", "SOM/SOM/SOMTrainer.h"), ("neighborhood", "SOM/src/lib/NeihbourhoodFunc.cpp"), ("files", "SOM/SOM/serialize.h")],
  D("""Maps of random and of small integer weights (with ties: any closest cell is accepted); training against a model in long double that gives up where two cells are as close as each other within rounding.
FITS files through the stand-in for CCfits. That all inputs can be chosen by the random policies is tested over 300 draws (chance failure below 10^-20). Left out: the U-matrix of a single cell, which is undefined. Cost about 3 s.""", EXPL))
P("C25", "Cosmological distances",
  "The densities of a cosmology sum up to 1. Hubble distance, Hubble parameter, comoving, transverse, luminosity distance, distance modulus and comoving volume element follow Hogg's formulas (astro-ph/9905116) for flat, open and closed universes: the comoving distance within ten times the relative precision asked for, the others within 10^-5; at redshift zero the distances are 0, the luminosity distance 10 pc and the modulus 0.",
  ["inputs"], "matter density 0 to 1.5, dark energy 0 to 1.2, Hubble constant 20 to 200, redshifts 0 to 10 (of universes that reach them, before the antipode)",
  "The tests use one or two cosmologies.",
  ["PhysicsUtils/src/lib/CosmologicalDistances.cpp", "PhysicsUtils/src/lib/CosmologicalParameters.cpp"], [("formulas", "PhysicsUtils/src/lib/CosmologicalDistances.cpp")],
  D("""Composite Gauss-Legendre quadrature in long double and the closed formulas. Left out (one case in a thousand): where two successive coarse estimates of the adaptive quadrature agree by chance, which its
stopping rule cannot tell from convergence. Cost about 3 s.""", EXPL))
P("C33", "From the program options to the catalog",
  "With the options of the registered catalog configurations given on a command line, the manager reads the catalog they describe: the file (relative to the base directory or absolute) in the format given or detected, the id column by name or one-based index or 'ID', redshift with or without error column by name or index, the PDF columns added before, and the photometry of the filters of the mapping file ('filter flux error [threshold, default 3] [1 if in magnitudes, default 0]', comment lines allowed) without the excluded ones, with the flags for missing photometry and upper limits. Reading it whole, again, or in portions through the table reader and the converter gives the same sources. Files that do not exist or are directories, formats, names and indices that do not exist, options that exclude each other, malformed mapping files and excluded filters that are not there are refused with an exception. What needs the initialization is refused before it, and changes are refused after it.",
  ["inputs"], "tables of any column order as ASCII and FITS, mapping files, all combinations of options and 23 kinds of faults",
  "The tests check each configuration on its own with a fixed file.",
  ["Configuration/src/lib/CatalogConfig.cpp", "Configuration/src/lib/PhotometricBandMappingConfig.cpp", "Configuration/src/lib/PhotometryCatalogConfig.cpp", "Configuration/src/lib/SpecZCatalogConfig.cpp", "Configuration/Configuration/PdfCatalogConfig.h"],
  [("format, id column", "Configuration/src/lib/CatalogConfig.cpp"), ("mapping file", "Configuration/src/lib/PhotometricBandMappingConfig.cpp"), ("redshift columns", "Configuration/src/lib/SpecZCatalogConfig.cpp")],
  D("""A generated table is written to a scratch directory together with a mapping file; the options are parsed by Boost.Program_options from what the manager describes, and every source of the catalog is compared with the
row it came from (photometry with the rules of C28). One case in three has exactly one fault. Left out: empty lines and repeated filters in mapping files. Cost about 10 s.""", EXPL))
