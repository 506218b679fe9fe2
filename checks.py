"""What each check builds: harness sources, modules of /repo whose sources are compiled in, build variants, rule."""
CHECKS = {
    "C01": dict(harness=["C01_threadpool.cpp", "common/schedule.cpp"], modules=["AlexandriaKernel"], variants=["plain", "tsan"],
                libs="-ldl", mult={"tsan": 0.5},
                rule="at least two threads with more tasks than threads, or a task that throws, or a destruction with tasks submitted; distinct = different choice sequence"),
    "C02": dict(harness=["C02_text_utils.cpp"], modules=["Configuration:ProgramOptionsHelper"],
                rule="a list of at least two elements, or a search that has to tell requested from other options"),
    "C09": dict(harness=["C09_kdtree.cpp"], modules=[],
                rule="the tree is split (more points than a leaf holds) and the query has points inside and outside"),
    "C05": dict(harness=["C05_ndarray.cpp"], modules=[],
                rule="a history with a view (slice, reshape or deep copy of a view) and a write; an iterator walk over a view; a shape whose size needs more than 32 bits"),
    "C06": dict(harness=["C06_ndreduce.cpp"], modules=["NdArray"],
                rule="an array of at least two dimensions with more than three elements (integrals: at least two knots); an index above zero into at least two dimensions"),
    "C07": dict(harness=["C07_npy_roundtrip.cpp"], modules=["NdArray"], libs="-lboost_iostreams -lboost_filesystem -lboost_regex",
                rule="an array of at least two dimensions or with named fields, or a mapped file that was grown"),
    "C08": dict(harness=["C08_npy_malformed.cpp"], modules=["NdArray"], libs="-lboost_iostreams -lboost_filesystem -lboost_regex", fuzz=True,
                rule="a file cut short, or damaged so that it is refused, or arbitrary bytes"),
    "C03": dict(harness=["C03_filepool_limit.cpp", "common/schedule.cpp"], modules=["FilePool"], variants=["asan", "tsan"], mult={"tsan": 0.4},
                rule="a history with an eviction that ends with descriptors open; threads that together open more files than the limit"),
    "C04": dict(harness=["C04_filepool_exclusion.cpp", "common/schedule.cpp"], modules=["FilePool"], variants=["plain", "tsan"], mult={"tsan": 0.4},
                rule="threads of which some write and some read; a file reached through two spellings of its path"),
    "C10": dict(harness=["C10_grid.cpp"], modules=[],
                rule="a history with a slice, or an iterator restricted after it moved; an infimum beyond the first of several knots"),
    # archives tell objects by their addresses: variables on the stack have to have the same ones from call to call, as without sanitizers
    "C11": dict(harness=["C11_grid_io.cpp"], modules=["Table", "XYDataset"], asan=":detect_stack_use_after_return=0",
                rule="a slice, or a grid of several axes and more than two cells, or a second grid in the same file"),
    "C13": dict(harness=["C13_ascii_roundtrip.cpp"], modules=["Table"],
                rule="a table of several rows and several columns"),
    "C12": dict(harness=["C12_fits_roundtrip.cpp"], modules=["Table"],
                rule="several tables in a file, or one of several rows and columns; a column FITS cannot hold"),
    "C15": dict(harness=["C15_table_model.cpp"], modules=["Table"],
                rule="a cell of the wrong type or text; columns that differ; a cast between different types or of several values"),
    "C14": dict(harness=["C14_ascii_text.cpp"], modules=["Table"], fuzz=True,
                rule="a text of several rows and columns; a damaged table; arbitrary text that is a table"),
    "C18": dict(harness=["C18_interpolation.cpp"], modules=["MathUtils", "XYDataset"],
                rule="more than two different samples; an integral that is not zero; samples that have to be refused"),
    "C19": dict(harness=["C19_ndinterp.cpp"], modules=["MathUtils", "XYDataset", "NdArray"],
                rule="a grid of several axes or values with more than three cells; a grid that has to be refused"),
    "C20": dict(harness=["C20_functions.cpp"], modules=["MathUtils", "XYDataset"],
                rule="a function of several pieces (integrals: not zero); a derivative or antiderivative of more than two coefficients; a function without an integral of its own; knots and functions that do not fit"),
    "C21": dict(harness=["C21_numerical.cpp"], modules=["MathUtils", "XYDataset"],
                rule="a function that is no cubic over a range that is not empty; a refinement; a curved function; two different solutions; a refused order or equation"),
    "C22": dict(harness=["C22_cumulative.cpp"], modules=["MathUtils", "XYDataset"],
                rule="more than two samples; knots that have to be refused"),
    "C23": dict(harness=["C23_modes.cpp"], modules=["MathUtils", "XYDataset"],
                rule="more than one mode"),
    "C24": dict(harness=["C24_sampler.cpp"], modules=["MathUtils", "XYDataset", "NdArray"],
                rule="a density of more than two values; a grid that has to be refused"),
    "C17": dict(harness=["C17_histogram.cpp"], modules=["Histogram"],
                rule="values in a histogram of more than one bin; counts in more than one bin; a clip of more than two bins"),
    "C29": dict(harness=["C29_qualified_name.cpp"], modules=["XYDataset:QualifiedName"],
                rule="a name with at least one group; at least two different names to compare"),
    "C30": dict(harness=["C30_datasets.cpp"], modules=["XYDataset", "Table"],
                rule="a dataset of more than one point; a tree with several datasets in directories; a root that has to be refused"),
    "C27": dict(harness=["C27_catalog.cpp"], modules=["SourceCatalog", "Table"],
                rule="more than two sources with different ids; a table of several rows that makes a catalog"),
    "C28": dict(harness=["C28_photometry.cpp"], modules=["SourceCatalog", "Table"],
                rule="several filters, or a row that has to be refused"),
    "C32": dict(harness=["C32_config_manager.cpp"], modules=["Configuration", "SourceCatalog", "Table"],
                rule="more than one dependency between registered configurations"),
    "C26": dict(harness=["C26_som.cpp"], modules=["SOM", "GridContainer"],
                rule="a map of more than one row and column (files: not a square; training: with inputs and iterations; samples: of several inputs)"),
    "C25": dict(harness=["C25_cosmology.cpp"], modules=["PhysicsUtils", "MathUtils", "XYDataset"],
                rule="a redshift above zero in a universe that reaches it"),
    "C33": dict(harness=["C33_catalog_config.cpp"], modules=["Configuration", "SourceCatalog", "Table"],
                rule="a catalog of several sources with photometry or redshifts"),
}
