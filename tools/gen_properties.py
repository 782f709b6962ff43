#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts is this file)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": ["src/spectrocrunch/" + f for f in files],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


prop(
    "C01",
    "Virtual file system: every backend behaves as one directory tree",
    "After any sequence of create, write, copy, move, remove and link operations on local or HDF5 paths, every observation (existence, "
    "file/directory/link kind, link destination, directory listing, file content) is the one of a plain directory tree with symbolic links. "
    "Copy, move and rename never lose or alter data: the destination has exactly the content the source had, the source is unchanged by a copy "
    "and gone after a move, and nothing outside source and destination changes. "
    "An operation that is refused (missing item or parent, item exists and no force, wrong kind of item, non-empty directory and no recursion) "
    "raises a file system error and leaves the tree unchanged.",
    ["histories"],
    "all operation sequences up to a depth over a small set of names, from several starting trees, on the local and the HDF5/NeXus backend",
    "the tests walk one hand-written history per backend; the guarantee is about every history",
    ["io/fs.py", "io/localfs.py", "io/h5fs.py", "io/nxfs.py"],
    [("Path.mkdir/mkfile/move/copy/remove/link/linkdest", "io/fs.py"), ("os calls", "io/localfs.py"), ("h5py group operations", "io/h5fs.py")],
    observe=["Path.exists", "Path.isdir", "Path.isfile", "Path.islink", "Path.linkdest", "Path.listdir", "Path.read"],
)
prop(
    "C02",
    "Open modes: read-only never modifies, exclusive never overwrites",
    "For every combination of a path's default mode, the mode requested when opening and the prior state of the file, opening a local file, an HDF5 "
    "file or an HDF5 dataset has the documented effect: r and r+ refuse a missing file, x refuses an existing one, w truncates, a keeps the content. "
    "Through a path whose default mode is read-only no file is created, truncated or modified by opening, whatever mode is requested; "
    "a refused open leaves the content of existing files and items as it was.",
    ["configurations", "histories"],
    "the full matrix default mode x requested mode x prior state x nested opens, for three kinds of file",
    "the tests use a diagonal of the matrix (one mode, no default/requested conflict)",
    ["io/localfs.py", "io/h5fs.py", "io/fs.py"],
    [("mode restriction", "io/localfs.py Path._openparams/open, io/h5fs.py h5Device.open")],
    observe=["file bytes / HDF5 tree before and after"],
)
prop(
    "C03",
    "Processing tasks are all-or-nothing under errors and signals",
    "When a NeXus processing task fails or is terminated by a signal at any point, its output process does not exist and no temporary process, entry or "
    "file is left behind; inputs and results of other tasks are unchanged. A task whose output exists has a complete output: every signal, axis, "
    "parameter and dependency is the one of an undisturbed run. Running the task again after a failure gives the same result as an undisturbed run.",
    ["fault_sequences", "crash_points"],
    "every storage operation of the task (each write-side call) is failed or interrupted in turn, for several task types",
    "tests only run tasks to successful completion",
    ["process/basetask.py", "process/nxprocess.py", "process/nxregulargrid.py", "utils/signalhandling.py"],
    [("temporary output process renamed at the end", "process/nxprocess.py"), ("teardown on exception/signal", "utils/signalhandling.py")],
    observe=["output file tree after the run"],
)
prop(
    "C04",
    "Task results are found again by their parameters, never confused",
    "Running a task whose parameters and inputs equal those of an existing result returns that result without touching it; a task that differs in a "
    "parameter or in an input gets its own result, and no run overwrites or modifies an existing result. Results are named after the requested name, with an "
    "incremented name when the requested one is taken by a different result. A stored result always remembers exactly the parameters and "
    "inputs it was made with.",
    ["histories"],
    "all histories of runs over a set of tasks differing in one parameter, in their input or in their name, with removal in between",
    "each test runs one chain once and re-runs it once",
    ["process/basetask.py", "process/nxprocess.py", "io/nxfs.py", "io/target.py", "utils/hashing.py"],
    [("nxprocess lookup by checksum and incremented naming", "io/nxfs.py"), ("Task.exists/run", "process/basetask.py")],
    observe=["task.output", "tree of the output file"],
)
prop(
    "C05",
    "Concurrent producers of the same result leave exactly one result",
    "When several tasks that write to the same output entry are executed with any interleaving of their steps, each finished task has a complete output: "
    "equal tasks share one output, different tasks have different outputs. No temporary process remains and no task overwrites "
    "the output of another one.",
    ["schedules"],
    "all interleavings of two (quick) or three (thorough) task runs at the granularity of their storage steps, up to a preemption bound",
    "tests never run two producers at the same time",
    ["process/basetask.py", "process/nxprocess.py", "io/nxfs.py"],
    [("execute in a temporary process, rename, detect 'already done by someone else'", "process/nxprocess.py, process/basetask.py")],
    observe=["tree of the output file", "task.output"],
)
prop(
    "C06",
    "Opening a busy HDF5 file retries transient failures, reports others",
    "Opening an HDF5 file succeeds if and only if some attempt within the configured number of retries succeeds and only transient failures (file "
    "locked) came before it; a permanent failure (missing file, not an HDF5 file, existing file in exclusive mode) is reported at once "
    "with its specific error. The number of attempts never exceeds the configured bound and nothing is left open after a failure.",
    ["fault_sequences"],
    "every sequence of environment answers (locked, missing, not HDF5, exists, success) up to the retry bound, for all modes and retry counts",
    "lock contention does not occur in the tests",
    ["io/h5fs.py"],
    [("retry loop with error classification", "io/h5fs.py h5FileIO/h5py_file handling")],
    observe=["number of attempts", "raised exception class", "sleep calls"],
)
prop(
    "C07",
    "Termination handling: teardown runs exactly once, handlers restored",
    "Code run under termination handling runs its setup before the body and its teardown exactly once when it is left, whether the body "
    "returns, raises or is interrupted by any of the handled signals at any point, including during setup and during teardown. "
    "Afterwards the previous signal handlers are installed again and a received signal is delivered to them.",
    ["crash_points", "fault_sequences"],
    "signal (each handled kind, once or twice) delivered at every line of setup, body, teardown and of the handler itself; combined with raising setup/body/teardown",
    "the test sends one signal in the body of one configuration",
    ["utils/signalhandling.py"],
    [("HandleTermination context manager", "utils/signalhandling.py")],
    observe=["calls of setup/teardown", "signal.getsignal", "signals delivered to the previous handlers"],
)
prop(
    "C08",
    "Hash of structured parameters depends on the value only, and separates",
    "The hash of a structured parameter value depends only on the value: not on dictionary or set ordering, on construction history, on the process or on whether "
    "numbers and strings come as native or numpy/unicode types (different kinds of container with equal content may hash alike or not). Values that differ (a changed, added, removed, nested or re-ordered element) have different hashes. "
    "Hashing never modifies the value.",
    ["inputs"],
    "all structured values up to a size over a small alphabet of atoms, compared pairwise against structural equality; several processes with different hash seeds",
    "the test hashes a few random structures",
    ["utils/hashing.py"],
    [("calchash recursion", "utils/hashing.py")],
    observe=["calchash", "hashequal"],
)
prop(
    "C09",
    "Generated names are fresh, ordered and keep their prefix and numbering",
    "A name generated by incrementing (result names, entry names, target names, non-existing and temporary file names) never equals an existing name, keeps "
    "the requested prefix and suffix, and continues the numbering with its width; a dangling link also occupies its name. Two names that only differ in number are recognised as one "
    "family and names of different families never match.",
    ["inputs", "histories"],
    "all small names over an alphabet of letters, digits, dots and underscores, all small sets of existing names, repeated allocation",
    "tests use a handful of well-formed names",
    ["io/target.py", "io/fs.py", "io/utils.py", "io/nxfs.py", "align/alignDest.py"],
    [("number location and incrementing", "io/target.py"), ("nonexisting_name/randomnode", "io/fs.py")],
    observe=["io.target.Name", "Path.nonexisting_name", "temporary names"],
)
prop(
    "C10",
    "Lookup tables stay sorted and consistent under any update history",
    "After any history of add, replace, clear and arithmetic operations a lookup table is sorted by key with unique keys; added values at an existing key are "
    "summed, replaced values overwrite, and no other entry changes. Interpolated look-up returns the tabulated value at a tabulated key, and is evaluated "
    "consistently for scalars and arrays.",
    ["histories"],
    "all operation histories up to a depth over a small key/value alphabet (scalar and array arguments) against a dictionary model",
    "the test covers one history",
    ["utils/lut.py", "utils/listtools.py"],
    [("LUT.add/replace/_add", "utils/lut.py")],
    observe=["LUT.x", "LUT.y", "LUT.__call__", "LUT.zip"],
)
prop(
    "C11",
    "Indexing lazily stacked data equals indexing the full array",
    "Reading any index expression from a stack of separately stored arrays gives exactly what indexing the fully loaded array would give (values, shape, and type when something is selected), for any stack "
    "axis; index lists of different lengths are refused where the full array refuses them; writing through an index expression changes exactly the elements that assignment on the full array would change. "
    "Only stack items selected by the index are accessed. The index helper functions (expand, replace, transpose, shape of an index) agree with what indexing does.",
    ["inputs"],
    "all index expressions (integers, slices with positive and negative steps, ellipsis, newaxis, integer lists, boolean lists) per dimension over small shapes, every stack axis",
    "tests sample random indices on a few shapes",
    ["utils/indexing.py", "process/h5regulargrid.py", "process/edfregulargrid.py", "process/regulargrid.py"],
    [("getitem/setitem", "utils/indexing.py")],
    observe=["indexing.getitem", "indexing.setitem", "NXRegularGrid.__getitem__/__setitem__"],
)
prop(
    "C12",
    "Parameter trees: nearest definition wins, inheritance survives edits",
    "In a tree of parameter sets a look-up returns the value of the nearest ancestor that defines the key, or the default. Setting the value a node already has changes nothing, a dictionary assigned to a key that "
    "holds a parameter set updates that set. Setting, deleting and updating "
    "change only the addressed node and what its descendants inherit; a key deleted on one node is inherited again, and structural edits (branch, insert before, insert after, "
    "re-parent, remove) keep the tree acyclic, with each child listed by exactly its parent. Iteration, length, membership and conversion to a dictionary agree with look-up, and a node reports having changed exactly when what it provides has changed.",
    ["histories"],
    "all histories of parameter and structural operations up to a depth on trees of up to four nodes, against a plain ancestor-chain model",
    "tests build one tree and check a few look-ups",
    ["pipelines/parameters.py"],
    [("Node mapping and tree links", "pipelines/parameters.py")],
    observe=["Node mapping API", "children/parent/root"],
)
prop(
    "C13",
    "NeXus data groups always describe a valid default plot",
    "After any history of adding, removing, re-ordering and selecting signals and of setting axes, a NeXus data group names exactly one existing default signal and lists exactly the other signals "
    "as auxiliary, without duplicates or dangling names. Its axes exist, are in order and their sizes match the signal's shape (scalar signals have no axes); an operation that would break "
    "this is refused. Marking a group as default leads from the file root to that group.",
    ["histories"],
    "all histories of signal and axis operations up to a depth, over a small set of names and shapes, from empty and populated groups",
    "tests build groups in one order only",
    ["io/nxfs.py"],
    [("_NXdata add_signal/remove_signal/set_axes/mark_default", "io/nxfs.py")],
    observe=["HDF5 attributes signal/auxiliary_signals/axes/default"],
)
prop(
    "C14",
    "Expression tasks compute what the expression says",
    "For every well-formed expression over grid signals, constants, operators, functions and parentheses, the computed value equals the mathematical value with the usual precedence and associativity (a sign binds less tightly than a power). "
    "References to signals by name or by placeholder resolve to the right signal (each signal in turn for the placeholder), and skipped or copied signals are left unchanged. "
    "Malformed expressions, unknown names and unknown functions are refused.",
    ["inputs", "programs"],
    "all expressions up to a number of operators over the operator/function alphabet, against an independent evaluator; expression tasks over small grids",
    "one test with two expressions",
    ["process/nxexpression.py"],
    [("MathParser", "process/nxexpression.py")],
    observe=["MathParser.eval", "expression task output"],
)
prop(
    "C15",
    "Operator algebra: composition, inverse and power agree with evaluation",
    "The product of two operators applied to a value is the successive application of both, products are associative, and the identity changes nothing. An operator's inverse undoes it on values it can undo, powers equal repeated "
    "products (negative powers: repeated inverses, power zero: identity). Equality of operators implies equal results, and in-place composition gives the same "
    "operator as composition.",
    ["inputs", "programs"],
    "all products of up to four operators from an alphabet of linear, clipping, NaN-clipping, lambda and identity operators, evaluated on exact small values",
    "tests check some fixed products",
    ["math/linop.py"],
    [("Operator.__mul__/inverse/__pow__", "math/linop.py")],
    observe=["operator __call__"],
)
prop(
    "C16",
    "Coordinate transformations form a group under composition",
    "Composing transformations equals applying them one after the other, for every mixture of identity, translation, rigid, similarity, affine and projective maps. The inverse undoes the transformation, a change of frame and back is neutral, and copying or "
    "composing never modifies an operand. Transforming an image is consistent with transforming its coordinates, and a transformation derived from exactly matching points maps these onto each other.",
    ["inputs", "histories"],
    "all compositions up to length three over exact small parameter sets and all type combinations; histories of in-place updates with aliasing checks",
    "tests check random parameters for a few pairs",
    ["align/transform.py", "align/types.py"],
    [("transform composition", "align/transform.py")],
    observe=["coordinate arrays", "transformed images"],
)
prop(
    "C17",
    "Material composition: fractions are conserved under all conversions",
    "Mole, mass and volume fractions of compounds and mixtures sum to one, convert into each other and back without change, and are consistent with element masses and densities. "
    "Adding or changing components keeps the proportions of the others, and a mixture flattened into a compound has the same elemental composition. "
    "A formula string is expanded to the element counts it denotes, including nested groups and fractional multipliers.",
    ["inputs", "histories"],
    "all small compositions over a rational lattice and histories of add/change operations up to a depth; all formula strings of a grammar up to a size",
    "tests check two or three compositions",
    ["materials/stoichiometry.py", "materials/compound.py", "materials/mixture.py", "materials/compoundfromformula.py", "materials/element.py"],
    [("fraction conversions", "materials/stoichiometry.py"), ("formula parser", "materials/compoundfromformula.py")],
    observe=["molefractions/massfractions/volumefractions/elemental_*"],
)
prop(
    "C18",
    "Grid axes: values, limits, steps and look-up stay consistent",
    "An axis has the values, start, end, step size, number of points and units it was created with, whatever its representation; simplifying, changing start or end and "
    "restricting the limits keep the points they claim to keep. Locating a position returns the nearest (or neighbouring) index and interpolating at a grid point "
    "returns that point's index; equality is symmetric within the precision and does not depend on units of expression. Interpolating data on regular grids gives the data at the grid points.",
    ["inputs", "histories"],
    "all small axes of each kind (regular, incremental, single number, irregular, segmented) x all small limits and coordinates, both directions, with units",
    "tests construct a few axes",
    ["process/axis.py", "math/interpolate.py", "process/regulargrid.py"],
    [("Axis classes and factory", "process/axis.py")],
    observe=["Axis.values/start/end/size/stepsize/locate/interpolate"],
)
prop(
    "C19",
    "Merging and tiling HDF5 data puts every element in its place once",
    "Stacking or tiling datasets into one (virtual) dataset places every element of every source exactly at its position in the result, for all shapes, axes, orders and grid layouts; "
    "elements not covered (incomplete scans, smaller sources, fewer sources than places) have the fill value; an incomplete last line may be left out and a scan of less than a line refused. Slicing a large array into chunks visits every element exactly once within the memory limit, as far as that is possible without splitting the first dimension.",
    ["inputs"],
    "all small source shapes and numbers, axes and row/column-major layouts, against direct numpy assembly; all slicing parameters on small shapes",
    "tests check one layout",
    ["process/h5merge.py", "process/nxtile.py", "process/nxmerge.py", "process/nxstack.py", "math/slicing.py"],
    [("h5merge stack/tile", "process/h5merge.py"), ("slice_generator", "math/slicing.py")],
    observe=["merged dataset values"],
)
prop(
    "C20",
    "Grid processing tasks equal whole-array processing",
    "Crop, replace, minus-log, resample, copy and expression tasks give for every signal the result of the corresponding operation on the fully loaded array, whatever the stack dimension, "
    "the signal being referenced (by name or path, whole names only) and the selection or skipping of signals; an empty crop region is refused. The axes of the result describe its data: sizes match and coordinates of retained points are unchanged. Inputs are never modified.",
    ["configurations", "inputs"],
    "all task parameter combinations on small grids with all stack dimensions, against numpy",
    "each test runs a few parameter sets",
    ["process/nxregulargrid.py", "process/nxcrop.py", "process/nxreplace.py", "process/nxminlog.py", "process/nxresample.py", "process/nxexpression.py"],
    [("sliced processing with index generation", "process/nxregulargrid.py")],
    observe=["task.output signals and axes"],
)
prop(
    "C21",
    "Image alignment recovers shifts and applies them consistently",
    "Aligning a stack of images shifted by known amounts recovers those shifts for every reference choice (fixed, previous or raw images) and gives a stack in which all images agree where they overlap. "
    "Padding keeps every pixel of every image, cropping keeps only pixels covered by all images, and without either the shape is unchanged. "
    "Applying stored alignment information to another stack gives the same geometric result, for every source and destination type. "
    "Data which is in the destination already is not lost or modified, except results that are overwritten on request.",
    ["configurations", "inputs"],
    "all small integer shifts x reference modes x pad/crop options x source/destination types x stack dimension; all short histories of alignments to one destination, with and without overwriting",
    "tests use random shifts for some of the option combinations",
    ["align/align.py", "align/alignSimple.py", "align/alignFFT.py", "align/alignSource.py", "align/alignDest.py"],
    [("frame changes, pad/crop", "align/align.py")],
    observe=["output stack", "absolute_cofs / pad / crop information"],
)
prop(
    "C22",
    "Fluorescence (XIA) files: selection and correction equal full-array maths",
    "Reading spectra, statistics and counters from sets of XIA files through any index, in any mix of requested kinds, detector inclusion/exclusion, dead-time correction, "
    "detector summing and normalization, equals reading everything and applying the operations to the full array. Changing and restoring these settings in any order has "
    "no lasting effect on later reads. Saving and re-reading gives the same data, file names are parsed to what they were generated from, and searching or grouping files neither loses nor mixes them.",
    ["configurations", "histories", "inputs"],
    "all setting combinations x index expressions per dimension on lines, images and stacks; all histories of setting changes up to a depth",
    "tests sample random indices from the initial settings only",
    ["io/xiaedf.py", "io/edf.py", "utils/indexing.py", "utils/cache.py"],
    [("xiadata.__getitem__ levels", "io/xiaedf.py"), ("xiasearch/xiagroup", "io/xiaedf.py")],
    observe=["xialine/xiaimage/xiastack indexing"],
)
prop(
    "C23",
    "Scan commands and headers are read back as they were written",
    "Every acquisition command that can be written (image, line, mesh, step and energy scans, positive and negative positions, integers and decimals) is parsed to exactly the motors, ranges, number of points and times it states, and anything else "
    "is reported as unknown (arguments after the last field are ignored). Image headers, scan files (all scans, motors, counters and sub-maps) and saved spectra are read back as written. The motor positions derived from a command have the stated number of points, range and pixel size.",
    ["inputs"],
    "all commands of the scan grammar over small token sets, and all single-token corruptions of them",
    "the test parses nine commands",
    ["io/spec.py", "io/edf.py", "io/mca.py"],
    [("cmd_parser", "io/spec.py"), ("zapline/ascan helpers", "io/spec.py")],
    observe=["cmd_parser.parse", "edfheader_parser"],
)
prop(
    "C24",
    "List and region helpers preserve elements and ordering",
    "Sorting or making unique a list together with a companion list keeps pairs together, is stable and loses no element; moving, rolling, swapping and flattening only re-order elements. "
    "Clipping and merging regions keeps exactly the covered points, and set-like and string/number conversions are inverse to each other. A size-limited dictionary keeps the most recent items, and cached values are those of the source.",
    ["inputs"],
    "all lists up to a length over a small alphabet with repetitions, all arguments in range (and just outside)",
    "tests use a few random lists",
    ["utils/listtools.py", "utils/roi.py", "utils/integerbase.py", "utils/instance.py", "utils/cache.py", "utils/dict.py", "utils/Enum.py", "utils/arraytricks.py"],
    [("listtools", "utils/listtools.py"), ("roi", "utils/roi.py")],
    observe=["return values"],
)
prop(
    "C25",
    "Lazily built functions evaluate like the expression they stand for",
    "A function composed from other functions and constants with arithmetic, comparison and logical operators (either operand order) evaluates to the same operators applied to the "
    "values of its parts, for every argument. Its text form denotes the same expression (^ for power, and/or for the logical operators), and composing never changes the operands.",
    ["programs", "inputs"],
    "all expressions up to depth two or three over all operators, both operand orders, functions and constants",
    "tests check each operator once",
    ["math/lazy.py"],
    [("Function operators", "math/lazy.py")],
    observe=["Function.__call__"],
)
prop(
    "C26",
    "Polarization descriptions agree with each other",
    "Converting a polarization state between Jones, Stokes, coherency matrix and parameters and back is the identity (up to an irrelevant global phase), and all derived quantities are the same from each description. "
    "Rotation and Thomson scattering give the same state and intensity whether computed on Jones vectors, Stokes vectors or as a scattered intensity formula; "
    "splitting a state into polarized and unpolarized parts conserves intensity.",
    ["inputs"],
    "all states on a lattice of intensities, degrees of polarization, angles and handedness x a lattice of rotation, azimuth and polar angles",
    "tests sample random states",
    ["sources/polarization.py"],
    [("Jones/Stokes conversions", "sources/polarization.py")],
    observe=["Jones/Stokes attributes"],
)
prop(
    "C27",
    "Discrete Fourier conventions: transforms and shifts invert each other",
    "For every signal length (even and odd), frequency ordering and normalization convention, the inverse transform of the transform is the signal, shifting and inverse shifting the zero frequency cancel, and the frequency axis has the stated "
    "range. Sub-region transforms equal the corresponding part of the full transform, and 1D and 2D versions agree with each other and with the definition.",
    ["inputs", "configurations"],
    "all lengths up to 9 (1D) and shapes up to 5x5 (2D) x all conventions x all sub-regions, on the complete basis of unit impulses",
    "tests sample a few lengths",
    ["math/ft.py"],
    [("fft/ifft/fftfreq/fftshift", "math/ft.py")],
    observe=["return values"],
)
prop(
    "C28",
    "Physical quantities and serialized objects survive conversion unchanged",
    "Converting numbers, arrays and quantities with units back and forth keeps value and units, and an operation on incompatible units is refused. Saving and restoring a material, geometry, detector, spectrum or "
    "other configured object gives an equal object with the same hash that behaves the same, and deep copies are equal but independent of the original.",
    ["inputs", "configurations"],
    "all values of a small structured alphabet x conversions; every serializable class in every configuration of its options",
    "tests serialize one random configuration per class",
    ["utils/units.py", "utils/instance.py", "utils/copyable.py", "utils/hashable.py", "utils/comparable.py", "patch/jsonpickle.py"],
    [("__getstate__/__setstate__", "many"), ("Quantity helpers", "utils/units.py")],
    observe=["equality, hash, behaviour of the restored object"],
)

prop(
    "C29",
    "Prepared Bliss spectra: dead-time correction and sums equal array maths",
    "Preparing the spectra of a Bliss scan for fitting gives, for every selection of detectors, the spectra times preset time over live time (live time, output live time or events over trigger rate, whichever the detector has) of each selected "
    "detector, or their sum with each detector counted once; without correction each detector is passed on unchanged under its own name. This holds for all data types, array shapes and memory limits. Counters are copied unchanged. "
    "A request that cannot be met (no such detector or counter, no live time, adding without correction) is refused without leaving anything behind, inputs are never modified, and preparations with different parameters coexist in one entry.",
    ["configurations", "inputs", "histories"],
    "all combinations of correction, adding, detector selection, live time kind per detector, data types, preset times, chunking, same or other file; all sequences of two preparations, against numpy",
    "there is no test of this task",
    ["process/nxblissmcapre.py", "math/slicing.py", "process/nxprocess.py"],
    [("_mca_add/_mca_dtcor/_mca_link/_open_livetime", "process/nxblissmcapre.py")],
    observe=["task.output results"],
)
prop(
    "C30",
    "Full-field images: the normalized stack equals its definition",
    "The stack made from full-field images is, for every energy, the sum of the images minus their darks (scaled with the number of frames; the default dark when none has the exposure time) divided by the total "
    "exposure time, and when normalizing the negative logarithm of its ratio to the mean of the flat fields (before and after, or all of them). This holds for every region of interest, rebinning, stack dimension, "
    "number and order of files, way to write the header, and when normalizing while loading or afterwards. The axes are the positions of the pixels on the camera and the energies in increasing order. "
    "When flat fields are missing there is no result.",
    ["configurations", "inputs"],
    "all small numbers and orders of data, flat and dark files x header variations x regions x rebinning x normalization options",
    "the test has one set of files and no rebinning, regions or missing darks and flats",
    ["fullfield/import_id21.py", "process/nxfullfield.py", "pipelines/id21_ffxas.py"],
    [("dark and flat libraries", "fullfield/import_id21.py"), ("assembling of the stack", "process/nxfullfield.py")],
    observe=["signals and axes of the result"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
