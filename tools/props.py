NA = {}
p("C01", "Coordinates represent exactly the labels they were given",
  "For any sequence of labels (integers, floats, datetimes, timedeltas; even, uneven, reversed, unsorted, duplicated, single or empty) the coordinate built from it reports exactly those labels, and its length, shape, dtype, min, max, step, sorted/reverse-sorted/evenly-sampled flags are those of the labels. The same holds after any chain of indexing, slicing, sorting, snapping, updating limits, changing length, or converting units.",
  ["inputs", "histories"], "all label arrays and all chains of coordinate derivations",
  "Tests check a handful of hand picked arrays; a wrong representation (range/monotonic/array/partial) only shows for particular lengths, dtypes, directions and chains.",
  ["core/coords.py"], [("representation choice", "core/coords.py::get_coord"), ("range arithmetic", "core/coords.py::CoordRange"), ("derivations", "core/coords.py::BaseCoord.__getitem__, update_limits, snap, sort, change_length")])
p("C02", "Coordinate queries return exactly the labels that satisfy them",
  "For every coordinate and query, selecting by closed value range, relative range, sample range, boolean mask or value array, ordering by an array, finding the next index of a value, and converting a value span to a sample count return exactly the indices a brute-force scan of the labels gives. The returned coordinate and the returned index always describe the same labels.",
  ["inputs"], "all coordinates x all queries (on, between, beyond labels; open, reversed, empty, relative, sample based)",
  "Off-by-one errors at bounds appear only for certain combinations of bound position, direction, dtype and representation; tests hit a few.",
  ["core/coords.py"], [("select", "core/coords.py::BaseCoord.select, CoordRange._get_index, CoordMonotonicArray.select"), ("order", "core/coords.py::BaseCoord.order"), ("next index", "core/coords.py::BaseCoord.get_next_index"), ("sample count", "core/coords.py::BaseCoord.get_sample_count")])
p("C03", "Structural patch operations keep every sample with its own labels",
  "After any sequence of transpose, flip, sort_coords, select, order, squeeze, append_dims, rename_coords, set_dims, drop_coords, update_coords, roll and iselect-style operations, each data value of the patch is still found at the labels it had (on the dimension and on every associated one- or two-dimensional coordinate), and no sample is lost, duplicated or invented beyond what the operation asks for.",
  ["histories", "inputs"], "all operation sequences on patches of any dimensionality with any mix of coordinate kinds",
  "Data and coordinates are updated by separate code; a misalignment needs a specific operation order, dimension order and coordinate kind to show.",
  ["core/patch.py", "core/coordmanager.py", "proc/basic.py", "proc/coords.py"], [("coord manager derivations", "core/coordmanager.py::CoordManager"), ("patch operations", "proc/basic.py, proc/coords.py")])
p("C04", "Patch dims, shape and attribute summaries always agree with its data",
  "At every point of every operation history a patch's dims, shape, coord_shapes, coord maps and its attribute views of the coordinates (time_min, distance_step, coords summaries, dims string) equal what the data array and coordinates actually are, associated coordinates span the dimensions they claim, and the history attribute keeps all earlier entries in order and ends with an entry naming the operation after every operation that records history. Operations that do not concern other metadata leave it unchanged.",
  ["histories", "inputs"], "all operation histories",
  "Attributes duplicate information held by the coordinates; stale values arise only after particular update sequences.",
  ["core/patch.py", "core/attrs.py", "core/coordmanager.py", "utils/patch.py"], [("attr/coord synchronisation", "core/attrs.py::PatchAttrs.from_dict, core/patch.py::Patch.__init__"), ("history", "utils/patch.py::patch_function")])
p("C05", "Operations never modify the patches, spools or arrays they are given",
  "No patch, spool or coordinate operation, whether it succeeds or raises, changes the data, coordinates, attributes or history of the patch it was called on, of any other patch passed as argument, or of any array the caller handed in. Results computed later from the same object are therefore identical to results computed first.",
  ["histories", "inputs"], "every public operation, every parameterisation in scope, on every patch kind, in every order",
  "Tests look at the returned value; in-place damage to the input is only visible when the original is used again afterwards.",
  ["core/patch.py", "proc/", "transform/", "core/spool.py", "utils/patch.py"], [("patch methods", "proc/*, transform/*"), ("private coord map", "core/coordmanager.py::CoordManager")])
p("C06", "Patch arithmetic pairs values by label, never merely by position",
  "For any two patches, a binary operation, ufunc or boolean operation yields, at every label present in both, the operator applied to the two values with those labels (missing dimensions broadcast), on exactly the labels both share, and raises when dimensions or coordinates are incompatible. Array and scalar operands act element-wise on the patch unchanged in coordinates, and reflected operators and ufunc forms agree with the plain operator.",
  ["inputs"], "all pairs of small patches (overlaps, reversed, different dim orders, missing dims) x all operators x operand kinds",
  "Alignment bugs need partially overlapping or differently ordered coordinates; tests mostly use identical ones.",
  ["utils/array.py", "utils/patch.py", "core/patch.py", "core/coordmanager.py"], [("alignment", "utils/patch.py::align_patch_coords, core/coordmanager.py::merge_coord_managers"), ("ufunc dispatch", "utils/array.py::apply_ufunc, patch_array_ufunc")])
p("C07", "Aggregations reduce exactly the requested dimensions and samples",
  "For every patch, set of dimensions, method and reduction mode, the result's value at each remaining label equals the named statistic (nan-skipping where documented) computed over exactly the samples with that label, all other coordinates are unchanged, and the reduced dimension is summarised or removed as requested.",
  ["inputs"], "all small patches with NaN patterns x dims x methods x dim_reduce modes",
  "Wrong axis, wrong NaN treatment or wrong coordinate reduction only shows for particular shapes and NaN placements.",
  ["proc/aggregate.py", "utils/array.py", "core/coords.py"], [("aggregate", "proc/aggregate.py::aggregate"), ("coord reduction", "core/coords.py::BaseCoord.reduce_coord")])
p("C08", "Padding, missing-data and masking operations touch only the right samples",
  "pad, dropna, fillna, where, mute-style masks and tapers change or remove exactly the samples their definition names, leave every other sample bit-identical at its own label, and produce coordinates that label the new array exactly (padding extends an even coordinate with its own step in both directions).",
  ["inputs"], "all small patches, NaN placements, pad widths/modes, masks",
  "Edge handling depends on pad widths, direction, NaN placement and coordinate representation, a product space tests sample thinly.",
  ["proc/basic.py", "proc/mute.py"], [("pad/dropna/fillna/where", "proc/basic.py"), ("mute", "proc/mute.py")])
p("C09", "Rolling and windowed computations equal the window they describe",
  "For every window, step, centring and engine a rolling aggregation's value at each output label equals the aggregate of exactly the window of samples ending (or centred) there, NaN where the window is incomplete, with the output labels being every step-th input label. The numpy and pandas engines, and the equivalent median/savgol/hampel/gaussian style windows, agree with a direct per-sample evaluation.",
  ["inputs", "configurations"], "all small data, window, step, center, engine, axis combinations",
  "The engines use different algorithms and alignment arithmetic; agreement at all window/step/centre parities needs enumeration.",
  ["proc/rolling.py", "proc/filter.py", "proc/hampel.py", "utils/moving.py"], [("rolling engines", "proc/rolling.py::_PandasPatchRoller, _NumpyPatchRoller"), ("moving ops", "utils/moving.py")])
p("C10", "Resampling and interpolation keep values attached to physical labels",
  "interpolate, resample, decimate, snap and coordinate alignment return data whose value at each output label is the (interpolated, decimated or shifted) value of the input at that same label, on exactly the requested grid: a signal that is a function of its label (constant, linear for linear interpolation) is still that same function afterwards, in either direction and for time, float and integer coordinates.",
  ["inputs"], "all small grids x target grids x methods x directions",
  "Grid off-by-ones and direction errors are only visible for specific ratio/length/direction combinations.",
  ["proc/resample.py", "proc/align.py", "proc/coords.py"], [("resample", "proc/resample.py"), ("alignment shifts", "proc/align.py::align_to_coord")])
p("C11", "Unit handling converts values and labels consistently, never silently",
  "Converting or simplifying units of data or coordinates multiplies (or offsets) every value by the physically right amount and updates the recorded unit together, set_units changes only the record, A->B->A and A->B->C versus A->C agree, incompatible conversions raise, and selections given in one unit on a coordinate in another pick the same labels as the converted numbers. Arithmetic combines data units like the operator demands.",
  ["inputs", "histories"], "all unit pairs in scope x coordinate/data kinds x conversion chains",
  "Unit errors depend on pair, kind (offset, ratio, time) and on which of value/record was updated; tests take a few pairs.",
  ["units.py", "proc/units.py", "core/coords.py", "core/attrs.py"], [("conversion", "units.py::convert_units, get_factor_and_unit"), ("patch units", "proc/units.py")])
p("C12", "Time conversion functions are exact, consistent and order preserving",
  "to_datetime64, to_timedelta64, to_float, to_int, is_datetime64 and friends give the same nanosecond for every way of writing an instant (scalar, string, float, datetime, array, Series, list, quantity), round-trip to within float resolution, preserve order, shape and missing values, and never shift by a sign, fraction or epoch error.",
  ["inputs"], "all instants on a boundary-rich grid (negative, sub-second, epoch, far past/future) x all representations x scalar/array/None/NaT",
  "Errors live at sign, fraction and unit boundaries and in individual dispatch branches.",
  ["utils/time.py"], [("dispatch conversions", "utils/time.py::to_datetime64, to_timedelta64, to_float, to_int")])
p("C13", "Forward and inverse transforms undo each other and label their axes right",
  "For any data, dft/idft and stft/istft reproduce the original data, coordinates and units, integrate and differentiate are consistent with the exact cumulative/definite sums and finite differences of the samples against their labels, and a transform's new coordinate puts each component at its true frequency, for even and odd lengths, real and complex data, any axis and either direction.",
  ["inputs"], "all small lengths, parities, dims, real flags, window/overlap settings, steps",
  "Phase, scaling and axis-label errors depend on parity, step, origin and padding.",
  ["transform/fourier.py", "transform/integrate.py", "transform/differentiate.py", "transform/fft.py"], [("dft/idft/stft/istft", "transform/fourier.py"), ("integrate", "transform/integrate.py"), ("differentiate", "transform/differentiate.py")])
p("C14", "Chunking and merging conserve samples: none lost, duplicated or moved",
  "For any collection of contiguous, gapped, overlapping or differently-attributed source segments, chunk with any length, overlap, snap and keep_partial, and merge (chunk(time=None)), yield patches whose samples are exactly the source samples at their original labels: full chunks of the requested length, the requested overlap, remainders only when asked, gaps beyond tolerance never bridged, incompatible patches never mixed.",
  ["inputs", "configurations"], "all segment layouts (lengths, gaps, overlaps, order, attributes) x chunk parameters",
  "Chunk planning works on a table of intervals with float/time arithmetic; boundary errors need specific length/overlap/gap combinations.",
  ["utils/chunk.py", "core/spool.py", "utils/patch.py"], [("chunk planner", "utils/chunk.py::ChunkManager"), ("merge", "utils/patch.py::_merge_patches, core/spool.py::_patch_from_instruction_df")])
p("C15", "A spool behaves like the plain list of patches it describes",
  "After any sequence of select, slicing, indexing, sort, chunk, concatenate and update, a spool's length, iteration, indexing (positive, negative, out of range), contents table and returned patches all agree with each other and with applying the same operations to the plain list of patches, and deriving a new spool never alters the old one.",
  ["histories"], "all spool operation histories up to a depth",
  "Spool state is three related data frames; inconsistency between them needs a particular operation order.",
  ["core/spool.py", "utils/pd.py"], [("dataframe spool", "core/spool.py::DataFrameSpool")])
p("C16", "The same data gives the same spool from memory, file or directory",
  "A set of patches served from memory, from one file, or from a directory of files (any layout, re-created index or warm index) answers every select, sort, chunk and index history with the same patches in the same order, and the contents tables agree on the shared columns.",
  ["histories", "configurations"], "all storage layouts x operation histories",
  "Each backend has its own loading and trimming path; differential agreement needs all histories on all back ends.",
  ["core/spool.py", "clients/dirspool.py", "clients/filespool.py", "io/core.py"], [("directory spool", "clients/dirspool.py"), ("file spool", "clients/filespool.py"), ("memory spool", "core/spool.py::MemorySpool")])
p("C17", "Splitting and mapping a spool covers every patch exactly once, in order",
  "For every spool length, split size or count, and client, split partitions the spool into consecutive non-overlapping parts covering it in order with the requested size or number of parts, and map returns exactly one result per patch in spool order, equal to the serial application, whatever order the client completes the work in.",
  ["schedules", "inputs"], "all spool lengths x split sizes/counts x client completion orders",
  "Partition arithmetic and ordering only fail at particular divisibility or completion orders.",
  ["core/spool.py", "utils/mapping.py", "utils/misc.py"], [("split", "core/spool.py::BaseSpool.split"), ("map", "utils/misc.py::_spool_map")])
p("C18", "Concatenate, stack and attribute merging follow the declared conflict policy",
  "concatenate joins patches along a dimension in order with every value at its own label (or along a new dimension in order), stack sums exactly the compatible patches, and combining attributes or coordinates under each conflict policy (raise, drop, keep_first) and drop list gives exactly the declared outcome; incompatible patches are reported as the check_behavior says and never silently combined.",
  ["inputs", "configurations"], "all small collections x policies x conflicts",
  "Policy handling is a product of field kinds and policies; silently combining shows only on conflicting inputs.",
  ["utils/patch.py", "utils/attrs.py", "core/coordmanager.py", "core/spool.py"], [("concatenate/stack", "utils/patch.py::concatenate_patches, stack_patches"), ("attr policy", "utils/attrs.py::combine_patch_attrs"), ("coord merge", "core/coordmanager.py::merge_coord_managers")])
p("C19", "Writing patches to a DASDAE file and reading back loses nothing",
  "Any patch (any dtype, coordinate kinds incl. partial, uneven, multi-dimensional, unassociated; units; attributes; history) written to a DASDAE file is read back equal, and a file written any number of times in any sequence of single- or multi-patch writes contains exactly every distinct patch written (patches are distinct when an attribute, history included, or a coordinate differs; writing a patch again replaces it), none lost, duplicated or altered, whether or not the file index was created before.",
  ["histories", "inputs"], "all patch shapes/coord kinds and all write sequences up to a depth",
  "Node naming, attribute encoding and index updating interact across writes; only histories expose collisions.",
  ["io/dasdae/core.py", "io/dasdae/utils.py", "io/core.py", "utils/hdf5.py"], [("dasdae io", "io/dasdae/utils.py"), ("write", "io/core.py::write")])
p("C20", "Reading a range from a file equals reading everything and selecting",
  "For every readable format available, file layout and range (open, closed, reversed, empty, beyond the data, on or between samples; time and distance together), read with the range, spool select on the file, and read followed by Patch.select return the same patches; and a range that misses everything returns nothing rather than a wrong or broken patch.",
  ["inputs"], "all half-grid ranges on all formats/layouts in scope",
  "Every format implements its own trimming arithmetic; boundary agreement must hold at all ranges.",
  ["io/core.py", "io/dasdae/utils.py", "io/"], [("read", "io/core.py::read"), ("format trimming", "io/*/utils.py")])
p("C21", "Scanning a file reports exactly what reading it would give",
  "For every file the library can write or read, get_format identifies the true format and version, scan (scan, scan_to_df, spool contents) lists exactly the patches read returns with the same dims, coordinates ranges, steps, units, shapes and attributes, also for directories and mixtures, and non-data files are skipped without hiding the others; and what read returns (data, labels, units, attributes) is what the file's encoding holds, for every supported layout of the format.",
  ["inputs", "configurations"], "all files/layouts in scope, all formats",
  "Scan and read are separate code per format; a drift shows only where they are compared on the same file.",
  ["io/core.py", "io/dasdae/core.py", "io/"], [("scan", "io/core.py::scan, scan_to_df"), ("format detection", "io/core.py::get_format")])
p("C22", "A directory index converges to the files actually present",
  "After any history of adding, appending to, replacing and deleting files, updating, re-opening, or being interrupted between steps, an updated directory spool yields exactly the patches stored in the directory's files, once each, with current metadata, queries on it return exactly the matching files, and re-indexing from scratch gives the same answer.",
  ["histories", "crash_points"], "all histories of file operations, index updates, re-opens and crashes up to a depth",
  "Index state persists across processes and depends on the order of file events and on mtimes.",
  ["io/indexer.py", "utils/hdf5.py", "clients/dirspool.py"], [("directory indexer", "io/indexer.py::DirectoryIndexer"), ("index table", "utils/hdf5.py::HDFPatchIndexManager")])
p("C23", "Damaged or foreign files never yield wrong data or break the rest",
  "For a data file cut off at any byte (a crash while writing), emptied, or filled with junk or with another format's content, reading, scanning and format detection raise an error or give true data: the original patches or, where the format does not record how much there should be, a leading part of them with the true labels; never different data, a stale earlier content, or a hang. scan() and read() of the damaged file agree where both succeed. Scanning or indexing a directory containing such a file (or an HDF5 file with parts missing or replaced) still returns every intact file's patches. A damaged, emptied or replaced index file or index-map file never prevents or corrupts access to the directory.",
  ["crash_points", "fault_sequences"], "every truncation point / torn block pattern of files and of the index and index map",
  "A crash can stop a write at any byte; tests use at most one or two damaged files.",
  ["io/core.py", "io/indexer.py", "utils/hdf5.py"], [("format probing", "io/core.py::get_format"), ("scan error policy", "io/core.py::scan"), ("index recovery", "io/indexer.py")])
p("C24", "Every export format preserves what it promises to carry",
  "Patches written with any writable format or converted to another in-memory representation (pickle, WAV, RSF, xarray, obspy, dict/DataFrame forms) come back with the same samples in the same order, sampling interval and the metadata that format can represent, for every shape, dtype, and dimension order, and inputs a format cannot represent raise instead of being stored wrongly.",
  ["inputs"], "all small patches x formats x options",
  "Byte order, transposition and scaling errors depend on dtype and dimension order.",
  ["io/pickle/core.py", "io/wav/core.py", "io/rsf/core.py", "utils/io.py"], [("pickle", "io/pickle/core.py"), ("wav", "io/wav/core.py"), ("rsf", "io/rsf/core.py"), ("conversions", "utils/io.py")])
p("C25", "File handles are released and failed writes leave old data intact",
  "On every exit path of read, scan, get_format, write and index access, including an error at any I/O call, all files the library opened are closed again and stay usable by others, and a write that fails part way leaves previously stored patches readable and unchanged.",
  ["fault_sequences"], "an I/O failure injected at every call site/step of every operation in scope",
  "Error paths at each individual I/O step are not reached by ordinary tests.",
  ["utils/io.py", "io/core.py", "utils/hdf5.py"], [("resource manager", "utils/io.py::IOResourceManager"), ("hdf5 handles", "utils/hdf5.py")])
p("C26", "Concurrent use of shared objects gives the single-threaded result",
  "When several threads use the same patch, coordinate, spool, unit registry or plugin manager at once, every call returns what it returns in single-threaded use, under every interleaving, and lazily computed or cached state is never seen half built.",
  ["schedules"], "all interleavings of two threads up to a preemption bound over the shared lazy/cached state",
  "A race needs a specific preemption point between two steps of a lazy initialisation.",
  ["core/coords.py", "core/spool.py", "io/core.py", "units.py", "utils/misc.py"], [("lazy caches", "utils/misc.py::cached_method, utils/models.py"), ("plugin manager", "io/core.py::_FiberIOManager"), ("spool map", "core/spool.py::BaseSpool.map")])
