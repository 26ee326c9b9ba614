#!/usr/bin/env python3
"""Generate properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=False, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

R = "karabo_data/reader.py"
M = "karabo_data/read_machinery.py"
W = "karabo_data/writer.py"
C = "karabo_data/components.py"
F = "karabo_data/run_files_map.py"
G = "karabo_data/geometry2/__init__.py"

p("C01", "Array reads return exactly the stored entries of the selected trains",
  "For any run, source, key, train selection and region of interest, reading the data as an array returns every stored entry belonging to the selected trains exactly once and nothing else, bit for bit and with the stored dtype. Entries come in ascending train order (in stored order inside a train) and each is labelled with the ID of the train it belongs to; the region of interest only cuts the dimensions after the first.",
  ["inputs", "configurations"],
  "all runs (how trains and sources are split over aggregators and sequence files, gaps between trains, 0/1/many entries per train, padding, both index formats, dtypes and entry shapes) x all train selections x all regions of interest",
  "The tests read a handful of fields of six fixed mock runs with one entry layout each and compare mostly shapes; they never vary gaps, sequence splits or per-train counts and the mock data is nearly all zeros, so misplaced entries are invisible.",
  [R, M],
  [("DataCollection.get_array", R), ("DataCollection._find_data_chunks", R), ("FileAccess.get_index", R), ("DataChunk.slice, contiguous_regions", M)],
  "returned xarray.DataArray of get_array (values, dtype, trainId coordinate) against the data the run was generated from")

p("C02", "Train-by-train access delivers each train's own data and only that",
  "Iterating over trains yields every selected train exactly once in ascending order (only those with data for every selected field when completeness is required), and looking a train up by ID or by position gives the same content. For each train the result holds, for every selected source, the train's own values of the selected keys: control values, one entry without its leading axis, or all of the train's entries in order, while a key without data for that train is omitted.",
  ["inputs", "configurations", "histories"],
  "all runs, selections, train ranges and require_all settings; all orders of switching between trains and files inside one iteration",
  "Tests iterate fixed mock runs with regular trains whose files all cover the same trains and check that keys exist or a shape; cached file handles, trains missing from some sources and zero or single entry trains are sampled at one or two points.",
  [R], [("TrainIterator", R), ("DataCollection.train_from_id / train_from_index", R), ("DataCollection._find_data, _check_data_missing", R)],
  "train IDs and data dictionaries yielded by trains(), train_from_id() and train_from_index()")

p("C03", "Series, data frames and entry counts match the stored data",
  "The entry count reported for each selected train of a field equals the number of entries stored for it, including control data. A series of a one-dimensional field holds exactly the stored values of the selected trains labelled by train ID (and by pulse ID where a train can have several), and a data frame aligns such series per train with missing values only where a source has no entry, excluding control timestamps unless they are asked for.",
  ["inputs", "configurations"],
  "all runs, sources, keys and train selections, including files whose trains have no data for the source, several sequence files and partially overlapping sources",
  "The tests check series of a few regular control fields and one data frame of one fixed run; no test reads counts for control data or a source with an empty sequence file.",
  [R], [("DataCollection.get_data_counts", R), ("DataCollection.get_series", R), ("DataCollection.get_dataframe", R)],
  "pandas objects returned by get_data_counts, get_series, get_dataframe")

p("C04", "Lazy arrays and virtual datasets hold the same data as a direct read",
  "For any field and train selection, computing the lazy (dask) array, or reading back the created virtual dataset, gives exactly the array a direct read returns: same shape, dtype, order and values, whatever the size of the data and however it is split into chunks. The file made for a virtual dataset is itself a readable data file whose trains and counts match the selection, and no data at all gives an empty result rather than an error.",
  ["inputs", "configurations"],
  "all runs, fields and train selections, datasets below and above the 2 GiB chunk limit, target file given or temporary",
  "Tests compare one regular field each with fixed shapes; nothing reaches the code that halves chunks above 2 GiB or several separated selections in one file.",
  [R, W], [("DataCollection.get_dask_array", R), ("DataCollection.get_virtual_dataset", R), ("VirtualFileWriter._assemble_data", W)],
  "computed dask array and h5py virtual dataset contents")

p("C05", "Selecting sources and keys keeps exactly what was asked, and only narrows",
  "Selecting by pattern pair, list of patterns or exact dictionary gives a collection offering exactly the matching sources and keys of the collection it was applied to, and deselecting gives exactly the rest; trains and data values are unchanged. A later selection can only narrow an earlier one, never bring back a dropped source or key, and a selection naming an unknown source, or matching nothing, is rejected.",
  ["inputs", "histories"],
  "all runs, all selection expressions (globs, lists, dictionaries with sets or empty sets) and all chains of select and deselect",
  "Tests apply a few single selections to fixed runs; chains of selections and the empty-set dictionary form documented as 'all keys' are never tried.",
  [R, M], [("DataCollection.select / deselect", R), ("DataCollection._expand_selection / _select_glob", R), ("union_selections", M)],
  "all_sources, keys_for_source and data read from the resulting collections",
  state=[("selection", "source -> selected keys, or all keys")])

p("C06", "Train selection keeps exactly the requested trains in order",
  "Selecting trains by ID slice (start included, stop excluded, ends falling in gaps or outside the data allowed), by list of IDs, by positional slice or by list of positions keeps exactly the trains this asks for, taken from the current collection, in ascending order. All data accesses on the result then return exactly the entries of those trains, nested selections compose, and a request that overlaps no train, of an empty collection too, is never answered with data: for train IDs it gives nothing or the documented ValueError.",
  ["inputs", "histories"],
  "all runs with arbitrary train ID gaps, all slice/list expressions with open, negative, stepped, gap and out of range ends, and all chains of them",
  "Tests use a few in-range slices on gapless mock runs; a slice end in a gap, negative or stepped slices and chains of selections are not exercised.",
  [R, M], [("DataCollection.select_trains", R), ("_tid_to_slice_ix", M), ("by_id / by_index", R)],
  "train_ids of the result and the data read from it")

p("C07", "Union is exact set union and never hides conflicting data",
  "The union of collections offers exactly the union of their trains and of their selected sources and keys, each with the stored values, independent of the order and grouping of the operands and of repeating an operand. If two different files among the operands hold the same source for the same train, building the union (or opening them together) is rejected with an error naming that source instead of choosing one.",
  ["inputs", "histories"],
  "all pairs and triples of collections obtained by splitting, selecting or opening runs, in every order and grouping, overlapping or not",
  "Tests join two fixed disjoint runs and one conflicting pair; overlapping operands, different key selections per operand and associativity are not covered.",
  [R, M], [("DataCollection.union", R), ("DataCollection._check_source_conflicts", R), ("union_selections", M)],
  "train_ids, all_sources, keys and data of the union, or the ValueError raised")

p("C08", "A written copy of a selection reads back as the same data",
  "Writing any selection to a new file gives a file which, opened again, has the same trains, sources and keys, and returns the same data by every access method as the collection it was written from, trains without data staying without data. It passes the format validator, is complete when the call returns, and replaces whatever was at the target path before.",
  ["inputs", "configurations"],
  "all runs and selections including sources covering only part of the trains, empty trains, gaps and several sequence files",
  "The tests write one regular selection and read back one control series; partial coverage, empty trains and instrument data in several groups are untested.",
  [W, R], [("FileWriter", W), ("DataCollection.write", R)],
  "file produced by write(), reopened through the public API")

p("C09", "A written virtual copy of a selection reads back as the same data",
  "Writing any selection as virtual datasets gives a file which, opened again while the original files are in place, has the same trains and returns for every source and key that has data in the selection the same data by every access method as the original collection. This holds from whatever directory the run was opened or the file is later read, and the original files are left untouched.",
  ["inputs", "configurations"],
  "all runs and selections including partial coverage, gaps and out of order files, relative and absolute paths",
  "The one test writes a regular selection and reads two fields; the mapping of separated train ranges onto the virtual layout is sampled once.",
  [W, R], [("VirtualFileWriter._assemble_data", W), ("FileWriter._make_control_index / _generate_index", W)],
  "file produced by write_virtual(), reopened through the public API")

p("C10", "The run map cache never changes what a user sees",
  "Opening a run with any run map file present (right, stale after files were added, removed, replaced or modified, truncated, damaged, not JSON, of another shape, unreadable) gives the same collection as with no map at all. Being unable to read or write a map, for whatever file system reason, never makes opening a run fail. Where a map can be written, a run which was opened before is opened again without reading any of its unchanged data files.",
  ["inputs", "histories", "fault_sequences"],
  "all sequences of opening a run and changing its data files, all contents of the map file, all file system errors while reading or writing it, both map locations",
  "Tests open an unchanged run with and without a good map; stale and damaged maps and I/O errors other than a denied permission are not tried.",
  [F, R], [("RunFilesMap.load / is_my_cache / get / save", F), ("RunDirectory", R)],
  "the collection returned by RunDirectory/open_run, compared with a cache-free opening",
  state=[("map file", "JSON list of file name, size, mtime, trains and sources")])

p("C11", "The run map is replaced atomically under crashes and concurrent use",
  "At every instant, whatever processes are opening the run at once and wherever one of them is killed, the path of a run map either does not exist or holds one complete well-formed map which describes the run. All concurrent openers succeed with the right view of the run, no opener that finishes leaves temporary files behind, and the data files are never written.",
  ["schedules", "crash_points", "fault_sequences"],
  "all interleavings of processes opening the same run, all points (system calls) at which a writer may die or fail",
  "The tests run one process that never fails half-way; a torn or partial map only shows up with a crash between particular system calls or a reader arriving in between.",
  [F, "karabo_data/utils.py"], [("RunFilesMap.save", F), ("atomic_dump", F)],
  "content of the map path observed continuously and after each injected crash or fault")

p("C12", "Opening finds every usable file's data in any supported layout",
  "Opening a file or run directory gives the union of trains and of control and instrument sources of all matching usable files, for both file format versions, both index styles and any padding of the index, reporting and skipping unusable files and failing only when no file is usable. Opening by directory, by proposal and run number in any accepted spelling, file by file or from the same files in any order gives the same collection.",
  ["inputs", "configurations"],
  "all mixes of file format versions, padded or exact indexes, name patterns, unusable files (empty, truncated, not HDF5, missing metadata) and ways to spell the same run",
  "Tests open six well-formed mock layouts; mixtures, unusable files and padding beyond the mock generator's are not covered.",
  [R, M], [("H5File / RunDirectory / open_run", R), ("FileAccess._read_data_sources", R), ("DataCollection.from_paths", R), ("find_proposal", M)],
  "train_ids, control_sources, instrument_sources and data of the opened collection")

p("C13", "Combined detector arrays put every frame at its module, train and pulse",
  "Reading multi-module detector data places each stored frame or per-pulse value at exactly its own module, train and pulse position and leaves every other position at not-a-number, in any combination of modules with different trains or missing data. Selecting pulses by ID or by index returns exactly the entries with those pulse IDs or positions within each train, negative selections are rejected, and train selection narrows accordingly.",
  ["inputs", "configurations"],
  "all detector types, sets of modules, per-module train coverage and frame counts, raw and corrected layouts, fields, pulse selections and train selections",
  "Tests read a full mock detector with equal regular modules whose frames are zeros and check shapes; frames put at a wrong pulse, train or module would pass.",
  [C], [("MPxDetectorBase.get_array", C), ("MPxDetectorBase._select_pulse_ids / _select_pulse_indices", C), ("MPxDetectorBase._guess_axes", C)],
  "xarray returned by AGIPD1M/DSSC1M/LPD1M.get_array")

p("C14", "Iterating detector data train by train agrees with the combined array",
  "Iterating a detector's trains yields, in ascending order and exactly once, each selected train for which all the included modules have data of every key, skipping only the others. The arrays given for a train hold for each included module exactly that train's entries in the array the combined read returns, under the same pulse selection.",
  ["inputs", "configurations"],
  "all detectors, module coverage patterns, minimum module numbers, pulse selections and ways frames are split over files",
  "Tests take the first train of a regular mock detector and check shapes only.",
  [C], [("MPxDetectorTrainIterator", C), ("MPxDetectorBase.trains", C)],
  "train IDs and arrays yielded by AGIPD1M/DSSC1M/LPD1M.trains()")

p("C15", "Detector objects are built from the right modules and trains only",
  "A detector component includes exactly the run's modules of its type (and of the given name and module numbers) and exactly the trains in which at least the required number of those modules have frames. Data without such a detector, or with several when no name is given, or with differing frame counts (of modules or trains which have any frames), is rejected with an error rather than combined.",
  ["inputs", "configurations"],
  "all runs with zero, one or several detectors and other look-alike sources, any subset of modules, minimum module number, and frame counts per train",
  "Tests construct a complete regular detector, one wrong-type and one with a fixed set of missing trains.",
  [C], [("MPxDetectorBase.__init__ / _find_detector_name / _check_image_data / _data_counts / min_modules", C)],
  "the detector's source mapping, train IDs and frame counts, or the exception raised")

p("C16", "Virtual CXI files show the same frames as the detector data",
  "The virtual CXI file written for a detector holds in its data, gain and mask datasets, at each frame and module position, exactly the stored pixels of that train, pulse and module, with the fill value (not-a-number for floats, 0 for integers) where a module has no data. The train ID, pulse ID and cell ID listed for each frame are those of that frame, frames appear in train order, and raw and corrected data are both supported. Modules which hold different pulse IDs for the frames of a train are refused rather than placed side by side.",
  ["inputs", "configurations"],
  "all AGIPD/LPD/DSSC detector runs, raw and corrected, with missing modules and trains, several sequence files and minimum module numbers",
  "Tests check dataset shapes of regular mock detectors in which all pixel data is zero.",
  ["karabo_data/write_cxi.py", C, "karabo_data/cli/make_virtual_cxi.py"],
  [("VirtualCXIWriter / VirtualCXIWriter raw and corrected layouts", "karabo_data/write_cxi.py"), ("write_virtual_cxi", C)],
  "contents of the file written by write_virtual_cxi, read through h5py")

p("C17", "Stacked detector views equal explicit stacking of the modules",
  "Stacking detector modules of a train gives an array holding each module's data at its own module position, with missing modules at the fill value (by default not-a-number for floats and zero for integers) and the stack axis where it was asked for; a module number out of range or inconsistent module data is rejected. The no-copy view gives the same result as the copied stack for every index expression on its first dimensions, its shape, and after conversion to a plain array; devices are stacked in the order of the numbers in their names.",
  ["inputs"],
  "all sets of modules present, entry shapes and dtypes, axis positions, fill values, source patterns, and index expressions made of integers, slices and ellipses which take one or all modules of the stack axis",
  "Tests stack one regular train with one missing module and one dtype and index only over the default axis.",
  ["karabo_data/stacking.py"], [("stack_detector_data", "karabo_data/stacking.py"), ("StackView", "karabo_data/stacking.py")],
  "arrays returned by stack_detector_data with real_array True and False")

p("C18", "Streamed trains reach clients complete, in order and exactly once",
  "Every train handed to the streamer is delivered to exactly one requesting client, in the order it was fed, without loss, duplication or mixing, whatever the number of clients and the timing of feeding and requesting, with the feeder held back when the queue is full. What a client receives, in each supported protocol version, is the fed data: all sources, all keys, equal values with dtype and shape, and the metadata given; dummy timestamps, where asked for, tell when that train was fed. Feeding leaves the caller's data and metadata as they were. Stopping the streamer after feeding still delivers everything that was queued, and returns once it is.",
  ["schedules", "inputs"],
  "all interleavings of the feeding thread, the server thread and clients connecting, requesting and leaving between requests; all data of the supported types (Python built-ins, numpy numbers, booleans, strings and arrays of them); metadata objects used for one or several trains; protocol versions 1.0 and 2.2; queue lengths",
  "The tests send a few fixed trains to one client with a generous sleep; other interleavings and value types are not sampled.",
  ["karabo_data/export.py"], [("ZMQStreamer", "karabo_data/export.py"), ("REPInterface", "karabo_data/export.py")],
  "messages received by REQ clients (raw frames and karabo_bridge client)")

p("C19", "Serving files over the network sends exactly the selected trains",
  "Serving a run or file to network clients delivers to them every train of the selected data, in train order and exactly once, with the content a direct read of that train gives for the sources and keys asked for and only those. Serving then ends by itself once the last train has been requested and delivered, without dropping trains that were queued.",
  ["schedules", "inputs", "configurations"],
  "all runs, source and key filters, timings and numbers of clients, protocol versions",
  "The tests start one server process and compare one train; the end of the stream and the source filter of the command are not observed.",
  ["karabo_data/export.py", R], [("serve_files", "karabo_data/export.py"), ("ZMQStreamer.stop", "karabo_data/export.py"), ("main", "karabo_data/export.py")],
  "messages received by REQ clients of serve_files / karabo-serve-files")

p("C20", "The validator reports every documented fault and nothing on sound data",
  "Validating a file or run directory reports at least one problem, naming the file, dataset and kind, for each documented fault it contains: unreadable or no usable file, zero or duplicate or disordered train IDs, an index too short or with parts of different lengths, index entries not starting at 0, running past the data, overlapping or leaving gaps, or a wrong entry in the cached run map. Sound data, in every supported layout, is reported as sound, and validation itself never crashes or alters the data.",
  ["inputs", "fault_sequences"],
  "all sound runs (sequence splits, gaps, padding, empty trains, both index styles) and all single and double injected faults at any source, train and file",
  "The one test validates a single sound run; no test contains any fault.",
  ["karabo_data/validation.py"], [("FileValidator", "karabo_data/validation.py"), ("RunValidator", "karabo_data/validation.py"), ("main", "karabo_data/validation.py")],
  "problems listed / ValidationError raised / exit status of the validator command")

p("C21", "Assembled detector images show each pixel once, at its physical place",
  "Assembling module data with any detector geometry copies each input pixel's value to exactly one output pixel and leaves all others at not-a-number (or zero for integers, or a given array), for any leading dimensions and number of frames. The output pixel lies within rounding of the pixel's physical position, relative to the reported centre, so that gaps, order and orientation of modules and tiles are those of the geometry; overlap aside, the set of filled pixels is one to one with the input.",
  ["inputs", "configurations"],
  "all geometries (AGIPD, LPD, DSSC, old-style; any quadrant positions, including rotated and shifted panels) and all input arrays, dtypes and leading dimensions, with an output array given or not",
  "Tests assemble constant arrays and check the shape and a border being NaN; permuted or flipped pixels are invisible to that.",
  [G, "karabo_data/geometry.py"], [("SnappedGeometry", G), ("DetectorGeometryBase.position_modules_fast / _snapped", G), ("AGIPD_1MGeometry.position_modules_interpolate", G)],
  "the returned image and centre for input with all pixel values distinct")

p("C22", "All coordinate interfaces of a geometry describe the same positions",
  "For every pixel, the positions given by the pixel position array, the mapping from data coordinates to positions (at whole and fractional coordinates), the pyFAI distortion array (corner average and corner order) and the image assembly agree with the tile corner and vectors the geometry was made with. Tile lookup by module and slow/fast scan index is consistent with the data layout for every module, and inspection or comparison does not alter the geometry.",
  ["inputs", "configurations"],
  "all geometries of all detector types, all pixels and fractional coordinates, all module numbers and integer types",
  "Tests check a few coordinates of one AGIPD geometry, and array shapes elsewhere.",
  [G], [("data_coords_to_positions", G), ("get_pixel_positions / to_distortion_array", G), ("split_tiles, tile_shape", G)],
  "arrays returned by the geometry's coordinate methods")

p("C23", "Geometry constructors place quadrants and modules where they are told",
  "A geometry built from quadrant positions has each quadrant's reference corner at the given position with the documented unit, and its modules and tiles at the fixed offsets and orientation of the detector, for every unit: the same positions in different units give the same geometry. Shifting quadrant positions shifts the modules of that quadrant by the same amount and no others, and geometry read from a calibration file combines that file's module and tile positions with the quadrant positions.",
  ["inputs", "configurations"],
  "all quadrant positions, units, asic/panel gap settings and calibration file contents for AGIPD, LPD and DSSC",
  "Tests build one default position list per detector and check one or two numbers.",
  [G], [("AGIPD_1MGeometry.from_quad_positions", G), ("LPD_1MGeometry.from_quad_positions / from_h5_file_and_quad_positions", G), ("DSSC_1MGeometry.from_h5_file_and_quad_positions", G)],
  "tile corners and vectors seen through public coordinate methods")

p("C24", "CrystFEL geometry files round trip without moving pixels",
  "Writing any AGIPD, LPD or DSSC geometry to a CrystFEL file and loading it again gives the same geometry to within the written precision, whatever the size or sign of the components, and the file is accepted by the CrystFEL geometry parser with every panel's data slab, dimensions and mask paths, photon energy and distance as given. Loading any supported CrystFEL file places each panel where the file says.",
  ["inputs"],
  "all geometries with arbitrary positions, rotations and offsets (including tiny, zero and negative components) and all combinations of writer options",
  "Tests round-trip one default geometry per detector, so formats of unusual numbers or swapped panels with equal defaults are not seen.",
  [G, "karabo_data/geometry2/crystfel_fmt.py"], [("write_crystfel_geom / from_crystfel_geom", G), ("write_crystfel_geom", "karabo_data/geometry2/crystfel_fmt.py")],
  "written .geom text parsed with cfelpyutils, and the reloaded geometry")

p("C25", "Run and file summaries state the truth about the data",
  "The printed and returned summaries of a run, file, detector and train (train count, first and last train, duration, source lists, detector modules, frame and entry counts, pixel dimensions) equal those of the data, for any selection of it. Showing a summary never fails on data that can be opened.",
  ["inputs", "configurations"],
  "all runs and selections; the info methods and the listing command on files, runs and several paths at once",
  "Tests only check that two summaries run without error on one mock run.",
  [R, "karabo_data/lsxfel.py"], [("DataCollection.info / detector_info / train_info", R), ("lsxfel.main, describe_file, describe_run", "karabo_data/lsxfel.py")],
  "standard output and return values of the summary functions")

p("C26", "Data files are opened read-only, never modified, and closed on exit",
  "No reading, selecting, writing-elsewhere, validating, streaming or summarising operation changes the bytes, size, names or modification times of the original data files, or creates files other than the requested output and the run map; writing to one of the collection's own files, by any name, is refused. After leaving a 'with' block on an opened collection all its data files are closed, while using the collection again still works.",
  ["histories", "programs"],
  "all sequences of API operations on any run",
  "Tests never compare the files before and after and never look at open file descriptors.",
  [R, W, F], [("FileAccess.file / close", R), ("DataCollection.__exit__", R)],
  "file hashes, stat data and directory listing before and after; open descriptors of the process; system-call level open flags")

p("C27", "Results do not depend on what was done before or alongside",
  "Any access gives the same result whichever accesses, selections, unions, partially consumed iterations or closings came before it on the same or derived collections, and however several iterations are interleaved. Deriving a collection, reading from it or modifying returned arrays never changes the original or its later results, and repeating an operation gives an equal result.",
  ["histories", "schedules"],
  "all interleaved histories of operations over a family of collections derived from the same open files",
  "Tests make each access once on a fresh collection; cached indexes, keys and datasets shared between collections are never hit in a different order.",
  [R, M], [("FileAccess._index_cache / _keys_cache", R), ("TrainIterator._datasets_cache", R), ("shared FileAccess objects and selections", R)],
  "results of each operation in a random history compared with the same operation on a freshly opened run and with the reference model")

p("C28", "Exported images and listings show exactly what a file holds",
  "Converting an image of a detector file, of either file format, or of a stack in memory to a CBF file gives an image with exactly the values of the entry asked for, and the header passed in. QuickView shows the image of its position, or the one asked for, under its number; its position follows next, previous and assignment and never leaves the stack, and data or positions it cannot show are refused. The listings of a file name every group and dataset in it with its true path, and the index command also its shape and type, and nothing else. None of them modifies the file or the data.",
  ["inputs", "histories"],
  "all files, integer images, image positions, and sequences of viewer operations; all trees of groups and datasets",
  "Tests convert one all-zero image without reading it back, never move the viewer, and do not cover the listings.",
  ["karabo_data/utils.py", "karabo_data/h5index.py"], [("hdf5_to_cbf, numpy_to_cbf, QuickView, hdf5_paths", "karabo_data/utils.py"), ("hdf5_datasets", "karabo_data/h5index.py")],
  "CBF files read back with fabio; the image and title held by matplotlib; printed listings parsed; file hashes")

p("C29", "What is not there is refused by name, never replaced by something else",
  "Asking a collection, through any interface, for a source, a key or a train it does not have (never had, or dropped by a selection; however similar its name is to one which is there) raises the error for an unknown source, key, train ID or position, naming it, and leaves the collection as it was. A field whose files store different types or shapes is either read with every value exact and in its place, or refused: values are never converted with loss, reshaped or repeated.",
  ["inputs", "configurations"],
  "all collections and all names, keys, train IDs and positions not in them; all combinations of types and shapes of one field in several files",
  "Tests ask for two or three made-up names on a whole run; selections, similar names and files of differing layout are never tried.",
  [R, W, "karabo_data/exceptions.py"], [("DataCollection._check_field / keys_for_source / train_from_id / get_array / get_dask_array", R), ("VirtualFileWriter._assemble_data", W)],
  "errors raised and values returned by each access, compared with the contents of the collection")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
