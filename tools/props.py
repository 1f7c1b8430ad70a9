"""The single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

S = "src/kikuchipy/"
TECH = "TLA+ specification model checked with TLC and bound by trace validation"


def P(id, title, statement, over, quant, why, files, mech, note, observe=None, state=None,
      claimed=True):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                files=[S + f for f in files],
                mech=[dict(name=n, where=S + w) for n, w in mech],
                observe=observe or [], state=state or [], note=note, claimed=claimed)


PROPS = [
    P("C01", "Patterns, detector, map and background stay matched in any history",
      "After any sequence of cropping, slicing, rebinning, downsampling, lazy/eager conversion, "
      "data type change and copying of an EBSD signal, its detector has the patterns' shape and "
      "one projection center per pattern (or a single one), its crystal map (if any) has exactly "
      "the map points of the patterns, and its static background (if any) has the patterns' shape. "
      "Each pattern keeps the crystal map point it had, and the projection centers it had when "
      "the signal dimensions were not cut, and cutting the signal dimensions cuts the background "
      "alike and shifts and scales the projection centers so that every remaining detector pixel "
      "keeps its direction towards the sample.",
      ["histories", "inputs"],
      "All sequences of signal operations on signals with 0, 1 or 2 navigation dimensions, with "
      "single or per-pattern projection centers, with and without crystal map and static background",
      "Tests call one or two operations on the 3x3 nickel map; consistency is a relation between "
      "four objects that must survive every order of operations.",
      ["signals/ebsd.py", "signals/util/_overwrite_hyperspy_methods.py",
       "signals/util/_detector.py", "signals/util/_crystal_map.py", "detectors/_ebsd_detector.py"],
      [("custom attributes follow slices", "signals/ebsd.py:_update_custom_attributes"),
       ("crop, rebin, slicer overrides", "signals/ebsd.py:crop, rebin, _slicer"),
       ("detector crop", "detectors/_ebsd_detector.py:crop")],
      "Histories generated by TLC and at random are replayed and every state is compared to the "
      "specification's; small maps and detectors."),
    P("C02", "Operations leave signals and arguments they must not change alone",
      "An operation called with inplace=False, an analysis, an indexing or refinement run, a plot "
      "preparation or a save never changes the patterns, axes, metadata, detector, crystal map or "
      "static background of the signal it is called on, nor any array, detector, map, window, "
      "mask or dictionary passed to it. Changing what such an operation returned later does not "
      "change the signal it came from either.",
      ["histories", "inputs"],
      "Every public operation with every kind of argument it takes, eager and lazy",
      "Tests compare results and rarely the operands; aliasing shows only when the operand is used "
      "again or the result is modified.",
      ["signals/ebsd.py", "signals/_kikuchipy_signal.py", "pattern/_pattern.py",
       "indexing/_refinement/_refinement.py", "indexing/_hough_indexing.py",
       "indexing/_merge_crystal_maps.py"],
      [("inplace handling", "signals/ebsd.py"), ("deepcopy of custom attributes",
       "signals/ebsd.py:deepcopy")],
      "A content fingerprint of every operand before and after each call, and of the source after "
      "mutating the result, judged by the specification's frame conditions."),
    P("C03", "Lazy, chunked, in-place and eager processing give the same patterns",
      "For every pattern processing method, the resulting patterns, data type and shape do not "
      "depend on whether the signal is lazy, on how its data are chunked, on whether the result is "
      "asked for lazily, or on whether it is put in place or returned. A returned result is lazy "
      "exactly when asked for, or by default when the signal was lazy, and the patterns of one map point "
      "do not depend on other map points unless the method combines them by definition.",
      ["inputs", "configurations", "schedules"],
      "All methods x {eager, lazy} x chunkings x inplace/lazy_output x data types x navigation "
      "dimensions 0-2",
      "Tests try one chunking per method, mostly of the 3x3 map, and compare few pixels.",
      ["signals/ebsd.py", "signals/_kikuchipy_signal.py", "signals/util/_dask.py",
       "pattern/chunk.py", "signals/util/_map_helper.py"],
      [("dask arrays and chunking", "signals/util/_dask.py:get_dask_array"),
       ("output placement", "signals/ebsd.py, signals/_kikuchipy_signal.py")],
      "TLC enumerates the configurations; results are compared in the trace specification."),
    P("C04", "Rescaled and normalized intensities fill exactly the asked range",
      "Rescaling maps the input intensity range (the pattern's own, the given one, the given "
      "percentiles or the whole signal's for relative rescaling) linearly onto the asked output "
      "range, or onto the output data type's range, clipping what falls outside, and keeps the order of "
      "intensities. Normalizing shifts and scales each pattern to mean 0 and a standard deviation of one "
      "over the asked number (further divided by the root of the number of pixels if asked for). "
      "Adaptive histogram equalization treats each pattern alone, fills the data type's range and by "
      "default uses regions of a quarter of the height and width. All of these keep axes and metadata "
      "and give the asked data type, for EBSD patterns, virtual images and master patterns.",
      ["inputs", "configurations"],
      "All patterns with contrast, data types, in/out ranges, percentiles, relative or not",
      "Tests use a few 3x3 patterns with fixed expectations.",
      ["pattern/_pattern.py", "signals/_kikuchipy_signal.py", "signals/virtual_bse_image.py",
       "signals/_kikuchi_master_pattern.py"],
      [("rescaling", "pattern/_pattern.py:_rescale_with_min_max"),
       ("signal methods", "signals/_kikuchipy_signal.py:rescale_intensity, normalize_intensity")],
      "Exact integer arithmetic in TLA+ over random and enumerated small patterns; tolerance of one "
      "intensity step."),
    P("C05", "Background removal and correction follow their definitions",
      "Static background removal gives the pattern minus (or divided by) the background, which is "
      "first scaled to each pattern's intensity range if asked for, stretched to the data type's range; dynamic background "
      "removal gives the pattern minus (or divided by) its Gaussian blurred version of the asked "
      "width, stretched likewise. Getting the dynamic background returns that blurred pattern, in "
      "the asked filter domain and data type, pattern by pattern. The default width is an eighth of "
      "the pattern width.",
      ["inputs", "configurations"],
      "All patterns, backgrounds, operations, domains, widths, truncations and data types",
      "Tests hold a handful of expected arrays for 3x3 patterns.",
      ["signals/ebsd.py", "pattern/_pattern.py", "pattern/chunk.py", "filters/fft_barnes.py"],
      [("static", "pattern/_pattern.py:_remove_static_background_subtract/_divide"),
       ("dynamic", "pattern/_pattern.py:_remove_dynamic_background"),
       ("FFT domain", "filters/fft_barnes.py")],
      "The specification convolves small integer patterns with a tabulated kernel and derives the "
      "corrected pattern in integer arithmetic; tolerance of a few intensity steps."),
    P("C06", "Neighbour averaging is the window-weighted mean, for any window and chunking",
      "Averaging patterns with their neighbours gives every pattern the mean of the patterns "
      "inside the window placed on its map point, weighted with the window's coefficients and "
      "ignoring points outside the map, stretched to the range of the unchanged data type. This "
      "holds for any one- or two-dimensional window of positive sum, symmetric or not, and does "
      "not depend on the chunking of the map.",
      ["inputs", "configurations", "schedules"],
      "All map shapes, windows, chunkings, data types, eager/lazy/in-place variants",
      "Tests cover a 3x3 map with a few symmetric windows; chunk borders need larger maps.",
      ["signals/ebsd.py", "pattern/chunk.py", "filters/window.py"],
      [("overlapping chunks", "signals/ebsd.py:average_neighbour_patterns"),
       ("correlation and rescaling", "pattern/chunk.py:_average_neighbour_patterns")],
      "TLC checks the chunk/halo design for all chunkings of small maps and the implementation is "
      "run on each and on random cases; integer arithmetic in TLA+."),
    P("C07", "Downsampling averages the right pixels and scales the detector",
      "Downsampling by a factor replaces every factor x factor block of detector pixels by their "
      "mean stretched to the output data type's range, in every pattern, and the detector "
      "afterwards has the new shape, its binning multiplied by the factor and unchanged relative "
      "projection centers, so that each block keeps its direction. A static background is downsampled "
      "alike. Shapes that are not multiples of the factor are refused and leave the signal unchanged.",
      ["inputs", "configurations"],
      "All detector shapes, factors, data types, output types, lazy/eager",
      "Tests downsample two shapes by two factors.",
      ["signals/ebsd.py", "pattern/_pattern.py", "detectors/_ebsd_detector.py"],
      [("block mean", "pattern/_pattern.py:_downsample2d"),
       ("signal method", "signals/ebsd.py:downsample")],
      "Exact block sums in TLA+ for small shapes and all factors."),
    P("C08", "Projection center conventions and detector geometry agree with each other",
      "Projection centers written and read in the Bruker, EDAX, Oxford and EMsoft conventions "
      "describe the same detector point: conversions to and from any of them are mutually inverse for every "
      "detector shape, pixel size and binning, for one or many projection centers. Gnomonic "
      "bounds, ranges, scales, maximum radius and the pixel-to-gnomonic coordinate conversions "
      "all follow from shape and projection center, and converting coordinates there and back "
      "returns them. The rotation from the sample to the detector is the sample tilt, detector "
      "tilt, azimuthal and twist applied in turn about the detector's own axes.",
      ["inputs", "configurations"],
      "All detector shapes, projection center arrays, pixel sizes, binnings, conventions and "
      "convention versions",
      "Tests check published single values per convention for one detector.",
      ["detectors/_ebsd_detector.py", "detectors/_convert_detector_coordinates.py",
       "_utils/_gnonomic_bounds.py"],
      [("conventions", "detectors/_ebsd_detector.py:pc_*, _set_pc_from_convention"),
       ("gnomonic", "detectors/_ebsd_detector.py:gnomonic_bounds, r_max"),
       ("coordinates", "detectors/_convert_detector_coordinates.py")],
      "Rational arithmetic in TLA+; all conventions pairwise, small and random detectors."),
    P("C09", "Saving and copying a detector loses nothing",
      "A detector that is saved and loaded, or deep-copied, has the same shape, projection centers "
      "(also for 1D and 2D maps), tilts, twist, binning, pixel size and navigation shape, in any "
      "of the supported conventions. Cropping it keeps the physical projection center and every "
      "other attribute, resizing it, setting its navigation shape or one attribute change only "
      "what they name, and a detector never shares its projection centers with another.",
      ["inputs", "histories"],
      "All detector attributes, navigation shapes and conventions; all sequences of detector "
      "operations",
      "Tests save one or two detectors and compare some attributes.",
      ["detectors/_ebsd_detector.py"],
      [("save/load", "detectors/_ebsd_detector.py:save, load"),
       ("crop/deepcopy", "detectors/_ebsd_detector.py:crop, deepcopy")],
      "Detector histories stepped through a TLA+ state machine."),
    P("C10", "The h5ebsd file keeps every scan written and nothing else is lost",
      "A signal saved to kikuchipy's h5ebsd format and loaded again (eagerly or lazily) has the "
      "same patterns, data type, axes, scan metadata, detector, crystal map and static background. Adding a scan to a file leaves "
      "the scans already in it as they were, and a save that is refused, declined or cannot find a free scan number leaves "
      "the file byte-wise readable with its previous content.",
      ["histories", "inputs", "fault_sequences"],
      "All sequences of saves, adds, overwrites, declined overwrites and loads, on 0-2D signals "
      "of any data type",
      "Tests save one scan, add one, and compare parts of them.",
      ["io/plugins/kikuchipy_h5ebsd/_api.py", "io/plugins/_h5ebsd.py", "io/_io.py", "io/_util.py"],
      [("writer", "io/plugins/kikuchipy_h5ebsd/_api.py:KikuchipyH5EBSDWriter"),
       ("reader", "io/plugins/_h5ebsd.py"), ("save logic", "io/_io.py:_save")],
      "A file is a map from scan number to scan in the specification; TLC's histories are replayed "
      "on real files in a scratch folder."),
    P("C11", "Readers put each stored pattern and its metadata at its map position",
      "Reading a vendor file (NORDIF, EDAX binary and h5, Bruker h5, Oxford binary and h5, EMsoft, "
      "or a folder of images) returns the pattern recorded for map row r and column c at that "
      "position, together with the projection center, phase and orientation recorded for it, in "
      "the recorded data type, shape and step sizes. Loading lazily or in pieces gives the same "
      "as loading eagerly.",
      ["inputs", "configurations"],
      "All map shapes, pattern shapes, scan patterns and orders of storage the formats allow",
      "The bundled files hold one 3x3 or smaller map per format.",
      ["io/plugins"],
      [("readers", "io/plugins/*/_api.py")],
      "Files in each format are synthesised with distinguishable patterns from cases enumerated by "
      "TLC, and the loaded signal is compared to the specification's placement."),
    P("C12", "Dictionary indexing returns the exact best matches, however it is chunked",
      "For each experimental pattern the n best matches are exactly those dictionary patterns with the "
      "highest similarity among all dictionary patterns, sorted from best to worst with their own scores and the "
      "rotations they were simulated with. The result does not depend on the number of patterns "
      "per iteration, chunking, laziness, or the order of the experimental patterns, and points or pixels masked out do "
      "not influence it; masked points are reported as not indexed.",
      ["inputs", "configurations", "schedules"],
      "All dictionaries, patterns, iteration sizes, metrics, masks, keep_n, lazy/eager combinations",
      "Tests index 9 patterns against a tiny dictionary in one or two chunks.",
      ["indexing/_dictionary_indexing.py", "indexing/similarity_metrics", "signals/ebsd.py"],
      [("running top-k", "indexing/_dictionary_indexing.py:_dictionary_indexing, _match_chunk")],
      "TLC proves the running top-k merge for all small score tables and iteration sizes; "
      "implementation runs on patterns whose score order is known exactly."),
    P("C13", "Merging crystal maps picks the best phase in each point",
      "The merged map has in each point the phase, rotations and scores of the input map with the best "
      "score there (mean of the n best, for similarity or distance scores alike), chooses among the maps that "
      "indexed the point and that are not masked there, and marks a point as not indexed only if none did. Ids in the merged "
      "phase list denote the phases of the input maps, and the merged similarity matches are the union of "
      "all inputs' matches sorted from best to worst.",
      ["inputs", "configurations"],
      "All maps, scores, masks, indexed-flags, numbers of matches and phases",
      "Tests merge two or three maps of regular content.",
      ["indexing/_merge_crystal_maps.py"],
      [("merge", "indexing/_merge_crystal_maps.py:merge_crystal_maps")],
      "TLC enumerates score tables, masks and flags of small maps."),
    P("C14", "Orientation similarity counts common matches of neighbours",
      "The orientation similarity map gives each point the mean, over its neighbours inside the "
      "map and footprint, of the number of matches among the n best that the two points have in "
      "common, for any footprint, center and number of best matches, normalized if asked for; "
      "decreasing n from a start gives one such map per n.",
      ["inputs", "configurations"],
      "All match index tables, map shapes (1D and 2D), footprints, n_best, normalization",
      "Tests use one 3x3 example.",
      ["indexing/_orientation_similarity_map.py"],
      [("map", "indexing/_orientation_similarity_map.py:orientation_similarity_map")],
      "Exact rational arithmetic in TLA+."),
    P("C15", "Neighbour dot products compare each pattern with its own neighbours",
      "The neighbour dot product matrices hold, for each map point, the (normalized) dot product of its "
      "pattern with the pattern at each window offset, and nothing for offsets outside the map or window; "
      "the average map is the mean of these without the point itself. Neither depends on "
      "chunking or on passing precomputed matrices.",
      ["inputs", "configurations", "schedules"],
      "All map shapes, windows, chunkings, zero mean and normalization settings",
      "Tests use the 3x3 nickel map and one window in one chunk.",
      ["signals/ebsd.py", "signals/util/_map_helper.py"],
      [("map helper", "signals/util/_map_helper.py"),
       ("methods", "signals/ebsd.py:get_neighbour_dot_product_matrices, "
        "get_average_neighbour_dot_product_map")],
      "Patterns with exactly representable dot products; comparison in TLA+."),
    P("C16", "Refinement results belong to the map points they are stored in",
      "Refining orientations and/or projection centers returns, for each map point asked for, the "
      "result of optimizing that point's own pattern from that point's own start orientation and "
      "projection center, with bounds given by the trust region, and score never worse than that of "
      "the start; points not asked for are left out of the returned map, or in it as not indexed. This does "
      "not depend on the navigation or signal mask's other points, the chunking, laziness or the size of the map, "
      "and with pseudo-symmetry operators the best candidate is kept and its index reported.",
      ["inputs", "configurations", "schedules"],
      "All masks, maps, chunkings, solvers, pseudo-symmetry operators and projection center layouts",
      "Tests refine the 9-pattern map and check that something was returned.",
      ["indexing/_refinement/_refinement.py", "indexing/_refinement/_solvers.py",
       "indexing/_refinement/_objective_functions.py", "signals/ebsd.py"],
      [("per-point arrays", "indexing/_refinement/_refinement.py"),
       ("solvers", "indexing/_refinement/_solvers.py")],
      "Each point's result in a map is compared with the result of that point refined alone; "
      "bookkeeping judged by the specification."),
    P("C17", "A refinement is not affected by others before, after or beside it",
      "The result of a refinement, computed at once or later, depends only on the arguments "
      "of its own call: not on refinements set up before or after it in the same process, not on the "
      "order in which several lazy refinements are computed and not on how "
      "the points are scheduled on threads. Within a refinement, the result of a point depends only "
      "on its own pattern, rotation and projection center, not on the other points.",
      ["histories", "schedules"],
      "All interleavings of creating and computing refinements with different methods, metrics, "
      "masks and detectors; all thread schedules of the points of one refinement",
      "Tests run one refinement at a time, each computed immediately, with one thread pool order.",
      ["indexing/_refinement/_refinement.py", "indexing/_refinement/_solvers.py"],
      [("solver arguments", "indexing/_refinement/_refinement.py:_RefinementSolver")],
      "TLC enumerates the create/compute interleavings and the two-thread schedules; each is "
      "replayed on the code."),
    P("C18", "Virtual backscatter images are sums over exactly the asked pixels",
      "A virtual image of a map of one or two dimensions from a region of the detector is, for each "
      "map point, the sum of that point's pattern over exactly the pixels inside the region, also "
      "when the detector axes have a scale and an offset. The tiles of an imaging grid are "
      "rectangles that partition the detector, with borders as close to an even division as whole "
      "pixels allow, and the image of tile (row, column) is at that position. An RGB image of a 2D "
      "map has in each channel the sum of the regions named for it, all three stretched "
      "together to the output range (optionally between percentiles and after multiplying with "
      "an alpha channel), in the map's shape and step sizes. A grid drawn on a pattern has its lines, indices and coloured "
      "tiles where these tiles are, and an image shown for a region follows the region when it is moved.",
      ["inputs", "configurations"],
      "All detector shapes, grid shapes, regions, map shapes, lazy or not",
      "Tests use one grid that divides the detector evenly.",
      ["imaging/vbse.py", "signals/ebsd.py", "signals/virtual_bse_image.py"],
      [("grid", "imaging/vbse.py:VirtualBSEImager"),
       ("ROI sum", "signals/ebsd.py:get_virtual_bse_intensity")],
      "All grids on small detectors enumerated by TLC and replayed."),
    P("C19", "An extracted grid holds the patterns of the returned map positions",
      "Extracting a grid of patterns returns as many patterns per axis as asked for, taken from "
      "distinct equally spaced positions inside the map, centered in it to within one position, and returns those "
      "positions; every extracted pattern, projection center and crystal map point is the one at its position, "
      "and the new step sizes are the spacing. It does not depend on the signal being lazy.",
      ["inputs", "configurations"],
      "All map shapes (1D and 2D) and grid shapes",
      "Tests extract grids of two or three shapes.",
      ["signals/ebsd.py"],
      [("grid", "signals/ebsd.py:extract_grid"),
       ("index", "signals/util/_crystal_map.py, signals/util/_detector.py")],
      "All maps up to a bound enumerated by TLC and replayed."),
    P("C20", "Simulated patterns follow their own rotation, detector pixel and energy",
      "Each pattern simulated from a master pattern is at its rotation's place in the navigation "
      "shape and depends only on that rotation and that point's projection center; each pixel has the master "
      "pattern intensity (bilinear, of the right hemisphere and energy) in the direction that the "
      "pixel has after rotation. Output type, rescaling and the chunking change only the number representation.",
      ["inputs", "configurations", "schedules"],
      "All rotations, detectors (single/many projection centers), energies, chunkings, output types",
      "Tests compare a few mean intensities.",
      ["signals/ebsd_master_pattern.py", "signals/util/_master_pattern.py"],
      [("projection", "signals/util/_master_pattern.py"),
       ("signal method", "signals/ebsd_master_pattern.py:get_patterns")],
      "Master patterns that encode their own pixel position make the sampled direction observable."),
    P("C21", "Master pattern projections represent the same sphere",
      "Projecting a master pattern from stereographic to Lambert keeps, in each direction of the "
      "sphere, the intensity of that direction, for every hemisphere and energy, so that patterns simulated from "
      "the result have the intensities of their pixels' directions. Where a crystal with inversion "
      "symmetry has one hemisphere only, opposite directions have the same intensity.",
      ["inputs"],
      "All directions, hemispheres, energies and master pattern sizes",
      "Tests compare two arrays from the bundled nickel file.",
      ["signals/ebsd_master_pattern.py", "signals/_kikuchi_master_pattern.py",
       "signals/util/_master_pattern.py"],
      [("projection", "signals/_kikuchi_master_pattern.py:as_lambert")],
      "Directions with rational coordinates; integer arithmetic with scaled tables."),
    P("C22", "Hough indexing results are placed at their map points",
      "Hough indexing returns in each map point the solution for the pattern there, with phase ids "
      "that denote the phases the indexer was set up with, not-indexed points marked so, the map's shape and step "
      "sizes, for any navigation shape of at most two dimensions. A projection center optimized per pattern is "
      "that of its map point; an indexer that does not fit the patterns or phases is refused.",
      ["inputs", "configurations"],
      "All navigation shapes, phase lists, indexer outputs",
      "Tests index the 3x3 nickel map with one or two phases.",
      ["indexing/_hough_indexing.py", "signals/ebsd.py"],
      [("conversion", "indexing/_hough_indexing.py:xmap_from_hough_indexing_data")],
      "Synthetic indexer output tables enumerated by TLC, and permuted real patterns."),
    P("C23", "Similarity metrics and image quality ignore gain, offset and masked pixels",
      "The similarity of two patterns is the normalized cross-correlation (or normalized dot "
      "product) of their unmasked pixels: it is 1 for a pattern with itself, at most 1, and the former is "
      "unchanged by adding an offset to or multiplying a pattern by a gain. Image quality of a "
      "pattern is unchanged by a gain (when normalized, by an offset too) and does not depend on the other patterns.",
      ["inputs", "configurations"],
      "All patterns, masks, data types, chunkings",
      "Tests check a few numbers.",
      ["indexing/similarity_metrics", "pattern/_pattern.py", "signals/ebsd.py"],
      [("metrics", "indexing/similarity_metrics/*.py"),
       ("image quality", "pattern/_pattern.py:get_image_quality")],
      "Integer patterns with exact sums; squared correlations compared as rationals."),
    P("C24", "Projection center planes and extrapolation reproduce affine data exactly",
      "Extrapolating a projection center over a map gives the reference point the mean of the given "
      "centers and moves it along the map exactly by the sample step sizes and tilts; fitting a plane to "
      "projection centers that lie on one returns that plane in every map point, ignoring masked outliers, "
      "in either fit method. Flattened, masked or reordered inputs give the same. Figures of fits and tilt "
      "estimates show the centers, the fitted ones, the outliers and the line by the coordinates on their axes.",
      ["inputs", "configurations"],
      "All map shapes, step sizes, tilts, point subsets and outlier masks",
      "Tests use one synthetic plane.",
      ["detectors/_ebsd_detector.py", "detectors/_fit_projection_center.py",
       "detectors/_calibration.py"],
      [("extrapolate", "detectors/_ebsd_detector.py:extrapolate_pc"),
       ("fit", "detectors/_fit_projection_center.py")],
      "Exact affine planes with scaled integers."),
    P("C25", "Simulations show exactly the bands and zone axes of their reflectors",
      "A geometrical simulation contains, for each map point, the bands (as lines) and zone axes of "
      "the given reflectors whose rotated directions meet the detector's plane in front of it: every line is on "
      "the trace of its band, from where it enters to where it leaves the gnomonic circle around the detector (the "
      "largest one in the map), every zone axis on or within one pixel of the detector is at its gnomonic "
      "and pixel coordinates with its own label, all given by that point's rotation and projection center, in the "
      "order of the reflectors and the navigation shape, equally from coordinates, collections and "
      "markers. In a kinematical master pattern each pixel is the sum of the intensities (|F|, |F|^2 or 1) of the "
      "bands it is in, whatever the number and schedule of threads. A figure of a simulation shows one pattern's "
      "lines, zone axes, labels, projection center and screen borders; a figure of a simulator shows each reflector's "
      "great circle, or the two borders of its band, on the sphere, weighted by its intensity.",
      ["inputs", "configurations", "schedules"],
      "All rotations, tilts, projection centers, reflector lists, lattices, navigation shapes and thread schedules",
      "Tests use one or two orientations of nickel and one thread schedule.",
      ["simulations/kikuchi_pattern_simulator.py", "simulations/_kikuchi_pattern_simulation.py",
       "simulations/_kikuchi_pattern_features.py"],
      [("on detector", "simulations/kikuchi_pattern_simulator.py:on_detector"),
       ("kinematical", "simulations/kikuchi_pattern_simulator.py:get_pattern"),
       ("features", "simulations/_kikuchi_pattern_features.py")],
      "Integer Miller indices, lattices, quaternions and rational angles make every direction an exact integer vector."),
    P("C26", "Windows and filters do what their shape and values say",
      "A named window has the asked shape, its formula's values and its origin at half the shape; made "
      "circular, exactly the elements beyond the longest half axis become zero, in that window only and in any "
      "order with copying, cutting and scaling; low- and high-pass windows are 1 and 0 on the right sides "
      "of the cut-off. Filtering patterns with a spatial kernel gives the kernel's correlation with edge pixels "
      "repeated, filtering with a transfer function (shifted or not) gives the cyclic convolution with its kernel, "
      "stretched to the data type's range per pattern, for every shape of pattern and kernel, lazy or not, in "
      "place or not, and leaves the arguments as they were. The Fourier transform of a pattern is what its definition "
      "says and is undone by its inverse with the same options.",
      ["inputs", "configurations", "histories"],
      "All window shapes and types, kernels, patterns, data types, transform options and operation orders",
      "Tests cover a few square shapes.",
      ["filters/window.py", "filters/fft_barnes.py", "pattern/_pattern.py", "signals/ebsd.py"],
      [("windows", "filters/window.py"), ("padding", "filters/fft_barnes.py"),
       ("fft", "pattern/_pattern.py:fft_filter")],
      "Enumerated shapes and integer kernels; integer arithmetic in TLA+."),
    P("C27", "A moving screen calibrates the PC exactly",
      "Given the same features in two patterns with the screen a known distance apart, the calibration "
      "estimates the projection center from every pair of features which are not on a line through it, in "
      "the order of the pairs: the intersection of the lines between the patterns if it is on the detector, "
      "and the distance from how much the length between the features has grown, in the unit and convention "
      "asked for. For features of an exact projection every estimate is the true center; the mean is over "
      "the estimates; patterns and features are kept. The figure shows the patterns, features, the lines "
      "between them, the estimates and their mean where they are.",
      ["inputs", "configurations"],
      "All sets of features, distances, pattern shapes, pixel sizes, binnings and conventions",
      "Tests cover one downloaded pair of patterns.",
      ["detectors/_calibration.py"],
      [("estimates", "detectors/_calibration.py")],
      "Enumerated exact projections and inexact features; integer arithmetic in TLA+."),
    P("C28", "Datasets are given only as expected, and downloaded only if allowed and needed",
      "A dataset function gives the file documented for its arguments, and only if its content is as "
      "expected. The network is used only if downloads are allowed and the file is neither in the package nor "
      "(as expected) in the cache. Whatever stopped calls, damaged files and bad downloads left in the cache, one "
      "call with a working server gives the file, and leaves neither archive nor temporary files behind; other "
      "files stay. Clearing the cache empties that directory and nothing else.",
      ["crash points", "histories", "configurations"],
      "All histories of calls, faults of the server, stops in every step, damage and clearing, for datasets in "
      "the package, alone and in archives",
      "Tests need the network, and none has a fault.",
      ["data/_data.py", "data/_registry.py"],
      [("fetching", "data/_data.py:Dataset.fetch_file_path"), ("clearing", "data/_data.py:clear_cache")],
      "Histories of up to 4 events from the model, random ones of up to 8; made-up files, no real network."),
    P("C29", "Files hold what was saved, and only saves agreed to change them",
      "Saving writes the patterns as they are at that moment to the file asked for (by name, by the extension "
      "given as an option, or, without a name, the file last loaded or saved), overwriting an existing file only if told or "
      "answered so, and touches no other file; this also when the file is the one lazy patterns come from, and "
      "when patterns were processed inplace after an earlier save. Whatever the extension's case, a file is read "
      "by the plugin fitting its content, and one which none fits is refused.",
      ["histories", "configurations"],
      "All histories of loading, saving, changing and answering prompts over names, extensions and formats; "
      "sequences of inplace operations on lazy patterns, saved between",
      "Tests save once to a new file.",
      ["io/_io.py", "signals/ebsd.py", "io/plugins/nordif"],
      [("saving", "signals/ebsd.py:EBSD.save"), ("format choice", "io/_io.py:_save"), ("reading", "io/_io.py:load")],
      "Histories of up to 3 events from the model, random ones of up to 9; formats NORDIF, h5ebsd and hspy."),
    P("C30", "Decomposition models are the sum of the components asked for, and change nothing",
      "A model from a decomposition is exactly the sum of the components chosen (all, the first n, or those "
      "listed, in any order), plus the mean subtracted before; components not there are refused. It has the signal's crystal map, detector and "
      "background as its own, and no learning results. Written to file it keeps relative intensities over the "
      "whole range of the patterns' type. Learning results, patterns and other files stay as they are, also when making a model fails.",
      ["inputs", "histories", "fault points"],
      "All choices of components over small learning results, sequences of models and written models, some failing",
      "Tests compare mean intensities of three choices.",
      ["signals/ebsd.py", "signals/util/_dask.py"],
      [("model", "signals/ebsd.py:EBSD.get_decomposition_model"), ("written", "signals/ebsd.py:LazyEBSD.get_decomposition_model_write"),
       ("choice", "signals/util/_dask.py:_update_learning_results")],
      "Integer learning results of up to 12 patterns, 16 pixels and 5 components; real decompositions to rounding."),
    P("C31", "Detector plots show things where they are",
      "A detector's screen is drawn first row on top, with borders and axis limits at its bounds in pixel or gnomonic "
      "coordinates, the average projection center at its place and gnomonic circles with the tangents of their angles. In the side "
      "and top views the screen's corners and the projection center lie where the geometry of simulated patterns "
      "places them for the detector's tilt, azimuthal angle, pixel size and average projection center, and the sample is tilted by its tilt. "
      "Plots of projection centers, of pattern positions in a map and of colour navigators show each value at its own map point.",
      ["inputs", "configurations"],
      "Shapes down to one pixel, maps of projection centers, tilts with rational sines, regions and areas",
      "Tests compare a few drawn coordinates of single detectors.",
      ["draw/_ebsd_detector_plot.py", "draw/_projection_center_plot.py", "draw/_plot_pattern_positions_in_map.py", "draw/_navigators.py"],
      [("screen", "draw/_ebsd_detector_plot.py:plot_ebsd_detector"),
       ("top view", "draw/_ebsd_detector_plot.py:plot_detector_sample_geometry_top_view"),
       ("positions", "draw/_plot_pattern_positions_in_map.py:plot_pattern_positions_in_map")],
      "The views are compared to exact integer geometry shared with the specification of simulated patterns."),
    P("C32", "Interactive detector views always show the detector as it is",
      "Whatever sliders are moved, boxes ticked or attributes of an inplace detector set elsewhere, in any order, every figure of a "
      "plotter shows the side view, top view and screen of the detector as it then is, with the simulated pattern, "
      "bands and zone axes for its own orientation sliders and the boxes ticked: the same as static plots and simulations of "
      "that detector. A slider sets its own attribute only. The user's detector is not changed unless the plotter was made inplace.",
      ["histories", "configurations"],
      "All histories of four events over two attributes, one angle and four boxes, in one or two figures",
      "Tests move one slider once.",
      ["draw/_ebsd_detector_plotter.py", "draw/_ebsd_detector_plot.py", "simulations/_geometrical_simulation.py"],
      [("plotter", "draw/_ebsd_detector_plotter.py:EBSDDetectorPlotter"),
       ("overlays", "draw/_ebsd_detector_plotter.py:MasterPatternOverlay")],
      "TLC enumerates the histories with the state after each event; each is replayed on real sliders and boxes."),
    P("C33", "Master patterns say what they hold in any history",
      "After any sequence of slicing, cropping, copying, lazy and eager conversion, change of data type, class, projection or phase and "
      "intensity adjustment, a master pattern's images are those of the hemispheres, energies and projection it says it has, of its "
      "own phase, and no other master pattern has changed. Patterns projected from it are of the hemisphere and the energy asked for.",
      ["histories", "inputs"],
      "All histories of two operations and sampled ones of five, from master patterns of one or both hemispheres, with or without "
      "energy axis, lazy and not, in both projections",
      "Tests slice one energy once and look at one attribute.",
      ["signals/_kikuchi_master_pattern.py", "signals/ebsd_master_pattern.py", "signals/_kikuchipy_signal.py"],
      [("attributes after slicing", "signals/_kikuchi_master_pattern.py:KikuchiMasterPattern._slicer"),
       ("image for an energy", "signals/_kikuchi_master_pattern.py:KikuchiMasterPattern._get_master_pattern_arrays_from_energy")],
      "TLC generates the histories; each is replayed on real master patterns of constant images, so each image names itself."),
]
