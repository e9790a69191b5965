P("P01", "Histogram with reverse indices is an exact partition of the data",
  """For every array, bin size or bin count and minimum/maximum, the histogram's counts, bin edges and reverse indices
  describe the same exact partition: every in-range element belongs to exactly one bin, the one its value falls in, listed in data order, and
  out-of-range elements belong to none. The call never reads or writes outside its arrays and never changes its input.""",
  "all 1-D/2-D integer and float arrays, bin sizes, bin counts, minima, maxima (including none in range, negative values, rounding at the right edge)",
  "Existing tests compare a handful of stored IDL outputs; gridding, flagging and calibration all index through reverse indices, and a wrong entry on an untested value range silently corrupts or crashes (numba, no bounds checks).",
  U, [("get_bins/get_hist/get_ri", U), ("histogram", U)],
  "Thousands of generated arrays against a brute-force binning; numeric tolerance one rounding step at bin edges for non-dyadic float bins.", observe=["return values of histogram"])

P("P02", "Rebinning interpolates or averages exactly, for every shape change",
  """Rebinning a 1-D or 2-D array to any shape that is an integral multiple or factor per axis yields linear interpolation between the original samples when
  growing (with the last samples held), the block mean when shrinking, and nearest-sample repetition or picking in sample mode, with integer data rounded after each step as IDL does.
  A target shape that is not integral is refused, and growing and shrinking different axes at once treats each axis independently.""",
  "all 1-D and 2-D integer, float and complex arrays and all combinations of grow/shrink factors, with and without sample mode",
  "Existing tests hold a few fixed integer arrays; mixed grow/shrink and complex data are never exercised.",
  U, [("rebin/rebin_rows/rebin_columns", U)],
  "Differential against an index-by-index reference plus metamorphic laws (linearity, mean preservation).", observe=["return value of rebin"])

P("P03", "Inverse weights, resistant means and medians follow their definitions",
  """Inverting weights returns 1/w exactly where w is usable (non-zero, or at/above the given threshold) and a finite 0 everywhere else, for real, complex and scalar weights.
  The resistant mean is the mean of the values within the stated number of median-based deviations, is unaffected by order and scales with the data; the IDL median picks the middle element (or the average of the two middle ones on request) and its filter form replaces each interior sample with its window's median.""",
  "all weight values including 0, NaN, infinities and negatives; all sample sets, outlier patterns, deviations and window widths",
  "Existing tests check stored IDL outputs for resistant_mean only; weight inversion and medians have no data here.",
  U, [("weight_invert", U), ("resistant_mean", U), ("idl_median", U)],
  "Differential against direct re-implementations of the definitions and metamorphic laws (permutation, scaling).", observe=["return values"])

P("P04", "Region growing returns exactly the connected component of its seeds",
  """Growing a region from seed pixels returns exactly the set of pixels that are connected to a seed through pixels inside the threshold range, each listed once, and nothing when no seed qualifies; as in IDL, pixels on the outer border of the image are never returned.""",
  "all 1-D and 2-D images, data types, seeds and thresholds (including NaN pixels, default limits and multiple seeds)",
  "Existing tests cover a few stored images with one seed each.",
  U, [("region_grow", U)], "Differential against a flood fill.", observe=["return value of region_grow"])

P("P05", "Index and grid helpers agree with their brute-force meaning",
  """Matching values against one or two index arrays returns exactly the positions where either array holds a requested value (-1 when there are none);
  the last-occurrence-of-each-value helper, the column/row index grids and the falling-factorial derivative coefficients equal their mathematical definitions for every size.""",
  "all integer arrays, one or two arrays, repeated and absent match values, all grid sizes and derivative orders",
  "No existing test of these helpers passes here (their data is missing), and tile/baseline bookkeeping everywhere relies on them.",
  U, [("array_match", U), ("idl_argunique", U), ("meshgrid", U), ("deriv_coefficients", U)],
  "Differential against brute force.", observe=["return values"])

P("P06", "Sky geometry: horizon, equatorial, pixel and direction-cosine conversions",
  """Converting between horizon, equatorial and image-pixel coordinates agrees with the astronomical definitions for every site, time, pointing and projection, and going there and back returns the starting direction; an observation's image grid is centred on its phase centre with the slant set by its zenith.
  Separations (always in degrees), parallactic angles and direction cosines equal their spherical-trigonometry values, with directions that have no sky (NaN) mapped to zero direction cosines.""",
  "all sites, epochs, directions, pointings, projection slants and grid sizes; scalar and array coordinates",
  "No existing test of these conversions runs here (their data is missing), and a swapped axis or sign shows only away from the symmetric cases a sample tends to use.",
  ["PyFHD/pyfhd_tools/unit_conv.py", U, "PyFHD/data_setup/obs.py"],
  [("altaz_to_radec/radec_to_altaz/radec_to_pixel/pixel_to_radec", "PyFHD/pyfhd_tools/unit_conv.py"), ("angle_difference/parallactic_angle/l_m_n", U), ("project_slant_orthographic", "PyFHD/data_setup/obs.py")],
  "Differential against astropy frames, hand-written spherical trigonometry and the slant orthographic formula, plus round trips. IERS data are whatever is bundled offline.", observe=["return values"])

P("P07", "Everything saved to HDF5 is loaded back unchanged",
  """Saving a dictionary or array to HDF5 and loading it again (eagerly or lazily) returns the same keys, nesting and values: numbers, booleans, text, paths (as text), None, numeric arrays of any shape (in double precision), text arrays, arrays with missing entries (as NaN or empty text), records and arrays of arrays of differing lengths; a file holding one dataset loads as that value.
  Structures read from IDL save files become plain nested dictionaries with lower-case names, decoded text and stacked arrays holding the same numbers.""",
  "all nested dictionaries and arrays over the supported value types, with and without chunking and variable-length declarations, overwriting stale files",
  "No existing test of the HDF5 layer runs here; checkpoints, observation metadata and exported products all pass through it, in endless combinations of value types.",
  "PyFHD/io/pyfhd_io.py", [("save/save_dataset/dict_to_group/format_array", "PyFHD/io/pyfhd_io.py"), ("load/load_dataset/group_to_dict", "PyFHD/io/pyfhd_io.py"), ("recarray_to_dict", "PyFHD/io/pyfhd_io.py")],
  "Round trip against the generated value; integers limited to 64 bits.", over=("inputs", "histories"), observe=["files read back", "return values"])

UV, OB = "PyFHD/data_setup/uvfits.py", "PyFHD/data_setup/obs.py"
P("P08", "UVFITS ingest returns the file's visibilities, weights and coordinates",
  """Reading a data or model UVFITS file returns every visibility, weight, baseline coordinate, time, antenna pair and channel frequency stored in it, in double precision and in (polarisation, frequency, baseline) order limited to the requested polarisations,
  whatever the order of its group parameters, the number of unit axes, antennas, channels or times, and however antennas or dates are encoded. Pointing and site come from the file when it has them and from the named (or MWA) site otherwise.
  A file lacking a required parameter is refused with a KeyError.""",
  "all UVFITS files of the random-groups form: 1..n antennas, times, channels, 1/2/4 polarisations, any parameter order, BASELINE (256 or 2048 coding) or ANTENNA1/2, split dates, missing optional keywords",
  "No existing test of the reader runs here; a real survey's files come from different writers with different layouts, and a wrong column or axis corrupts everything downstream without an error.",
  UV, [("extract_header", UV), ("create_params", UV), ("extract_visibilities", UV)],
  "Round trip through synthetic files written with astropy. BASELINE decoding needs the smallest code to be that of tiles (1,1) or (1,2), as PyFHD assumes.", observe=["return values for a generated file"])

P("P09", "Observation metadata is consistent with the data, METAFITS and config",
  """The observation created from a file's parameters has the true numbers of times, baselines, channels, visibilities and tiles, maps antenna numbers to tile positions in the antenna table, bins channels for the beam, builds the imaging grid from field of view / pixel scale / dimension,
  takes tile names, heights, flags, pointing and integration time from the METAFITS file (or derives them from the data when there is none) and excludes exactly the time steps covered by the requested time cuts.
  Updating an observation to a new grid returns a new consistent observation and leaves the given one unchanged.""",
  "all antenna tables (gapped, shuffled, offset numbers), numbers of times/channels, grid settings, time cuts, METAFITS present or absent, phase-centre overrides",
  "No existing test of create_obs/update_obs runs here; single-time files, renumbered antennas, time cuts and default grids are combinations a stored sample does not contain.",
  OB, [("create_obs", OB), ("read_metafits", OB), ("update_obs", OB)],
  "Differential against an independent derivation of each entry. All METAFITS tiles flagged but one (refused by PyFHD) is outside the domain.", observe=["obs dictionary", "params dictionary"])

P("P10", "Antenna layout holds the antenna table, with documented defaults",
  """The layout built from any antenna table holds each keyword and column the table provides and the documented default for each it lacks, collapses constant mount, offset and orientation columns to one value, and the saved layout file reads back as the same values.""",
  "all antenna tables with any subset of the optional keywords and columns and any number of antennas",
  "No existing test of create_layout runs here; each table lacks a different subset of keywords.",
  UV, [("create_layout", UV)], "Differential against a table of defaults; round trip through the saved HDF5 file.", observe=["layout dictionary", "layout.h5"])

FL = "PyFHD/flagging/flagging.py"
SU = "PyFHD/pyfhd_tools/pyfhd_setup.py"
P("P11", "Options reach the run from every source, are validated and can be replayed",
  """Every option has the value given on the command line, else that of the configuration file, else its default, whole and of its type, whichever mixture of sources is used.
  A run whose files are missing or whose options contradict each other is refused with a failing exit status before it writes its configuration, while options that only override each other are adjusted as documented and the rest stay as given; a silent run writes nothing to the terminal and a log file exists exactly when asked for.
  The configuration file written for an accepted run, given back, makes a run with the same options.""",
  "all options and values, all mixtures of command line and file, missing files, contradictions, awkward text",
  "No existing test parses an option; there are about 130 options from two sources and their combinations cannot be enumerated.",
  [SU], [("pyfhd_parser", SU), ("pyfhd_setup", SU), ("write_collated_yaml_config", SU)],
  "Differential against a table of options, sources and adjustments written by hand, round trip of the configuration file. Text that looks like interpolation is not generated.", observe=["parsed options", "exit status", "configuration file, log file, handlers"])

P("P12", "Basic flagging zeroes exactly the requested tiles, channels and times",
  """Basic flagging sets to zero the weights of exactly the named tiles' baselines (whatever type the tile names have), the channels outside the configured range, the coarse-band edge channels when frequency flagging is on (for channel counts that divide the coarse bands) and every visibility of the cut time steps, and touches no data;
  with frequency flagging off, fully flagged channels regain weight one where data is present on otherwise used baselines.
  The observation's tile and channel use lists and flag counts then list exactly what has a positive weight in all polarisations and was in use before.""",
  "all weights, data zeros, tile names, flag lists (known and unknown names), frequency ranges, time cuts, channel counts",
  "No existing test of flagging runs here (their data is missing); off-by-one slices at the last baseline or time of a cut appear only for particular cuts.",
  FL, [("vis_flag_basic", FL), ("vis_flag_tiles", FL)], "Differential against a direct restatement.", observe=["weights", "obs use lists and counts"])

P("P13", "Outlier flagging cuts exactly the deviating tiles, channels and times",
  """Flagging by statistics zeroes the weights of baselines outside the length limits and of tiles, channels and times that have no usable data or whose spread of amplitudes deviates from the median by more than the stated number of deviations (after leaving out first-pass outliers and unusable ones),
  marks those tiles and channels unused and counts the remaining visibilities. It never gives a flagged visibility its weight back and never alters data.""",
  "all data with any pattern of outlying or dead tiles, channels and times, 1/2/4 polarisations, missing tiles, baseline limits",
  "No existing test of vis_flag runs here; masking between outliers, absent tiles and time cuts need particular combinations.",
  FL, [("vis_flag", FL)], "Differential against a direct restatement; at least one tile, channel and time needs more than ten usable samples. Median helpers are those of P03.", observe=["weights", "obs use lists and n_vis"])

P("P14", "Weight update excludes exactly the visibilities that cannot be gridded",
  """Updating the weights sets to zero exactly the visibilities whose baseline is outside the length limits at that channel, whose gridding footprint would leave the uv plane, or whose tile, channel or time is flagged, and leaves every other weight as it was.
  The number of visibilities and flag counts recorded in the observation match the weights, the coordinates are not altered, and a second update changes nothing.""",
  "all baselines, channels, grid sizes and scales, kernel sizes, flags (tile, channel, time), including tiles without baselines and everything flagged",
  "No existing test of vis_weights_update runs here; gridding relies on it to keep kernels inside the plane.",
  U, [("vis_weights_update", U)], "Differential against a direct restatement; coordinates within 1e-9 of a pixel edge are excluded.", observe=["weights", "obs counts"])

P("P15", "Even/odd splitting pairs adjacent times and noise comes from their difference",
  """Splitting weights pairs each used time with its neighbour starting at the first used one, drops pairs with a cut time, lists the same baselines in the same order in the even and odd halves, gives both members of a pair the same weight (zero if either is flagged) and everything else zero, without changing the caller's weights.
  The noise estimate is the standard deviation of the imaginary difference between paired unflagged samples over the square root of two, per polarisation and channel, and so does not depend on a sky that is constant in time.""",
  "all numbers of times, time cuts (leading, trailing, interior), weights, polarisations",
  "No existing test of these runs here; misaligned halves show only with cut times, which a sample rarely has, and still give plausible noise numbers.",
  U, [("split_vis_weights", U), ("vis_noise_calc", U)], "Differential against explicit pairing, plus a metamorphic law (constant sky).", observe=["weights", "indices", "noise"])

CA = "PyFHD/calibration/calibrate.py"
CU = "PyFHD/calibration/calibration_utils.py"
VS = "PyFHD/calibration/vis_calibrate_subroutine.py"
P("P16", "Calibration recovers the gains behind the data",
  """On data that are a model multiplied by antenna gains, every channel in which the solver reports convergence has the true gain of every used tile up to the phase of the reference tile, most channels do converge, and the calibrated data equal the model; on noisy data a converged gain is the least squares solution of its tile's baselines given the other gains.
  Flagged samples, unused tiles and channels, baselines outside the calibration limits, other channels and polarisations and the order of the baselines have no influence on a solution, unused channels keep the initial gain and unused tiles get NaN; a tile with fewer than five usable baselines in a channel gets a zero gain there, and a channel in which the reference tile is such a tile is flagged with zero gains and weights, no other input being altered.
  The reported gains are those of the reported iteration (one back where the solution diverged), the adaptive step follows its Kalman estimate and never falls below half the base gain, and fewer than one iteration is refused.""",
  "all gains, models, flags, array sizes, 1/2/4 polarisations, time averaging, adaptive steps, auto-correlation start values, bandpass-only and polynomial-only runs",
  "No existing test of the solver runs here (their data is missing); tile bookkeeping errors appear only with particular flags, and still give plausible gains.",
  [VS, CA, CU], [("vis_calibrate_subroutine", VS), ("calibrate", CA), ("calculate_adaptive_gain", CU)],
  "Recovery of planted gains, metamorphic laws, differential for the adaptive step. Needs five equations per tile as the solver does; solutions reported as not converged or diverged are not judged, and adaptive steps may diverge.", observe=["gains", "calibrated visibilities", "calibration dictionary"])

P("P17", "Applying gains divides out exactly the right antenna pair",
  """Calibrating divides each visibility by the gain of its first antenna times the conjugate gain of its second, at its own channel and with X gains for X and Y gains for Y in each of the four products, and gives zero where a gain is zero or undefined; gains, model and weights are left alone.
  With four polarisations the reported cross phase is the one that best aligns the time-averaged calibrated cross products with the model.
  The baseline statistics are the mean and standard deviation of the residual relative to the mean model amplitude in each 5-wavelength bin, over samples with a model.""",
  "all gains, data, antenna orders, flags, 1/2/4 polarisations, times, baseline limits",
  "No existing test of these runs here; swapped antennas or polarisations cancel for symmetric samples.",
  CU, [("vis_calibration_apply", CU), ("vis_baseline_hist", CU)], "Differential against element loops; inversion, composition and phase-degeneracy laws. PyFHD reports the cross phase without applying it; whether it should is not judged.", observe=["visibilities", "cross phase", "baseline statistics"])

P("P18", "Bandpass times remainder is the gain, and the bandpass is a robust tile average",
  """The bandpass of each polarisation and used channel is the resistant mean over the used tiles (over the tiles of the same cable length when cable groups are on and all have used tiles) of gain amplitudes normalised by each tile's own resistant mean.
  Bandpass times remainder restores the input gain on used tiles and channels, the level and phase of a tile has no influence on the bandpass, and the given calibration is not altered.""",
  "all gains, flags, cable groupings (including groups without a used tile), 1/2 polarisations",
  "No existing test of vis_cal_bandpass runs here; group bookkeeping only goes wrong for particular flags.",
  CU, [("vis_cal_bandpass", CU)], "Differential against a direct restatement plus metamorphic laws; values on a rejection threshold are excluded. Bandpasses read from a calfits file are not covered.", observe=["bandpass and remainder gains"])

P("P19", "Polynomial gains and cable reflections are least squares fits of used channels",
  """The fitted gain of each tile is the least squares polynomial of its amplitude (separately below and above the digital gain jump when the band holds both sides) times the phase polynomial of its unwrapped phase, over the used channels only, so gains that are polynomials are their own fit; the stored parameters describe the same curves.
  Cable reflections are fitted to what the polynomials leave, on the tiles with the selected cable, at the nominal, tabulated or delay-spectrum mode, refined to the strongest of the neighbouring modes when hyperresolving; the gain is multiplied by one plus that reflection (its phase only, with auto-correlation ratios), and mode, amplitude and phase are stored.""",
  "all gains, degrees, flags, bands relative to the gain jump, reflection options",
  "No existing test of vis_cal_polyfit runs here; dropped orders, channel offsets and wrong axes depend on flags and options.",
  CU, [("vis_cal_polyfit", CU)], "Differential against normal least squares and explicit Fourier sums; recovery of planted reflections.", observe=["gains", "amp/phase/mode parameters"])

P("P20", "Auto-correlations are extracted, compared and undone exactly",
  """The auto-correlation of each tile is the mean over used times of the real part of its own auto baselines, whatever the baseline order and whichever tiles have none.
  Initial gains are the square root of data over model autos scaled to the overall amplitude ratio; the auto fit replaces amplitudes of tiles with autos by the straight line of auto amplitude that best fits their cross gains over channels not adjacent to a flag, keeping phases; dividing by auto ratios to the reference tile and multiplying back restores the gains.
  Tiles without autos keep their gains, in all of these.""",
  "all auto-correlations (any subset of tiles, or none), times, flags, baseline orders, 1/2/4 polarisations, reference tiles",
  "No existing test of these runs here; missing autos of some tiles do not occur in a complete sample.",
  CU, [("vis_extract_autocorr", CU), ("vis_cal_auto_init", CU), ("vis_cal_auto_fit", CU), ("cal_auto_ratio_divide/remultiply", CU)],
  "Differential against direct restatements; round trip of the ratios. Times of an auto baseline are complete.", observe=["auto-correlations", "gains", "fit parameters"])

P("P21", "Calibration flagging removes exactly the outlying tiles and channels",
  """Flagging on calibration solutions marks unused exactly the tiles and channels that fail the documented tests (no variation at all, frequency or tile scatter above 5 sigma, median amplitude off by a factor of two, phase slope or phase scatter above 5 sigma), polarisation by polarisation on what is still used.
  It never brings back a flagged tile or channel, leaves channels alone unless frequency flagging is requested, and alters neither the gains nor other metadata.""",
  "all gains with any pattern of outlying tiles and channels, previous flags, 1/2 polarisations",
  "No existing test of vis_calibration_flag runs here; index mapping through previous flags needs flags and outliers together.",
  CU, [("vis_calibration_flag", CU)], "Differential against a direct restatement; figures within 1e-9 of a threshold are excluded. At least 34 used tiles and channels, below which no single value can exceed 5 sigma.", observe=["obs use lists"])

P("P35", "A transferred bandpass is what its calibration file holds for this observation",
  """Calibrating with a bandpass from a calibration FITS file uses, for every tile, channel and polarisation, the gain the file holds at the observation's time (the only time, the observation's pointing, the nearest time, or the mean of times as short as the observation's), averaged over its unflagged channels or interpolated between them where its channels are narrower or wider, with X and Y exchanged for north oriented dipoles.
  Bandpass times remainder is the gain, and the calibration given is not altered.
  A file of other tiles, channels, polarisations, times, pointings or of delays is not used: the bandpass is then the one of the gains, as without a file.""",
  "all calibration FITS files with and without a spectral window axis, 1/2/4 Jones terms, single or double precision, flags, times and channel widths by whole factors",
  "No existing test has such a file; axis and polarisation mix-ups give plausible bandpasses.",
  CU, [("transfer_bandpass", CU), ("vis_cal_bandpass", CU)], "Differential against the arrays the file was written from. The pointing table is that of its reference night; on other nights pointings start earlier by the difference of the solar and sidereal day.", observe=["bandpass and remainder"])

CB = "PyFHD/calibration/calibrate.py"
P("P25", "Calibrating a snapshot is the configured sequence of its stages, nothing else",
  """The final gain of a calibration is what its stages give in the documented order on the same data: initial gain (constant or from auto-correlations), solver, flagging, bandpass of the gains with the antenna ratio taken out and put back, polynomial and reflection fit of the remainder times the bandpass, auto-correlation amplitudes; a stage that is off changes nothing.
  The residual gain is the solver's gain minus the final one, the data are divided by the final gains of their two tiles (zero where these are undefined), and the summary numbers are those of the final and residual gains over the tiles and channels in use afterwards.
  Model, coordinates and options are not altered, and only requested flagging marks tiles or channels unused.""",
  "all combinations of the stage options, flags, auto-correlations present or absent, polarisations, outlying gains; full 128 tile arrays for the cable options",
  "No existing test runs calibrate; a stage given the wrong gain (before or after another one) gives plausible solutions.",
  CB, [("calibrate", CB)], "Differential against a composition of the stages (each decided by P16 to P21) on separate copies, and direct relations between data, gains and summary numbers. Plots are off.", observe=["gains, residuals, summary numbers, calibrated data, use lists"])

P("P30", "W-term deprojection and Q/U mixing follow their definitions",
  """Deprojection multiplies each visibility by the phase of its own channel and w coordinate and reversing the direction restores the data. Time averaging sums each baseline and channel over times with its own weights.
  The Q/U mixing angle is the phase of the straight-line fit of pseudo Q against pseudo U in the model minus that in the data, over unflagged samples only, and recovers an injected rotation; inputs are not altered.""",
  "all visibilities, weights, w coordinates, directions, numbers of times/channels/baselines",
  "No existing test of these runs here; axis mix-ups vanish for the symmetric shapes of a sample.",
  [U, CA], [("simple_deproject_w_term", U), ("reshape_and_average_in_time", U), ("calibrate_qu_mixing", CA)], "Differential against element loops and a closed-form regression; round trip.", observe=["return values"])

GU = "PyFHD/gridding/gridding_utils.py"
P("P32", "Polarisation reformatting and the conjugate mirror are exact",
  """The conjugate mirror maps each uv pixel to the conjugate at the opposite coordinate about the origin and undoes itself. Cross-polarised uv planes become half the sum of XY and the mirror of YX, which is XY on both halves of the plane, and its conjugate mirror.
  Splitting a cross-polarised image gives its real part and its imaginary part, names them accordingly and leaves XX and YY and the observation's names as they were.""",
  "all image sizes (odd, even, one row), real and complex images",
  "Existing tests of these need data that is missing; aliasing between planes is invisible to shape checks.",
  [GU, U], [("conjugate_mirror/crosspol_reformat", GU), ("crosspol_split_real_imaginary", U)], "Differential against pixel loops; involution; Hermitian symmetry of the transform.", observe=["return values"])

VG = "PyFHD/gridding/visibility_grid.py"
GF = "PyFHD/gridding/filters.py"
P("P22", "Every visibility is gridded where its baseline is, and counted once",
  """The uv cell of each sample is the floor of its baseline in wavelengths at its own channel over the pixel size, counted from the centre, and the weights of its four neighbours are the bilinear ones for the rest; a sample is left out exactly when its kernel would leave the plane, its length is outside the limits, or it is flagged.
  The bins list every sample that is kept exactly once, and visibility counts and the uniform filter divide by the number of samples whose kernel covers a pixel.
  Inputs are not altered.""",
  "all baselines, frequencies, plane sizes (square or not), flags, limits, kernel sizes, masks of samples",
  "Existing tests of these need data that is missing; edges, exact pixel boundaries and non-square planes are not in any sample.",
  [GU, GF], [("baseline_grid_locations", GU), ("visibility_count", GU), ("filter_uv_uniform", GF)],
  "Differential against a loop over samples; samples within 1e-9 of a cell or limit boundary are excluded unless exactly representable.", observe=["bins, cells and weights", "counts", "filters"])

P("P23", "A gridded plane is the sum of its visibilities through their beam kernels",
  """Each gridded plane is the direct sum over the visibilities that are kept of the conjugate kernel at the visibility's own place, channel and beam group times its value (weights, variance, model, uniform and spectral planes alike with their documented factors), divided by the number of visibilities, with half at the pixel and half at the conjugate mirror.
  So gridding is linear in the visibilities, additive over baselines, channels and flags, does not depend on the order or direction of baselines, and selected channels and polarisations have the effect of flagging the others.
  Per-baseline kernels are the phase-shifted beams summed at the kernel's resolution, and inputs are not altered.""",
  "all visibilities, flags, models, kernels, baselines, channel groups, channel selections, plane sizes",
  "Existing tests of these need data that is missing; a wrong group or channel of a kernel leaves a plausible plane.",
  [VG, GU], [("visibility_grid", VG), ("grid_beam_per_baseline", GU), ("interpolate_kernel", GU)],
  "Differential against a direct sum over samples, and metamorphic laws. visibility_degrid has no caller and is not covered.", observe=["image_uv, weights, variance, uniform filter, spectral planes, model, obs nf_vis"])

P("P24", "A dirty image is the centred Fourier sum of the weighted uv plane",
  """A dirty image is the real part of the centred Fourier sum of the uv plane after its mask, weights, filter, smoothing, padding and normalisation are applied, at the pixel scale asked for; the order of these steps is the documented one.
  Padding interpolates the same image, and a plane of ones is a unit source in the centre.
  Inputs are not altered.""",
  "all uv planes, weights, masks, filters, pixel scales, padding",
  "Existing tests of these need data that is missing; a half-pixel shift or a filter applied twice still yields an image.",
  [GU, GF], [("dirty_image_generate", GU), ("filter_uv_*", GF)],
  "Differential against an explicit Fourier sum; even image sizes, and square ones where padded.", observe=["images, filters"])

BU = "PyFHD/beam_setup/beam_utils.py"
HU = "PyFHD/healpix/healpix_utils.py"
P("P26", "Beam images are the normalised sums of the kernels' transforms",
  """The image of a beam is the sum, over the channels in use or the one channel asked for, of the centred Fourier sum of that channel's uv kernel (or of its Gaussian decomposition evaluated at image scale), squared per channel when asked, divided by the sum of the normalisations of those channels.
  A cube of beam images holds exactly the beams of the channels asked for, by number, frequency or evenly spaced, and its mask is the region around the centre connected above the threshold in every beam.
  A beam is the same whether it came from a save file, from the HDF5 file written of it, or is read lazily, and is not altered.""",
  "all kernels, Gaussian parameters, channel groups, flags, channel choices, image and kernel sizes, polarisations, ways of loading",
  "No existing test of these runs here; a sample beam has one group, one bin and unit normalisation.",
  [BU, "PyFHD/beam_setup/beam.py", HU], [("beam_image", BU), ("beam_image_cube", HU), ("create_psf", "PyFHD/beam_setup/beam.py")],
  "Differential against an explicit Fourier sum and Gaussian formula. Square even images.", observe=["images, cubes and masks", "psf contents"])

P("P27", "A HEALPix map holds the image interpolated at each of its pixels",
  """A HEALPix map covers exactly the pixels (those listed, or those within the radius whose surrounding image pixels are all unmasked) that are above the horizon of the instrument at that time; the value of each is the bilinear interpolation of the image at the pixel's projected position, zero outside of the image.
  The default resolution is the smallest power of two not coarser than the image; without a list the closest field and frequency is chosen.
  Application is a sparse linear product that leaves the image alone.""",
  "all fields, times, sites, slants, pixel scales, image shapes, masks, radii, pixel lists and resolutions",
  "No existing test of these runs here; pixels on image rows or columns and beyond edges need particular geometry.",
  HU, [("healpix_cnv_generate", HU), ("healpix_cnv_apply", HU)],
  "Differential against an independent projection, astropy altitudes and a loop; positions within 1e-5 pixel of an edge, 1e-4 degrees of the horizon or 1e-7 degrees of the radius are excluded.", observe=["inds, n_pix, n_zero, maps"])

P("P28", "Exported cubes are the mapped images of each frequency bin, half and pol",
  """Each frequency bin of each cube holds the sum (not the mean) over its own used channels, selected visibilities and polarisation of the gridded data, model, weights and variance, imaged at the export resolution, weights and variance rephased to the original phase centre when asked, and mapped to the HEALPix pixels of the field.
  Even and odd halves hold matched pairs of adjacent times; tiles flagged for the export have no influence; beams are multiplied by the visibilities of the bin.
  One file per half and polarisation is written with its pixels and metadata, the uv planes likewise; the caller's observation and data stay as they were.""",
  "all visibilities, flags, times, channels and bins, export resolutions given in each documented way, fields, beams, thresholds, halves",
  "No existing test of these runs here; a bin, half or polarisation mixed with another yields a plausible cube.",
  ["PyFHD/healpix/export.py", HU], [("healpix_snapshot_cube_generate", "PyFHD/healpix/export.py"), ("vis_model_freq_split", HU), ("phase_shift_uv_image", HU)],
  "Differential against independent flagging, pairing, direct gridding, Fourier sum, beam and projection; sizes rounded down to even ones, default beam averaging; figures at pixel edges or thresholds excluded.", observe=["files written", "uv planes", "obs"])

QV = "PyFHD/io/pyfhd_quickview.py"
P("P33", "Exported FITS images are the renormalised images with the right coordinates",
  """Each exported image is the uniformly filtered, padded image of its own polarisation's uv plane, renormalised by the image of its weights and the beam, divided by the beam where that is at least 0.001 (zero elsewhere); the residual is data minus model, cross polarisations are split into real and imaginary parts, uv weights are those of their polarisation.
  Sky coordinates computed from a header are those the pixels really have at the padded resolution, and the uv header is centred on (0, 0).
  Exactly the requested files are written, with exactly the given data, and the observation and data of the caller are not altered (apart from the cross polarised weights).""",
  "all uv planes, weights, beams, whole padding factors, polarisations, directions, slants, save options",
  "No existing test of these runs here; padding and four polarisations do not occur in the sample.",
  QV, [("quickview", QV), ("get_image_renormalization", QV)], "Differential against a direct calculation; headers against astropy.wcs and the projection. Square even planes.", observe=["files written"])

PY = "PyFHD/pyfhd.py"
P("P31", "A resumed, stopped or repeated run gives the products of the whole run",
  """A run resumed from the observation, calibration or gridding checkpoints of another run writes bit for bit the images, maps, visibilities, gains and metadata that a whole run with the same options writes, however the options of the later stages differ between the runs.
  Stopping after calibration, or saving more or less, leaves out files and alters none, and the configuration a finished run leaves behind gives the same products again.
  Each run writes exactly the files its options ask for.""",
  "all small observations (tiles, times, channels, 2/4 polarisations, flags, autocorrelations), combinations of calibration, flagging, gridding, filter, padding, map and saving options, and checkpoints",
  "No existing test runs the pipeline; a checkpoint that holds a stale or altered array gives plausible images.",
  PY, [("main", PY)], "Differential between whole and resumed runs of the real program in scratch directories; files compared by content, logs and configurations left out. Runs in which everything is flagged are counted as trivial. The cable reflection fit is off (it knows the cables of 128 tiles only).", observe=["every file below the output directory"])

P("P34", "A whole run turns data into its model, linearly and in any row order",
  """Run on noise-free data that are a model times antenna gains, the pipeline keeps the raw visibilities, weights, coordinates and model of the files, gives weight only to unflagged visibilities of used tiles, and calibrates what it gives weight to into the model (as far as the tiles have gains); without calibration the visibilities stay as they are, and residual images are data minus model images.
  Data and model times a power of two give gains, weights and flags that are bit for bit the same and visibilities and images times that number.
  The order of the rows within each time is of no consequence, and a point source comes out in every image and map at its place in the sky, in each polarisation in proportion to its visibilities.""",
  "all small observations, gains, flags and options as in P31, sources, phase centres and zenith angles anywhere, powers of two from 2^-8 to 2^8, random row orders",
  "No existing test runs the pipeline; an error between stages (an index, a stale weight, a wrong polarisation) shows only in a whole run.",
  PY, [("main", PY)], "Recovery of known truth and metamorphic relations on whole runs. Rows are in the same order in data and model; tolerances 1e-3 of the largest model visibility (at most 10% of visibilities may miss it where a channel does not converge), rounding for row order, none for scale, a pixel for places.", observe=["visibilities, weights, gains and images below the output directory"])

P("P36", "A whole run is its stages in order, each given the results of the one before",
  """The raw, model and calibrated visibilities and weights, gains, coordinates, observation, gridded planes, images and maps of a run are bit for bit what its stages give when they are called in the documented order on the same files: reading, w-term deprojection, basic flagging, weights of the beam's footprint, model and its flags, calibration, QU mixing, weights again, flagging of the calibrated data, noise, gridding of each polarisation (without mirror for the cross-polarised ones, uniform weights from the first), conversion of the cross-polarised planes, images, maps.
  A stage that is off is left out, and a kernel per baseline is only made of a beam that has an image.
  This holds for two and four polarisations and for gridding planes that are not square.""",
  "all small observations and options as in P31, planes with more or fewer rows than columns, beams with and without image",
  "No existing test runs the pipeline; a stage skipped, repeated or given the data of an earlier one gives plausible products.",
  PY, [("main", PY)], "Differential between the real program and its stages called one by one (each of which has its own properties); equality bit for bit. Images and maps of planes that are not square are a known finding and left out of the runs.", observe=["every product below the output directory", "gridding checkpoint"])

MT = "PyFHD/source_modeling/vis_model_transfer.py"
P("P29", "Every data row gets the model of the same tile pair at the same time",
  """After a model is imported, from UVFITS or IDL save files, each row of the data holds the model visibility of the same pair of tiles at the time step closest to it, for every channel and polarisation of the data, whichever tiles or autocorrelations the data lacks, in whatever order either lists its baselines, however the data names its tiles and however the times are offset.
  Autocorrelations are those of the model, zero where the model does not have all of them.
  A model that lacks tiles, baselines, time steps or channels of the data is refused with a message.""",
  "all tile sets, flagged tiles, namings, autocorrelations present or absent or partial, time choices and offsets below half a step, file types",
  "A model row shifted by one baseline still calibrates; the sample data has matching rows.",
  MT, [("flag_model_visibilities", MT), ("vis_model_transfer", MT)], "Differential against a dictionary of (tile, tile, time); files written by the check, the save format by its own writer. Rows of a time step come in the same order of tiles in data and model, as every writer of these files has them. Offsets up to 0.45 of the time resolution.", observe=["model rows", "params", "refusal"])
