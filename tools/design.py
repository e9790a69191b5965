#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with the checks of each property, planted bugs and findings filled in."""
import importlib, json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/pbt", os.environ.get("VERIF_REPO", "/repo")]
os.environ.setdefault("MPLBACKEND", "Agg")
HOW = {}


def H(pid, gen, oracle, note=""):
    HOW[pid] = gen, oracle, note


H("P01", "Integer and float arrays of all sizes, with ranges, bin sizes and bin numbers that cut, touch or miss the data, and data whose rounding puts them on a bin edge.", "Partition by definition: each value in range is in exactly one bin, `ri` lists the indices of every bin in ascending order, counts and centres agree with it.", "Values within rounding of a bin edge may be in either bin.")
H("P02", "All 1D/2D shapes with integral factors, shrinking, growing, or one of each; sample mode; wrong shapes.", "The IDL definition pixel by pixel; laws (shrink of a grown array is the array, sums are kept, axes are independent); non-integral factors are refused.")
H("P03", "Arrays with zeros, NaN, infinities, repeated values; complex data; even and odd sizes.", "A direct restatement in plain Python. Resistant means are compared only when no value is within rounding of a cut (the margin is computed).")
H("P04", "Images of disjoint or touching blobs, seeds inside, outside, on several blobs and on the rim, thresholds or ranges.", "Flood fill with a queue.")
H("P05", "Arrays with repeats, missing values, single elements, several arrays to match against.", "Brute force over all index pairs.")
H("P06", "Directions over the whole sky, places on Earth, times, projections with any pole and pixel scale.", "Independent spherical trigonometry with unit vectors, astropy's own transformations, round trips pixel-sky-pixel; the phase of a flat array's baseline must be linear in the pixels of the slant projection.", "Tolerances state how well the two ephemerides agree.")
H("P07", "Nested dictionaries of every type the pipeline saves (scalars, strings, lists, ragged and empty arrays, rows of differing types, None, bytes, tuples, lazily loaded, requested chunks at the top and in groups), IDL structures and save files written by our own writer (`pbt/idlsav.py`).", "Round trip: what is loaded equals what was saved, by value, type kind and shape; native byte order.", "Tuples come back as lists of the same items; empty strings inside IDL string arrays are not generated (scipy's reader drops them).")
H("P08", "UVFITS files written with astropy: any parameter order, DATE once or twice, BASELINE or ANTENNA1/2, unit axes, whole and fractional CRPIX, polarisation counts, missing columns, flagged weights, baseline numbers of both encodings (256a+b, and 2048a+b+65536) or antenna columns.", "The arrays the file was written from.")
H("P09", "Headers, parameters, METAFITS and options; missing METAFITS; time cuts; changed dimension, FoV or resolution in update_obs.", "Direct restatement of every derived field from the inputs.", "`update_obs` is judged for channel averages that divide the number of channels.")
H("P10", "Antenna tables with and without each optional column and keyword.", "The table itself, and the documented default where it lacks one.")
H("P11", "Options from the command line, configuration file and defaults in any mixture; every incompatible or missing value; each enhancement, time offset and checkpoint alone and together.", "The parser's own option table for the value that must arrive; rules of each validation restated; the written configuration is read back and must give the same options.", "Text options that name files become absolute Paths: compared as such. The `-cv` finding is listed below.")
H("P12", "Weights, requested tiles by name, channel edges, time cuts, METAFITS flags, any number of channels (also every multiple of 24, as coarse channels divide them), frequency cuts within a microhertz of a channel.", "The set of (polarisation, channel, row) to be zero, computed directly; everything else is unchanged.", "`flag_frequencies` off brings channels back (documented); that is what is expected.")
H("P13", "Noise with injected outliers of any strength in tiles, channels, times; previous flags; second sub with enough tiles that one pass hides another; third sub: the strength of an outlier bisected to the threshold of the reference, then checked from both sides.", "Restatement with margins: cases with a statistic within rounding of its cut are trivial.")
H("P14", "All baselines around the plane's rim and the minimum/maximum baseline, beams of any size, flags.", "Restatement per visibility; positions within rounding of a pixel edge are trivial.")
H("P15", "Times with cuts, odd numbers, gaps; weights; data with known noise.", "The pairing by definition; the noise from explicit differences.")
H("P16", "Arrays of 7 to 12 tiles with known random gains, model visibilities, flagged tiles, channels and samples, by weight or by use list; baseline cuts; row orders; starved tiles; whole `calibrate` runs with smooth gains; noisy data that no gains explain.", "The known gains (recovery on noise-free data, up to the reference phase); isolation: changing what is flagged, out of range, or another channel changes nothing; restatement of the adaptive gain; on noise each converged gain against a direct least squares solution given the others, and the gains reported for iteration k against a run stopped at k; tiles with fewer than five equations get 0, tiles with five are solved.", "Solutions that did not converge are not compared, but at least half must converge. With the adaptive gain the solver may diverge upstream; only converged solutions are judged. A tile without any data keeps its initial gain.")
H("P17", "Gains of any size with zeros and NaN, two and four polarisations, autos, shuffled rows.", "Per visibility division; multiplying the gains by a phase, swapping polarisations, permuting rows; histogram restated.", "The cross-polarisation phase is solved and reported but multiplied in as 0 (upstream); judged as reported only. Histogram bins of an absurd maximum baseline are not generated.")
H("P18", "Gains with outlying tiles and channels, flags, cable groups of the 128 tile array.", "Bandpass restated with our own resistant mean; bandpass times remainder is the gain.")
H("P19", "Gains that are polynomials with phase wraps, digital jumps, and reflections of known cable modes; all reflection options.", "Normal equations solved independently; a direct Fourier fit of the reflection; recovery of the injected mode.", "Recovery is not judged within 4 channels of the alias of a mode (upstream resolution); ties between two modes are trivial.")
H("P20", "Auto-correlations of some tiles, some of them zero, rows in any order, flagged times and channels.", "Restatement from dictionaries of rows; ratio divided and multiplied back is the identity.")
H("P21", "Gains with injected outliers of each of the five tests, previous flags; gains of which nothing is left; one tile moved by bisection to just below and just above each threshold of the reference.", "Restatement with margins of 1e-9.")
H("P22", "Baselines over and beyond the plane, hyper-resolved positions, masks, mirror flags, all kernels sizes; uv counts.", "Per visibility dictionary; totals are conserved: the sum of the count image is the sum over visibilities of the kernel area used.")
H("P23", "Random complex kernels per polarisation, bin, offset and group, visibilities, weights, models, variance, uniform and spectral planes, beam per baseline, interpolated kernels.", "A loop over visibilities that adds each kernel to the plane (`pbt/gridlib.py`); linearity, scaling, permutation and merging relations.", "Spectral and uniform planes are judged against their definition in FHD.")
H("P24", "Random planes, masks, filters, paddings, pixel scales.", "Explicit centred Fourier sum; a plane of ones is a point source.", "Image sizes are even (as everywhere in the pipeline); padding factors whole. `beam_ptr` matters with `filter_uv_optimal` only.")
H("P25", "Random combinations of the stage options on arrays of 9 to 13 tiles with flags, outliers and noise, and on 128 tiles for the cable options.", "The stages (decided by P16 to P21) composed on separate deep copies; data divided by gains, residual = solver gain - final gain, and summary numbers restated.", "Plots are off.")
H("P26", "Beams with groups, several frequency bins, Gaussian decompositions; requested channels by number, frequency or spacing; save and HDF5 files, lazily or not.", "Explicit Fourier sums of the kernels and Gaussians with their normalisation.", "The image-space branch of `gaussian_decomp` with `ftransform` is not covered: no caller uses it.")
H("P27", "Projections over the sky, nside, masks, lists of pixels, images.", "healpy-free restatement: interpolation of the image at the pixel centre from the WCS; pixel selection by angular distance.", "Pixels within rounding of the rim of the selection are accepted on either side.")
H("P28", "Small observations with flags, even/odd splits, averaging, padding, weights and variance options; phase shifts of planes of any shape in either coordinate alone.", "The export restated with the already decided parts (gridding, imaging, mapping) and the weight bookkeeping directly.", "Runs of the splitter with one time step return one value upstream and are not generated.")
H("P29", "Model files (UVFITS, IDL saves) lacking tiles, times, channels, polarisations; other tile names, offsets in time; flags.", "A dictionary keyed by (tile, tile, time).", "Single-row save arrays are skipped (IDL drops the axis). Rows of one time are in the same order of tiles in model and data, as all writers have it.")
H("P30", "w coordinates, directions, data, weights; injected Q/U rotations.", "Explicit phases; reversal restores; the angle from an independent least squares fit and the injected one.")
H("P31", "Whole observations on disk (UVFITS, METAFITS, model, beam) and random options of two runs; every checkpoint; a model from UVFITS or an IDL save file; the inputs overwritten before a resume, and reruns into a folder in which products lie already, some of them junk.", "Differential: resumed, stopped or repeated run against the whole run, bit for bit; the set of files against the options.", "Runs in which everything is flagged end early and are counted as trivial. One process per run is not needed: `main()` is called with its own argv, cwd and logger.")
H("P32", "Complex planes of even and odd sizes, cross polarisations.", "Index formulas; cross polarised sources on half a plane come back with their brightness on both halves, weights keep their sum.", "Gridding conjugates XY of baselines with positive v as it is, without the exchange with YX: only the real part of the brightness is the same on both (upstream; the imaginary part of XY images is not judged end to end).")
H("P33", "Planes, weights, beams, paddings, directions with part of the image beyond the horizon.", "Images restated; headers compared with astropy.wcs on the projection of the observation.", "Images are NaN where a (synthetic) beam is negative: same on both sides. The beam is not applied unless the optimal filter is chosen.")
H("P34", "Whole observations whose truth is known; powers of two; permuted rows; a strange tile; one source seen by a flat array with the same smooth beam everywhere, the phase centre up to 35 degrees from the zenith in any direction.", "Recovery of the model; exact equality under scaling; equality up to rounding under row permutation; the centroid of the source in images within 0.8 pixels (1.6 of padded images) of where the world coordinates of their headers put it, the brightest pixel of maps within 1.6 pixels; YY and XY images a fixed multiple of XX.", "Tiles without gains (fewer than five equations, gain 0) are excluded. With a strange tile (gain times 4) the solver may stop early: only the flags are judged.")
H("P35", "Calibration FITS files written with astropy for a random observation: precision, spectral window, times by pointing, by time, by integration; narrower and wider channels; orientations; edges of a pointing, other sidereal days and places; or of something else.", "The array the file was written from, averaged or interpolated by loops; equality with the result without a file where it must be refused.", "Written after the repair of `transfer_bandpass`, which could not run at all (fix commits below).")
H("P36", "Whole runs as in P31, with square and oblong planes, beams with an image (kernels per baseline), with an image of one value, and without; two and four polarisations, with and without calibration and maps.", "The stages called one by one by the check; bit for bit equality of everything written.", "The stages are those of the program: their own correctness is the matter of P02 to P33.")

props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(V + "/tools/design_head.md").read().rstrip(), ""]
out.append("## Properties\n")
for p in props:
    pid = p["id"]
    mod = importlib.import_module(pid.lower())
    gen, oracle, note = HOW[pid]
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Generated.* {gen}\n")
    out.append(f"*Oracle.* {oracle}\n")
    out.append(f"*Beyond the tests.* {p['why_tests_cant']}\n")
    if note:
        out.append(f"*Bounds and exclusions.* {note}\n")
    out.append("| sub-check | quick | thorough | counts as non-trivial |\n|---|---|---|---|")
    for s in mod.SUBS:
        out.append(f"| {s.name} | {s.quick} | {s.thorough} | {s.rule} |")
    out.append("")
out.append("## Planted bugs\n")
out.append("`tools/plant.py` builds each from its definition in `tools/bugs/`, confirms the demonstration on both trees, the stable tests on the changed one, and runs the quick check of its property. All below are valid and caught by the quick check of the property they name.\n")
out.append("| bug | breaks | needs |\n|---|---|---|")
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    out.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} |")
out.append("")
out.append(open(V + "/tools/design_tail.md").read().rstrip())
out.append("\n## Findings\n")
out.append("Repaired (one `fix:` commit each, `known_findings.json` has the same list; nothing is suppressed for them):\n")
for k in json.load(open(V + "/known_findings.json")):
    if k["status"] == "fixed":
        out.append(f"- {k['id']}: {re.sub('^fixed: ', '', k['what'])}")
out.append("\nRecorded, not repaired (the check prints KNOWN-FINDING for exactly this input):\n")
for k in json.load(open(V + "/known_findings.json")):
    if k["status"] != "fixed":
        out.append(f"- {k['property']} `{k['id']}`: {k['what']}")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(props), "properties", len(out), "lines")
