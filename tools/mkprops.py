#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

GR = "simim/map/gridder.py"
prop("G01", "Catalogue gridding puts every object's value in exactly its own cell",
 "Adding a catalogue of positioned objects to an active map-space grid adds each object's value (or 1 when no values are given), for each selected property, to exactly the cell whose half-open bounds contain the position, and to no other cell; objects outside the grid change nothing. When new properties are requested the values land in freshly appended property planes instead. Planes that were not selected, and the caller's arrays, never change, and the object counter grows by the number of in-bounds objects.",
 ["inputs"], "every grid geometry (1-3 spatial dimensions, any pixel counts, sizes, centres), any number of objects at any positions, repeated cells included, any subset of properties, values given as none/1-d/2-d",
 "the tests grid one symmetric random catalogue and compare totals; wrong-cell errors that keep the total, that need a property subset, an off-centre grid, unequal axes or repeated cells pass them",
 [GR], [("Grid.add_from_cat", GR+":583"), ("Gridder.__init__", GR+":1976"), ("Grid.add_new_prop", GR+":555"), ("SnapHandler.grid / LCHandler.grid", "simim/siminterface/simhandler.py, simim/lightcone/lchandler.py")])
prop("G02", "Grid geometry stays self-consistent through every operation",
 "After a grid is constructed (from a centre and side, from explicit axes, as a PSF) and after any sequence of padding, cropping, axis scaling, down-sampling, collapsing, copying and property-adding operations, the cell edges, cell centres, pixel counts, pixel size, side length, centre point, Fourier axes and data-array shape all describe one and the same regular grid. Edges are uniformly spaced by the pixel size and run from centre minus half the side to centre plus half the side, centres are midway between edges, and the Fourier axes are the shifted FFT frequencies of that pixel count and size with edges midway between them. An operation touches the geometry of the axes it names and of no other axis.",
 ["inputs", "histories"], "every geometry and every sequence of geometry-changing operations (each operation is proved to preserve the invariant from an arbitrary consistent grid)",
 "the tests apply single operations to symmetric grids; a mismatch between one attribute and the others only shows when a later operation uses it",
 [GR], [("Grid.__init__", GR+":51"), ("pad/crop/scale_axis", GR+":232,346,401"), ("down_sample/collapse_dimension", GR+":1152,1222"), ("copy_axes/copy", GR+":470,489"), ("GridFromAxes", GR+":2322"), ("_axis_edges", GR+":19")])
prop("G03", "Sampling a grid returns the containing cell's values and NaN outside",
 "Sampling an active grid at any list of positions returns, for each position and each requested property in the requested order, the value of the cell whose half-open bounds contain the position, and NaN for every property when the position lies outside the grid. The result always has one row per position and one column per property, and sampling changes neither the grid nor the caller's arrays.",
 ["inputs"], "all grid geometries in 1-3 dimensions, all position lists (inside, outside, repeated), all property selections",
 "tests sample a handful of points of one grid; off-by-one at an edge, an axis mix-up on non-cubic grids or a NaN written into the wrong rows needs particular positions",
 [GR], [("Grid.sample", GR+":988")])
prop("G04", "Spectral gridding deposits each spectrum along the chosen axis of its own column",
 "Adding objects that each carry a spectrum adds object k's n-th spectral value to the cell whose transverse indices contain the object's position and whose index along the chosen spectral axis is n, for exactly the selected properties (or in a newly appended property), and drops objects outside the transverse bounds. When the spectra come from a function, the value is that function evaluated at the channel centre (or the difference of its values at the channel's edges when it is cumulative). The result does not depend on whether the function is evaluated per object or in chunks.",
 ["inputs"], "all grids with 2-3 dimensions, all spectral axes, object numbers above and below the chunk size, any spectral function, cumulative or not",
 "tests use few objects, so the chunk loop runs once, and mostly the last axis; misattributed spectra after the first chunk never occur in them",
 [GR], [("Grid.add_from_pos_plus_array", GR+":671"), ("Grid.add_from_spec_func", GR+":776")])
prop("G05", "Reshaping operations keep exactly the cell contents they claim to keep",
 "Padding keeps every old cell's values at the shifted index and fills new cells with the fill value; negative padding and cropping keep exactly the cells inside the requested range and their values; down-sampling replaces each block of cells by its mean or sum; collapsing replaces an axis by the weighted sum or weighted mean along it; summing properties gives the cell-wise sum of the selected properties. Operations asked not to work in place leave the original grid unchanged, and weights passed in are never modified.",
 ["inputs"], "all geometries in 1-3 dimensions, all axis subsets and orders, all per-axis amounts, all weights",
 "tests use one axis or equal amounts on every axis of uniform data; swapped per-axis arguments or shifted blocks leave such data unchanged",
 [GR], [("Grid.pad", GR+":232"), ("Grid.crop", GR+":346"), ("Grid.down_sample", GR+":1152"), ("Grid.collapse_dimension", GR+":1222"), ("Grid.sum_properties", GR+":943"), ("_unpad", GR+":30")])
prop("G06", "Copies and saved grids reproduce the grid, and saving never clobbers a file",
 "Copying a grid, or saving it and loading it back, gives a grid with the same geometry, units, data values (for the selected properties), object count, Fourier state and power-spectrum flag. A copy shares no state with the original, so changing one never changes the other. Saving to a path whose file already exists raises and leaves that file untouched unless overwriting was requested.",
 ["inputs", "histories"], "all grids (active or not, any Fourier state), all property subsets, compressed or not, all path spellings",
 "tests save one fresh grid once; aliasing, dropped flags and overwrite checks that look at the wrong file name need a follow-up operation to show",
 [GR], [("Grid.copy/copy_axes", GR+":470,489"), ("Grid.save", GR+":515"), ("LoadGrid", GR+":2101")])
prop("G07", "Fourier transforms invert exactly and keep track of each axis's space",
 "Transforming any set of axes flips the Fourier flag of exactly those axes and no others, multiplies by the product of the pixel sizes of forward-transformed axes (and by its inverse for backward-transformed ones) when normalising, and puts zero frequency at the position the Fourier axis says. Transforming the same axes twice restores the data. A power spectrum is the product of the transform with the conjugate transform of the other grid (or of itself), and computing it not in place restores both input grids to their former data and Fourier state.",
 ["inputs", "histories"], "all grids, axis subsets, starting Fourier states, normalisation choices, auto- and cross-spectra",
 "tests transform one grid over all axes once; mixed starting states and axis subsets, and the state left in the inputs, are not looked at",
 [GR], [("Grid.fourier_transform", GR+":1353"), ("Grid.power_spectrum", GR+":1414")])
prop("G08", "Spherical averages assign every cell to exactly one shell",
 "The spherical average over the chosen axes gives, for every shell, the weighted mean of exactly those cells whose distance from the centre lies between that shell's lower edge (inclusive) and upper edge (exclusive), separately for each index of the axes not averaged and each property. The returned counts are the numbers of those cells, and the returned standard deviation is that of those same cells. With automatic shells every cell with positive distance belongs to exactly one shell.",
 ["inputs"], "all grids in real or Fourier space, all axis subsets, centres, shell specifications, real-valued weights",
 "tests compare one isotropic case; a dropped or doubled shell or integer-truncated weights only show for particular shells and weights",
 [GR], [("Grid.spherical_average", GR+":1575")])
prop("G09", "Gridding a catalogue puts each selected object's properties in its own cell",
 "Gridding the objects of a snapshot or a light cone sums, in each cell, the requested properties of exactly the selected objects (or of all objects, when asked) whose coordinates lie in that cell, with coordinates, properties, default limits and cell sizes in the requested unit system. Limits given by the caller bound the grid in the order x, y, z (or right ascension, declination, redshift), and with a rest frequency the third coordinate is that frequency divided by one plus the object's redshift. A normalisation multiplies every cell, and the normalisation by cell volume divides by the volume of a cell in those same units.",
 ["inputs"], "all catalogues, selections, limits, cell sizes, unit choices and normalisations",
 "tests grid one small simulation with default settings; a unit slip in the box size, the resolution or the cell volume, or a selection that is ignored, needs h other than one or an active cut",
 ["simim/siminterface/simhandler.py", "simim/lightcone/lchandler.py", GR], [("SnapHandler.grid", "simim/siminterface/simhandler.py"), ("LCHandler.grid", "simim/lightcone/lchandler.py"), ("Gridder.__init__", GR)])
prop("G10", "Convolution and point-spread kernels do exactly what they state",
 "Convolving a map with a kernel gives, in every cell, the sum over kernel cells of the kernel's value times the map's value that many cells away from the kernel's centre (zero beyond the edge) along the chosen axes, and separately along the others; geometry, units and the kernel stay as they are, the map itself too unless asked otherwise, and padding does not change the result. Point-spread kernels are Gaussians of the stated full width at half maximum along every axis, scaled along a spectral axis as stated, with unit sum (per channel) or unit peak. Requests that make no sense are refused and leave the map as it was.",
 ["inputs"], "all maps and kernels, kernel shapes (even sizes and fewer dimensions included), axis subsets and orders, paddings, in place or not, widths and pixel sizes",
 "tests convolve symmetric maps with symmetric odd kernels; a flipped kernel, a shift by one for even sizes or a wrong axis order leaves those unchanged",
 [GR], [("Grid.convolve", GR+":1056"), ("PSF.__init__", GR+":2160"), ("SpectralPSF.__init__", GR+":2234")])
prop("H01", "Little-h conversion is exact and round-trips",
 "Reading a property returns the stored value times h to the property's own h exponent when h-free units are asked for, and the stored value itself when h units are asked for; the per-call choice wins over the object's default. A derived property receives its inputs in the units it asks for, and its result is stored so that reading it in h-free units returns exactly what its function returned (or, when the function returns h units, reading in h units does). This holds separately for each output of a multi-output property.",
 ["inputs", "histories"], "all h, all exponents, all stored values, all combinations of defaults, per-call overrides, and function unit conventions",
 "tests use one property with one exponent at a time and mostly default flags; conversions that cancel or that use another property's exponent go unseen",
 ["simim/_handlers.py", "simim/galprops/galprops.py"], [("Handler.return_property", "simim/_handlers.py:202"), ("Handler.make_property", "simim/_handlers.py"), ("MultiProp.__init__/evaluate_all", "simim/galprops/galprops.py:4,79")])
prop("H02", "The active selection is exactly the set of objects satisfying the requested cuts",
 "After any sequence of range cuts and resets the active set is exactly the objects whose property, in the requested units, lay within every inclusive range applied since the last reset, listed in catalogue order without repeats, and the active count is its size. Properties read back, statistics and newly made properties use exactly the active objects in that order, unless all objects are asked for; newly made properties are NaN for inactive objects. Selecting changes no stored data.",
 ["inputs", "histories"], "all catalogues, all sequences of cuts with or without reset, all ranges including open and empty ones",
 "tests make one cut; intersecting sequences, unit conversion of the limits, and the alignment of later results with the active set are not exercised",
 ["simim/_handlers.py", "simim/galprops/galprops.py"], [("Handler.set_property_range", "simim/_handlers.py"), ("Handler.return_property/eval_stat/make_property", "simim/_handlers.py")])
prop("H03", "Property bookkeeping matches what is in memory and on disk after any history",
 "After any sequence of make, load, unload, write, overwrite and delete operations, the lists of known, saved, loaded and generated properties equal what is actually on disk and in memory, and reading any known property returns its in-memory values while it is loaded and those on disk otherwise. Writing stores exactly the in-memory values with their units and h exponent. Making or writing a property whose name is taken raises and changes nothing unless overwriting was requested.",
 ["histories", "inputs"], "all operation sequences over any set of property names, overwrite flags and values",
 "tests run one make-write-delete sequence in a fixed order; stale entries appear only after particular interleavings",
 ["simim/_handlers.py"], [("Handler.make_property", "simim/_handlers.py"), ("Handler.write_property/delete_property/load_property/unload_property", "simim/_handlers.py")])
prop("S01", "Simulation-level lookups return the right snapshot, index and unit conversion",
 "Looking up a redshift returns the snapshot whose redshift interval contains it and raises when it lies outside the covered range; looking up a mass limit returns a row index such that every object at least that massive, in the requested units, lies before it. Snapshot handles carry the requested snapshot's own metadata and the simulation's unit default. The number of copies of a volume that fit in the box is the box volume divided by that volume in the same units.",
 ["inputs"], "all snapshot tables, all redshifts, all mass limits and cut tables, both unit conventions",
 "tests look up a few mid-range values; boundaries, unit conversions and out-of-table values are where the answer goes wrong",
 ["simim/siminterface/simhandler.py"], [("SimHandler.z_to_snap", "simim/siminterface/simhandler.py"), ("SimHandler.get_mass_index", "simim/siminterface/simhandler.py"), ("SimHandler.get_snap/number_volumes", "simim/siminterface/simhandler.py")])
prop("S02", "Formatting a raw catalogue loses no object and keeps rows together",
 "Formatting the loaded objects of a snapshot produces a file in which every field has one entry per loaded object, all fields are reordered by one and the same permutation so that mass never increases along the rows, and field values are otherwise only converted as declared for them. The mass-cut table lists, for every listed limit, the number of objects whose mass is at least that limit. Formatting again keeps, replaces or adds snapshots as requested, each with the fields of the file, and the file lists exactly the snapshots it holds.",
 ["inputs", "histories"], "all numbers of chunks and objects, all masses including ties, all field sets, remake/overwrite/append modes",
 "tests format one synthetic catalogue and compare a few entries; row misalignment between fields or a cut off by one needs a check over all rows",
 ["simim/siminterface/_rawsiminterface.py"], [("Snapshot.format / SimCatalogs.format", "simim/siminterface/_rawsiminterface.py")])
RAWI = "simim/siminterface/illustris.py"; RAWU = "simim/siminterface/universemachine.py, simim/siminterface/uchuu.py"
prop("S03", "Raw catalogue files are read completely, with the stated meaning and units",
 "Reading a snapshot of a raw catalogue (chunked Illustris/TNG files, UniverseMachine text and binary files, Uchuu files) returns every object of that snapshot that is not excluded by its flag exactly once, with all fields of one object kept together and positions inside the box. Every field stored by formatting holds the quantity its name says, in the units and with the h dependence stated for it.",
 ["inputs"], "all numbers of objects per chunk and file (none and one included), all field values, all supported simulations, any order of the file listing",
 "the tests have no raw simulation data: no raw reader is ever run by them",
 ["simim/siminterface/illustris.py", "simim/siminterface/_illustris_datahandling.py", "simim/siminterface/universemachine.py", "simim/siminterface/uchuu.py"], [("_loadObjects/_loadSubhalos", "simim/siminterface/_illustris_datahandling.py"), ("IllustrisCatalogs._loader", RAWI), ("UniversemachineCatalogs._ascii_loader/_bin_loader", RAWU), ("UchuuCatalogs._loader", RAWU)])
prop("S04", "Snapshot metadata describe the right snapshots and tile cosmic time",
 "The snapshot table built for a simulation has one row per requested snapshot, in order, each with the number, redshift, and scale of the raw files it stands for, whatever the order in which the server lists them. Each snapshot's redshift interval meets its neighbours' intervals at the middle of the cosmic time between them, the outermost ones ending at the first snapshot and today, and distances are those of the simulation's cosmology in the stated units.",
 ["inputs"], "all listings of snapshots in any order, all requested subsets, all cosmologies",
 "the tests have no server to list snapshots, and no listing out of order or subset is tried",
 ["simim/siminterface/_rawsiminterface.py", "simim/siminterface/illustris.py", "simim/siminterface/_illustris_datahandling.py", "simim/siminterface/universemachine.py", "simim/siminterface/uchuu.py"], [("Snapshot.dif_snap", "simim/siminterface/_rawsiminterface.py"), ("IllustrisCatalogs.download_meta", RAWI), ("UniversemachineCatalogs.download_meta", RAWU)])
prop("S05", "Raw files are removed only on request and only those of the snapshot",
 "Raw files are removed only if the user agreed, only raw files of the simulation (only those of a snapshot just written to the formatted file when removal follows formatting), and no other file, whatever characters the data path contains. Downloading fetches every requested snapshot that is missing to the place from which the reader reads it, and leaves files that are there alone unless asked to download again.",
 ["inputs", "histories"], "all data paths, answers, subsets of snapshots and files already present, all supported simulations",
 "the tests never download or remove raw files",
 ["simim/siminterface/_rawsiminterface.py", "simim/siminterface/illustris.py", "simim/siminterface/_illustris_datahandling.py", "simim/siminterface/universemachine.py", "simim/siminterface/uchuu.py"], [("SimCatalogs.clean_raw/format", "simim/siminterface/_rawsiminterface.py"), ("_get_rawsnapfiles", RAWI), ("download", RAWU)])
prop("L01", "A sphere light cone holds exactly the halos inside its shell, correctly placed",
 "The spherical light cone around an observer contains each halo of the periodic box whose distance from the observer lies in the requested range and whose mass is at least the requested minimum, once, and nothing else. Each kept halo's distance, sky coordinates and redshift are those of its position relative to the observer, and every other property stays attached to its own halo. A sphere that does not fit in the box, compared in one unit system, is refused.",
 ["inputs"], "all halo positions, observer positions, distance ranges, mass limits, and box sizes",
 "tests check array lengths of one cone; a halo wrapped to the wrong side, rows shuffled between properties or a unit mix-up in the fit check keep lengths plausible",
 ["simim/lightcone/lcmaker.py"], [("SphereMaker.assign_D / build_lightcone", "simim/lightcone/lcmaker.py")])
prop("L02", "Light-cone tiling covers the requested distance range without overlap",
 "Building a box or cone light cone visits tiled copies of the simulation whose distance intervals abut without gap or overlap, takes each copy's halos from the snapshot matching that distance, applies one rigid random rotation, flip and periodic shift to all halos of a copy, and keeps exactly those halos that fall inside the requested field and distance interval. Kept halos' sky coordinates, distance and redshift agree with their transformed positions.",
 ["inputs", "schedules"], "all field sizes, redshift ranges, aspect ratios, random seeds and snapshot tables",
 "random tiling makes expected values hard to write down; tests check file existence and rough counts, so gaps, double counting and half-applied transforms pass",
 ["simim/lightcone/lcmaker.py"], [("LCMaker.assign_D/build_lightcone/_select", "simim/lightcone/lcmaker.py")])
prop("L03", "Properties added to a light cone belong to the right halos",
 "Adding further simulation properties to an existing light cone attaches to every light-cone object the value of its own source halo in its own source snapshot, rotating and flipping vector quantities by exactly the transform that placed that object. Splitting or re-running the addition does not change existing entries.",
 ["inputs", "histories"], "all light cones, property choices and values",
 "the association goes through stored index tables; tests use properties whose values do not distinguish halos",
 ["simim/lightcone/lcmaker.py"], [("LCMaker.add_properties/add_pos_properties", "simim/lightcone/lcmaker.py")])
prop("L04", "Light-cone statistics use the right slices and restore the handler",
 "Evaluating a statistic in redshift bins evaluates it, for each bin, on exactly the objects of the light cone in that bin (edges included) with that bin's limits and comoving volume, and leaves the active selection, counts and the caller's arguments as they were. The volume reported for a light-cone slice is that of the region of the field between the two distances, and a field or range outside the light cone is refused.",
 ["inputs", "histories"], "all light cones, bins, prior selections and extra arguments",
 "tests evaluate once and inspect the returned numbers, not the handler state afterwards",
 ["simim/lightcone/lchandler.py"], [("LCHandler.eval_stat_evo", "simim/lightcone/lchandler.py"), ("LCHandler.volume", "simim/lightcone/lchandler.py")])
INS = "simim/instrument/instrument.py"
prop("I01", "An instrument never samples a stale map",
 "After any history of adding or removing fields and detectors, changing responses, and mapping, sampling a field whose convolved maps are missing or were computed before a relevant change is refused rather than answered from the old map; and after mapping with the current configuration it is allowed. Removing a field or detector removes all state kept for it, and other fields and detectors keep theirs.",
 ["histories"], "all sequences of add/delete/modify/map/sample operations over fields and detectors",
 "tests run map-then-sample in the right order; staleness needs a modification between the two",
 [INS], [("Instrument.maps_consistent bookkeeping", INS), ("Instrument.sample_fields", INS)])
prop("I02", "Detector samples come from the right detector, pointing and field",
 "Sampling along a pointing track returns for every detector, in order, the value of that detector's own map of the chosen field at the pointing offset by that detector's own position, one value per pointing, summed over fields only as requested. Noise is added with the detector's own noise function and parameters, only when requested, and built-in white noise has the stated mean and rms and draws only from the generator it is given.",
 ["inputs"], "all detector layouts, pointings, fields and noise settings",
 "tests use one or two detectors at the same position; a transposed or re-ordered result is invisible",
 [INS], [("Instrument.sample_fields", INS), ("Grid.sample", GR+":988")])
prop("I03", "Instrument maps are the field weighted by each detector's own response",
 "Mapping a field produces, for every detector in order, the field's selected property averaged along the spectral axis with that detector's own spectral response as weight and convolved with that detector's own beam; the input field is unchanged. Detectors that share a beam give the same maps as if each were processed alone. Built-in responses have their stated peak, width and frequency scaling, and a field whose stated units or pixels do not suit the instrument is refused.",
 ["inputs"], "all fields, detector response functions, beams and orders",
 "tests map one flat field with equal detectors; wrong weights, wrong property or shared-beam mixups cancel",
 [INS], [("Instrument.map_fields", INS), ("Grid.collapse_dimension", GR+":1222")])
prop("P01", "Property models draw randomness only from the generator they are given",
 "Every galaxy-property model that adds scatter or duty cycles uses only the random generator passed to it: the same inputs and generator state give the same outputs, the global random state is neither read nor changed, and each object's draw is independent of the others. With scatter switched off a model is a deterministic function of its inputs.",
 ["inputs", "schedules"], "all models, inputs, seeds and interleavings with other random use",
 "tests call each model once and look at shapes; hidden global draws change nothing there",
 ["simim/galprops"], [("log10normal", "simim/galprops/log10normal.py"), ("sfr_*, line_* models", "simim/galprops/")])
prop("P02", "Property models act object by object",
 "Every galaxy-property model, with scatter off, gives each object a value that depends only on that object's own inputs: reordering, splitting or joining the catalogue reorders, splits or joins the outputs, and a scalar input gives the same value as a one-element array. Duty cycles switch objects fully on or fully off, and log-normal scatter multiplies by ten to a normal draw of the stated width, keeping the linear mean when asked to.",
 ["inputs"], "all models, input arrays and masks",
 "tests evaluate fixed small arrays of similar objects; errors in branch masks show only for catalogues that straddle the branches",
 ["simim/galprops"], [("model functions", "simim/galprops/")])
prop("P03", "Abundance matching is monotone and reproduces the target abundances",
 "Abundance matching assigns values to objects so that a more massive object never gets a smaller value when scatter is off, and the number of objects above any assigned value agrees with the target distribution to within the table resolution. Values stay within the tabulated range.",
 ["inputs"], "all catalogues and all monotone target distributions",
 "tests compare one matched sample visually or by totals; order inversions at table edges or boundaries need particular masses",
 ["simim/galprops/galprops_am.py"], [("am_* matchers", "simim/galprops/galprops_am.py")])
prop("R01", "Registered data paths survive a reload unchanged",
 "Any directory or file registered with the path registry is returned unchanged by a later process that reloads the registry, whatever characters the path contains that the file format allows. Adding, replacing or checking one entry never alters another, and an existing entry is replaced only when the user agrees.",
 ["inputs", "histories"], "all path strings without line breaks, all sequences of registrations and reloads",
 "tests register simple paths in one process; separators, spaces and shared prefixes are not tried",
 ["simim/_paths.py"], [("_SimIMPaths", "simim/_paths.py")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
