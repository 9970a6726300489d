"""Writes /verif/properties.jsonl (the list is kept here so it can be edited readably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

D = "pyebsdindex/"
prop("R01", "Rotation representations convert to one another without changing the rotation",
 "Every conversion between the seven rotation representations (Bunge Euler angles, orientation matrix, axis-angle, Rodrigues-Frank, unit quaternion, homochoric, cubochoric) returns the same physical rotation, in the documented range of the target representation. This holds for a single rotation or any array of them (each element independently of its neighbours), for float32, float64, integer and list input, and includes the identity, half-turn and gimbal-degenerate rotations. The input is never modified.",
 ["inputs"], "all rotations x all ordered pairs of representations x single/array shapes x both float types",
 "The repository's stable tests do not call the conversion library at all; a handful of samples cannot cover the singular loci (identity, 180 degrees, PHI=0/pi) nor batches mixing them.",
 [D+"rotlib.py", D+"rotations.py"],
 [("direct conversions with special cases for degenerate rotations", D+"rotlib.py: qu2*/eu2*/om2*/ax2*/ro2*/ho2*/cu2*"), ("per-element loop over a batch", D+"rotlib.py: *L numba kernels"), ("array reference version", D+"rotations.py")],
 ["return value of rotlib.<a>2<b>"])
prop("R02", "Quaternion operations obey the rotation-group laws, element by element",
 "Quaternion product, conjugate, normalisation and vector rotation form a consistent algebra: product is associative with the identity as unit and the conjugate as inverse, rotating by a product equals rotating successively, lengths and angles are preserved, and the rotation agrees with the rotation matrix of the same quaternion. Broadcasting one against many, many against one and many against many gives exactly the element-wise results. Inputs are never modified.",
 ["inputs"], "all quaternions/vectors and all 1xN, Nx1 and NxN batch shapes",
 "No stable test calls these operations; algebraic laws quantify over all triples and all batch shapes.",
 [D+"rotlib.py"], [("numba kernels with modulo broadcasting", D+"rotlib.py: quat_multiply, quat_vector, quatconj, quatnorm")],
 ["return values"])
prop("C01", "Every space group yields the symmetry group of its Laue class",
 "For every space group 1-230 the Laue class and the rotation operators selected for it are those of crystallography: the operators are distinct unit quaternions, contain the identity, are closed under product and inverse, have the order of the proper rotation group of the class, and map the conventional-setting crystal lattice onto itself. Symmetry-equivalent orientations generated from any orientation all describe the same crystal.",
 ["inputs", "configurations"], "all 230 space groups x all orientations",
 "Tests only look at three named structures; a wrong range boundary or one wrong operator is invisible for the other 227 space groups.",
 [D+"crystal_sym.py", D+"crystallometry.py"],
 [("space group to Laue class tables", D+"crystal_sym.py: spacegroup2lauenumber"), ("operator tables per class", D+"crystal_sym.py: *sym_q, laueid2symops")],
 ["return values"])
prop("C02", "Lattice geometry is exact for any unit cell",
 "For any valid set of lattice parameters, the direct and reciprocal metric and structure matrices are mutually consistent (reciprocal is the inverse of direct, metric equals structure-transpose times structure, the a axis / c* axis follow the documented Cartesian alignment), and dot products, lengths, angles and Cartesian vectors computed for directions and planes equal those of Euclidean geometry on the explicit cell vectors.",
 ["inputs"], "all cells (a,b,c,alpha,beta,gamma) and all integer or real direction/plane indices, single or batched",
 "Tests look at a few fixed cells; an error in a term that vanishes for right angles or equal axes needs general triclinic input.",
 [D+"crystallometry.py"], [("metric/structure tensors", D+"crystallometry.py")], ["return values"])
prop("C03", "A phase's reflector families and angle library are complete and consistent",
 "Creating a phase from a space group, cell and any list of pole families gives, for each usable family, exactly the set of distinct symmetry-equivalent poles, with unit Cartesian normals that match the reciprocal lattice. The angle library used for indexing holds every distinct interplanar angle that can occur between two poles of those families, labelled with the right families, and each stored triplet of angles is realised by three actual poles of the stored families. Zero poles and poles parallel to one of an earlier family are dropped, and the result does not depend on the sign chosen for a pole.",
 ["inputs", "configurations"], "all space groups, cells compatible with them, pole family lists in 3- or 4-index notation",
 "Tests fix four phases and look at a few attributes; completeness of pole sets and of the angle library is a statement about all pairs of poles of all phases.",
 [D+"tripletvote.py", D+"crystal_sym.py", D+"crystallometry.py"],
 [("family expansion and de-duplication", D+"tripletvote.py: setpolefamilies, build_trip_lib, hkl_unique"), ("angle table", D+"tripletvote.py: completelib, angpairs, tripAngles")],
 ["BandIndexer attributes after addphase"])
prop("I01", "Band normals of a crystal are indexed to its true orientation",
 "Given the set of detected band normals of a crystal in any orientation -- in any order, with either sign, with small angular noise and with a minority of spurious bands -- indexing returns an orientation that is crystallographically equivalent to the true one within the noise, and reports the number of matched bands, the mean angular deviation of the matched bands and the identity of the pole matched to each band consistently with that orientation. Bands that match no pole are reported unmatched (a negative pole index). Where the given bands fit two inequivalent orientations equally well, either may be returned.",
 ["inputs", "configurations"], "all orientations, phases, band subsets, orders, signs, noise below tolerance and outlier sets",
 "Tests index one simulated pattern at one orientation of one phase.",
 [D+"tripletvote.py"],
 [("triplet voting", D+"tripletvote.py: tripvote_numba"), ("pole assignment", D+"tripletvote.py: assign_bands_nb"), ("QUEST refinement", D+"tripletvote.py: _orientation_quest_nb, refine_orientation*")],
 ["bandindex return values"])
prop("G01", "Pattern-center conventions of all vendors describe the same geometry",
 "A point in Radon space denotes a line on the detector, and the band normal computed for it is the unit normal of the plane through that line and the source point given by the pattern center, for any detector shape. The same physical pattern center expressed in the EDAX, OXFORD, BRUKER, KIKUCHIPY and EMSOFT conventions gives the same band normals up to sign, for one shared center or one center per pattern. The orientation finally reported for a physical pattern differs between vendors only by the documented fixed sample-frame rotation, and follows the stated sample tilt and camera elevation.",
 ["inputs", "configurations"], "all vendors x pattern centers x detector aspect ratios x tilt/elevation angles x lines",
 "Tests use one vendor, one square detector and one pattern center (and EMSOFT only in passing), so aspect-ratio, sign and scaling terms of the other conventions are never distinguished.",
 [D+"radon_fast.py", D+"_ebsd_index_single.py"],
 [("PC conversion", D+"radon_fast.py: radon2pole"), ("sample/detector frames", D+"_ebsd_index_single.py: _detector2refframe")],
 ["radon2pole return value", "indxData['quat']"])
prop("B01", "The Radon transform integrates each pattern along its lines, independently",
 "Each Radon bin holds the mean of the pattern's (masked) pixels along the line with that bin's theta and rho, so the transform agrees with a direct evaluation along those lines, is linear in the pattern (after removing the given background), is blind to pixels outside the mask, and marks or zeroes bins whose line has too few valid pixels. Patterns transformed together give the same results as when transformed alone, in any order. The geometry, and with it the default smoothing of band detection, is rebuilt whenever pattern size, resolution or mask change: a detector that was set up before for something else gives the same bands as a fresh one.",
 ["inputs", "histories", "configurations"], "all patterns, sizes, theta/rho resolutions, masks, batch compositions and re-planning sequences",
 "Tests only check the final orientation of one pattern, to which large errors of individual Radon bins are invisible.",
 [D+"radon_fast.py", D+"band_detect.py"],
 [("line index plan", D+"radon_fast.py: radon_plan_setup"), ("fast summation", D+"radon_fast.py: radon_fast, radon_faster")],
 ["radon_fast / radon_faster return values"])
prop("B02", "Band detection finds the bands that are there, pattern by pattern",
 "On a pattern made of well separated bands, the strongest detected bands lie at the true theta and rho of the drawn bands to sub-bin accuracy, ordered by strength, and slots left over (fewer peaks than slots, or a featureless pattern) are flagged invalid. What is detected in one pattern does not depend on the other patterns of the batch, on the batch's order or on the internal chunk size, nor on a positive rescaling or constant offset of the pattern's intensities. A background collected from a set of patterns, given as an array or a file, is the smooth surface (Gaussian on a plane, mean zero) those patterns share, and detecting bands with it equals detecting bands in patterns from which it was subtracted. The caller's patterns are not modified.",
 ["inputs", "configurations"], "all band positions, pattern sizes, batch compositions, chunk sizes, intensity scalings, detector plans",
 "Tests detect bands on one pattern (repeated); independence and accuracy quantify over all batches and band placements.",
 [D+"band_detect.py", D+"radon_fast.py"],
 [("chunked detection loop", D+"band_detect.py: find_bands"), ("peak search and labelling", D+"band_detect.py: rdn_conv, rdn_local_max, band_label"), ("background", D+"band_detect.py: collect_background, backsub_fit")],
 ["find_bands return value", "BandDetect.backgroundsub"])
prop("E01", "Indexing a pattern gives its orientation no matter how the pattern is supplied",
 "Indexing a simulated diffraction pattern of a known crystal orientation returns that orientation (up to crystal symmetry) within angular resolution. The result for a pattern is the same whether it is indexed alone or within any batch, in any order, as a 2-D or 3-D array, as integer or float data, as an in-memory array, an HDF5 dataset, a pattern object or a pattern file, and with an existing or freshly constructed indexer or band detection plan, whatever internal chunk size and verbosity are asked for; the requested start and count select exactly that slice of the source, and the output has one entry per requested pattern in source order.",
 ["inputs", "configurations", "histories"], "all orientations, batches, input containers, start/count values, and sequences of calls on one indexer",
 "Tests index the same pattern four times from one array with default start/count.",
 [D+"_ebsd_index_single.py", D+"ebsd_index.py", D+"ebsd_pattern.py"],
 [("input normalisation and slicing", D+"_ebsd_index_single.py: index_pats"), ("chunked indexing", D+"_ebsd_index_single.py: EBSDIndexer.index_pats")],
 ["indxData, bandData"])
prop("E02", "The reported best phase is the best-matching phase, and no-solutions are marked",
 "With several candidate phases, the final result layer is, for each pattern, an exact copy of one of the per-phase results: the phase that explains more bands with the better fit wins, and its phase number is reported. A phase later in the list is only tried on patterns for which no earlier one matched the early-exit number of bands. A pattern no phase can explain (three matched bands are the least), such as a featureless one, is reported as phase -1 with the documented no-solution fit, never as a spurious orientation. The per-band match record identifies, for the winning phase, the pole whose rotated normal lies on that band.",
 ["inputs", "configurations"], "all phase lists (1-3 phases, any order), patterns of any of the phases, noise and blank patterns, early-exit settings",
 "Tests index with a single phase and look only at the orientation.",
 [D+"_ebsd_index_single.py", D+"tripletvote.py"],
 [("per-phase loop, early exit and best-phase choice", D+"_ebsd_index_single.py: _indexbandsphase"), ("matched pole look-up", D+"_ebsd_index_single.py: getmatchedpole")],
 ["indxData[-1] against indxData[:-1]", "bandData['band_match_index']"])
prop("D01", "Distributed indexing returns exactly what serial indexing returns",
 "Indexing through the distributed scheduler yields, for every pattern, the same result as serial indexing, placed at that pattern's position, whatever the chunk size, number of workers, start and count, and whatever order workers finish in. Loss or hanging of a worker delays but neither loses, duplicates nor misplaces a chunk, and the call terminates: with the complete result, or with an error if a chunk keeps failing.",
 ["schedules", "fault_sequences", "configurations"], "all completion orders, worker counts, chunk sizes, start/count and worker failures",
 "The existing test runs the scheduler once with one chunk and checks one orientation; interleavings and worker deaths are never exercised.",
 [D+"_ebsd_index_parallel.py"],
 [("chunk table and worker scheduling loop", D+"_ebsd_index_parallel.py: index_pats_distributed"), ("workers", D+"_ebsd_index_parallel.py: GPUWorker, CPUWorker")],
 ["indxData, bandData"])
prop("F01", "Pattern files read back what was written",
 "Patterns written to any writable pattern file type (EDAX UP1/UP2, Oxford EBSP, Thermo-Fisher PAT, the HDF5 layouts) and read back through a newly opened file are identical in value, order, dimensions, scan grid (square or hexagonal, as the file says) and step sizes. Every way of addressing patterns -- all, a start and count, or a rectangular sub-grid -- returns exactly the corresponding slice of the full scan with matching locations, and requests running past the end are cut off there. A file object pointed at another file describes and reads that file.",
 ["inputs", "configurations"], "all file types and versions, bit depths, pattern and scan sizes, and read windows",
 "No stable test reads or writes a pattern file.",
 [D+"ebsd_pattern.py"],
 [("binary readers and writers", D+"ebsd_pattern.py: UPFile, EBSPFile, TFPatFile, HDF5PatFile"), ("addressing", D+"ebsd_pattern.py: EBSDPatternFile.read_data, write_data")],
 ["read_data return value"])
prop("F02", "Writing part of a pattern file changes exactly that part",
 "Through any sequence of full, ranged and rectangular writes, blank-file creation, copies and reopens, a pattern file always holds the last value written to each scan position and leaves all others (and the header) as they were; a copy is independent of its original. Conversion of floating-point patterns to the file's integer type clips or rescales as requested, over the whole value range of that type, and never wraps around.",
 ["histories", "inputs"], "all operation sequences on one or several files",
 "No stable test writes a pattern file; a history property is out of reach of example tests.",
 [D+"ebsd_pattern.py"],
 [("windowed writes", D+"ebsd_pattern.py: EBSDPatternFile.write_data, pat_writer"), ("copy", D+"ebsd_pattern.py: copy_file"), ("integer conversion", D+"ebsd_pattern.py: pat_flt2int")],
 ["re-read contents of the files"])
prop("O01", "Result files carry the indexing results point for point",
 "An .ang or .oh5 file written from an indexing result, read by an independent parser, contains exactly one record per scan point in scan order with the orientation, fit, confidence, quality, phase number and grid position of that point to the file's precision, and a header with the pattern center (the mean one where there is one per pattern), geometry, grid size, step and every phase's name, symmetry, lattice constants and reflector families. Unindexed points are marked as such (confidence -1), and writing does not alter the result held in memory.",
 ["inputs", "configurations"], "all result arrays, phase lists (1-3 phases), grid shapes, and file versions",
 "No stable test writes a result file.",
 [D+"ebsdfile.py"], [("writers", D+"ebsdfile.py: writeang, writeoh5")], ["file contents"])
prop("N01", "NLPAR replaces each pattern by the defined weighted neighbourhood average",
 "Each output pattern is the normalised weighted mean of the patterns in its search window, the weights being the documented noise-normalised exponential of the pattern differences, so it is a convex combination of input patterns and equals a direct evaluation of that definition. Every scan position is written exactly once whatever the row chunking, scan shape (including scans smaller than the window) and file type; the input file is left untouched (an output of the same name is refused) and the output file has the same header, type and size. With background subtraction one smooth surface per group of rows, the one their patterns share, is taken off first. The lambda found by the optimisation is the one for which the patterns weigh closest to the target in their own averages.",
 ["inputs", "configurations"], "all scans, window sizes, lambda, thresholds, masks, chunk sizes and file types",
 "No stable test runs NLPAR.",
 [D+"nlpar_cpu.py", D+"ebsd_pattern.py"],
 [("noise estimate", D+"nlpar_cpu.py: sigma_numba, calcsigma"), ("weighted average", D+"nlpar_cpu.py: nlpar_nb, calcnlpar")],
 ["patterns in the output file", "calcsigma return value"])
prop("O02", "Pattern-center optimisation returns the best center it found, in the caller's terms",
 "Optimising the pattern center returns a center in the indexer's own vendor convention whose indexing cost is no worse than the starting guess, finds the true center of simulated patterns when started nearby, and returns one center per pattern in pattern order in batch mode. The swarm optimiser only evaluates points inside the search bounds, evaluates the given start, and reports a location and cost that belong to each other and are the best of all evaluated points. The starting guess, patterns and indexer settings are left as they were.",
 ["inputs", "configurations", "histories"], "all objective functions, bounds, swarm settings, vendors, starting centers, batch and single mode",
 "Tests run each optimiser on one pattern and compare three numbers to a tolerance.",
 [D+"pcopt.py"],
 [("Nelder-Mead driver and vendor conversion", D+"pcopt.py: optimize"), ("swarm", D+"pcopt.py: PSOOpt, optimize_pso")],
 ["returned center and cost", "objective call log", "indexer attributes"])
prop("V01", "Orientation colour maps respect crystal symmetry and the scan layout",
 "The inverse-pole-figure colour of an orientation is a valid RGB colour that depends only on the crystal direction along the chosen sample vector up to that crystal's symmetry, so symmetry-equivalent orientations have the same colour, the triangle corners are predominantly red, green and blue, different directions have different colours, and close directions have close colours (except across the faint center of the triangle, where the hue turns). In an orientation or scalar map the pixel at (row, column) shows scan point row*ncols+column, incomplete last rows are padded with black, unindexed points are black in orientation maps, scalar colours follow the values, the picture of the colour key shows the colour of each direction at its stereographic place, and a scale bar of a round length, at most a third of the width, is only appended below the image, which is unchanged unless rescaling is asked for.",
 ["inputs", "configurations"], "all orientations of cubic (m-3m) and hexagonal (6/mmm) crystals and their symmetry operators, sample vectors of any length, map shapes, data fields, image sizes and steps",
 "No stable test produces a map.",
 [D+"EBSDImage/IPFcolor.py", D+"EBSDImage/scalarimage.py", D+"EBSDImage/micronbar.py"],
 [("colour functions", D+"EBSDImage/IPFcolor.py"), ("layout", D+"EBSDImage/scalarimage.py"), ("scale bar", D+"EBSDImage/micronbar.py")],
 ["returned images"])
prop("M01", "Misorientation is the smallest rotation between two crystals",
 "The misorientation reported between two orientations of a cubic crystal (the class the package offers) has the smallest rotation angle over all symmetrically equivalent descriptions of both, is unchanged when either orientation is replaced by an equivalent one, is zero exactly for equivalent orientations and is symmetric in its arguments; batched evaluation equals pairwise evaluation.",
 ["inputs"], "all pairs of orientations and symmetry operators, all batch shapes",
 "No test imports the module.",
 [D+"misorientation.py"], [("cubic fast path", D+"misorientation.py: misorientcubic_quick")], ["return values"])

prop("P01", "Band detection and indexing on a GPU give what the CPU gives",
 "The GPU class finds the bands of a pattern where the CPU class finds them and where they are (also at the ends of the theta range), none in a pattern without contrast, and its Radon transform has the values of the CPU class. The bands of a pattern do not depend on the other patterns of the call, on how many fit the device at once, on their order, data type or the way of supplying them (array, file, object), nor on what the device memory held before; background and masks act as on the CPU. Indexing on the GPU recovers the orientations of simulated patterns. When the device fails, has no memory or is not to be used, the results are those of the CPU.",
 ["inputs", "configurations", "faults"], "all patterns, batch sizes, data types, detector settings, device limits and failing launches",
 "No test runs a GPU path: there is no device where they run.",
 [D+"opencl/band_detect_cl.py", D+"opencl/clkernels.cl", D+"opencl/openclparam.py", D+"opencl/radon_fast_cl.py", D+"ebsd_index.py"],
 [("chunks and kernel launches", D+"opencl/band_detect_cl.py: find_bands"), ("Radon sum, padding, peaks", D+"opencl/clkernels.cl: radonSum, radonPadTheta, radonPadRho2, maxlabel"), ("return to the CPU", D+"opencl/band_detect_cl.py: find_bands")],
 ["arrays of band data", "indexing results"])
prop("P02", "NLPAR on a GPU replaces each pattern by the defined weighted neighbourhood average",
 "Both GPU classes (one process, or workers for several devices) write for every scan position the normalised weighted mean of the patterns in its search window, with the documented weights from the noise of both patterns, the window mirrored at the border of the scan. Output and noise estimate equal a direct evaluation of the definition whatever the scan and pattern shape, data type, mask, size and number of tiles, device memory, order of the workers, and whether the object was used for another file before; tiles that fail on a device are calculated again, and an error that stays is raised. Every position is written exactly once, the input file is untouched, and the output file has its header, type and size. The lambda of the optimisation is set to the one of the middle target.",
 ["inputs", "configurations", "schedules", "faults", "histories"], "all scans, window sizes, lambda, thresholds, masks, tile sizes, file types, worker orders and failing launches",
 "No test runs NLPAR, and none a GPU path.",
 [D+"opencl/nlpar_cl.py", D+"opencl/nlpar_clray.py", D+"opencl/clnlpar.cl", D+"nlpar_cpu.py"],
 [("weights and average", D+"opencl/clnlpar.cl: calcnlpar"), ("noise estimate", D+"opencl/clnlpar.cl: calcsigma; "+D+"opencl/nlpar_cl.py: calcsigma_cl"), ("tiles", D+"nlpar_cpu.py: _calcchunks"), ("workers", D+"opencl/nlpar_clray.py: calcnlpar_clray")],
 ["patterns in the output file", "calcsigma_cl return value"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
