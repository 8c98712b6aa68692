"""writes properties.jsonl (the committed file is its output)"""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                    **({"state": state} if state else {}), "hook_needed": None},
    })


S = "src/sorcha/"
Mo = S + "modules/"
p("C01", "Threshold cuts keep exactly the specified detections, unchanged",
  "The signal-to-noise cut keeps exactly the detections whose signal-to-noise is strictly above the limit, the magnitude cut exactly those strictly brighter than the limit, and the saturation cut drops exactly those strictly brighter than the limit (one limit for all filters, or for each filter its own limit). Every surviving detection keeps all its values and its relative order, and rows are renumbered from zero. A saturation limit that is neither a number nor a list is refused.",
  ["inputs", "configurations"], "every table of detections (any length, values, filter mix) and every limit, incl. values exactly at a limit",
  "unit tests compare a handful of rows with fixed limits; boundary equality, filter/limit pairing and row preservation have to hold for every table",
  [Mo + "PPSNRLimit.py", Mo + "PPMagnitudeLimit.py", Mo + "PPBrightLimit.py"],
  [("boolean row masks", "PPSNRLimit, PPMagnitudeLimit"), ("per-filter drop list", "PPBrightLimit")])
p("C02", "Random survival filters keep a detection iff its own draw allows it",
  "Each probabilistic filter draws exactly one uniform number per detection from that filter's own random stream and keeps the detection iff its draw does not exceed its survival probability (fading/detection probability, linking efficiency threshold, or camera fill factor), so probability 1 keeps all and probability 0 keeps none (up to a draw of exactly zero). Surviving rows are unchanged and in order with no helper column left behind. An efficiency threshold outside [0,1] is refused.",
  ["inputs", "configurations"], "every table, probability and every sequence of draws",
  "tests fix one seed and a few rows; the pairing of row, probability and draw must hold for every input and draw",
  [Mo + "PPDropObservations.py", Mo + "PPDetectionEfficiency.py", Mo + "PPFadingFunctionFilter.py", Mo + "DESFadingFunctionFilter.py", Mo + "PPFootprintFilter.py"],
  [("one draw per row", "PPDropObservations, PPDetectionEfficiency, PPSimpleSensorArea"), ("wrappers", "PPFadingFunctionFilter, DESFadingFunctionFilter")])
p("C03", "Fading functions follow the published detection-probability laws",
  "The detection probability of a source is fill/(1+exp((m-m_lim)/w)), computed from its measured PSF magnitude and the limiting depth at its own position (per-chip depth when there is one); for the Dark Energy Survey it is efficiency*c/(1+exp(k(m-m_lim))) with the c, k and depth of its own exposure. It therefore lies between 0 and the fill factor, equals half of it at the limiting depth and never increases with magnitude.",
  ["inputs"], "every magnitude, depth, width, fill factor and exposure parameters",
  "tests evaluate a few points; monotonicity, bounds and choice of depth column are for-all statements",
  [Mo + "PPDetectionProbability.py", Mo + "DESDetectionProbability.py", Mo + "PPFadingFunctionFilter.py", Mo + "DESFadingFunctionFilter.py"],
  [("fading law", "calcDetectionProbability, DEScalcDetectionProbability")])
p("C04", "Trailing losses are the published, non-negative, monotone law",
  "The trailing loss is 1.25 log10(1 + a x^2/(1+b x)) with x = on-sky speed[arcsec/s] * exposure / seeing, using (a,b)=(0.761,1.162) for the SNR (trailed-source) loss and (0.420,0.003) for the PSF-detection loss. It is therefore zero for a stationary source, never negative, and never decreases with speed or exposure time; an unknown model is refused.",
  ["inputs"], "every velocity vector, seeing > 0, exposure time >= 0",
  "tests check a few sampled values; the law must hold at every velocity and for both models",
  [Mo + "PPTrailingLoss.py"], [("loss law", "calcTrailingLoss"), ("column wrapper", "PPTrailingLoss")])
p("C05", "Vignetting only ever makes the limiting depth brighter off-axis",
  "The effective limiting depth of a detection is the field's depth minus a vignetting loss that depends only on the angular distance between the detection and its own field centre. The loss is zero on-axis, never negative, never decreases with off-axis angle over the field of view, and interpolates the tabulated throughput curve at its nodes.",
  ["inputs"], "every detection position, field centre (poles and RA wrap included), and field depth",
  "tests sample a handful of positions with one depth", [Mo + "PPVignetting.py"],
  [("separation and interpolated loss", "vignettingEffects, calcVignettingLosses, haversine")])
p("C06", "Photometric and astrometric uncertainties follow the survey error model",
  "With x=10^(0.4(m-m5)), the signal-to-noise is 1/sqrt((0.04-0.039)x+0.039x^2), the photometric uncertainty is 2.5 log10(1+1/SNR), and the astrometric uncertainty is the quadrature sum of the 10 mas floor and 0.6*seeing/SNR (reduced by sqrt(visits)), so fainter sources never get smaller uncertainties and no astrometric uncertainty is below the floor. The trailed-source values use the true trailed magnitude plus the trailed-source loss (none when trailing losses are off), the PSF values use the true PSF magnitude without it, and the stored astrometric uncertainty is in degrees.",
  ["inputs", "configurations"], "every magnitude, depth, seeing, visit count and trailing setting",
  "tests pin a few numbers", [Mo + "PPAddUncertainties.py"],
  [("error model", "calcAstrometricUncertainty, calcRandomAstrometricErrorPerCoord, calcPhotometricUncertainty"), ("column wiring", "addUncertainties")])
p("C07", "Apparent magnitudes come from the object's own filter, colour and phase law",
  "Each detection's apparent magnitude is 5log10(geocentric distance)+5log10(heliocentric distance) plus the reduced magnitude of the selected phase law evaluated at that detection's phase angle with the parameters belonging to its own filter, where its absolute magnitude is the main-filter H plus the colour offset of its own filter, plus light-curve and activity changes when they are configured. Detections in the main filter get no offset, the reported main-filter H is unchanged, and with a single filter no colours are applied. An unknown phase function is refused.",
  ["inputs", "configurations"], "every table, filter mix, colour set, phase law and its parameters",
  "tests use a few rows per phase law; the filter/colour/phase pairing must hold row by row for every mix",
  [Mo + "PPApplyColourOffsets.py", Mo + "PPCalculateApparentMagnitude.py", Mo + "PPCalculateApparentMagnitudeInFilter.py", Mo + "PPGetMainFilterAndColourOffsets.py"],
  [("colour selection", "PPApplyColourOffsets"), ("distance modulus and phase law", "PPCalculateApparentMagnitudeInFilter")])
p("C08", "Randomised measurements are truth plus scaled noise, with the truth preserved",
  "A randomised magnitude is the true magnitude plus its own uncertainty times a standard normal draw for that row; a randomised position is the true direction displaced by its own uncertainty (in radians) times three standard normal draws and projected back to the sphere. True RA/Dec are preserved in their own columns, the reported RA lies in [0,360) and Dec in [-90,90], zero uncertainty leaves values unchanged, and with trailing losses off the PSF magnitude equals the trailed magnitude. When the default cut is on, exactly the detections with signal-to-noise above 2 survive.",
  ["inputs", "configurations"], "every table, uncertainty and draw sequence, at every sky position including poles and RA wrap",
  "tests fix the seed and check statistics on one field", [Mo + "PPRandomizeMeasurements.py"],
  [("photometry", "randomizePhotometry"), ("astrometry", "randomizeAstrometry, sampleNormalFOV, icrf2radec, radec2icrf")])
p("C09", "A night contains a tracklet iff it holds a valid run of detections",
  "A night's time-ordered detections contain a tracklet iff some earlier and some later detection are separated by a positive time of less than the maximum duration and on the sky by more than the minimum length, and the run from the earlier to the later one holds at least the minimum number of detections; fewer detections than the minimum never do, and a minimum of one is satisfied by any detection. On-sky separations are true great-circle distances.",
  ["inputs", "configurations"], "every detection history of a night, any count, spacing and sky position, and every tracklet setting",
  "the nested search over all pairs can only be sampled by tests", [Mo + "PPMiniDifi.py"],
  [("pair search", "hasTracklet"), ("great-circle distance", "haversine_np")])
p("C10", "Tracklets are grouped by local night and linked within the window",
  "Each detection belongs to exactly one local observing night (change of night at the configured local time) and a night counts iff it contains a tracklet. An object can be discovered on a night iff that night and the preceding ones within the linking window contain at least the required number of tracklet nights (a required number of one means any tracklet night), and with efficiency p each such opportunity succeeds with probability p; the reported discovery is the first success.",
  ["inputs", "histories", "configurations"], "every multi-night detection history and every window, tracklet count and efficiency",
  "tests replay one small catalogue", [Mo + "PPMiniDifi.py"],
  [("night partition", "trackletsInNights, nites"), ("window", "discoveryOpportunities, linkObject, linkObservations")])
p("C11", "Linking outcome of an object depends only on its own observations",
  "Whether an object is linked, and its reported linking date, is a function of that object's own observations, the linking settings and the base seed: it does not change with the order of the input rows, with which other objects are in the table, or with how objects are split into chunks. The output contains every observation of linked objects with its values unchanged and, unless unlinked objects are requested (then they are all there, flagged), no observation of any other object.",
  ["inputs", "histories"], "every table of observations of any number of objects, every row order and partition into chunks",
  "tests use one table in one order", [Mo + "PPLinkingFilter.py", Mo + "PPMiniDifi.py"],
  [("per-object grouping and seeding", "linkObservations"), ("join back", "PPLinkingFilter")])
p("C12", "Chunked processing covers every object exactly once",
  "For every number of objects and every positive chunk size the run reads and processes consecutive blocks of objects such that every object of the orbit file is processed exactly once, in file order, regardless of chunk size, and the run terminates. Results of successive chunks are appended, never overwritten or duplicated, with a single header.",
  ["inputs", "configurations", "histories"], "every object count and chunk size (dividing or not, larger than the file)",
  "tests run one chunk size", [S + "sorcha.py", S + "des.py", Mo + "PPOutput.py", S + "readers/CombinedDataReader.py"],
  [("chunk loop", "runLSSTSimulation, runDESSimulation"), ("append", "PPWriteOutput, PPOutWriteCSV")])
p("C13", "Readers return exactly the requested rows, whatever the block",
  "Reading a block of an input file returns exactly the rows of that block in file order and consecutive blocks partition the file; reading by object ID returns exactly the rows of those IDs, for CSV, whitespace, HDF5 and cached access alike. Object IDs are preserved verbatim as text. The combined reader joins each object's auxiliary rows to that object only, and input files whose object IDs disagree are rejected.",
  ["inputs", "configurations"], "every file content, header position, block start/size and ID list",
  "tests read a few blocks of one demo file", [S + "readers/CSVReader.py", S + "readers/HDF5Reader.py", S + "readers/ObjectDataReader.py", S + "readers/CombinedDataReader.py", S + "readers/EphemerisReader.py"],
  [("row skipping", "CSVReader._read_rows_internal/_read_objects_internal"), ("join", "CombinedDataReader.read_block")])
p("C14", "Unphysical or malformed orbit files are rejected, valid ones are not",
  "A non-empty table of orbits is accepted iff every row names one and the same known format (KEP, COM, CART or the barycentric BKEP, BCOM, BCART), it has exactly the nine columns of that format (ObjID, FORMAT, six elements, epoch; in any order), and every row's elements are physical: for Keplerian orbits 0 <= e < 1 and no negative semi-major axis, for cometary orbits no negative perihelion distance and no negative eccentricity. Anything else stops the run with an error, however few of the rows are wrong. Accepted rows keep their values and order.",
  ["inputs"], "every table of orbits of every format, with any subset of rows invalid",
  "tests give one bad row per rule", [S + "readers/OrbitAuxReader.py"], [("validation", "OrbitAuxReader._process_and_validate_input_table")])
p("C15", "Configuration validation accepts exactly the consistent configurations",
  "For the supported surveys, every configuration value outside its documented range or type, every missing key that the selected camera model, ephemeris type or filter set needs, every key the validators name as contradicting that selection, and every partial set of linking, fading-function or distance/motion-cut keys stops the run with an error message before any processing. Every other configuration of documented keys is accepted, each section seeing its own keys only, with its values converted to the declared types and the documented defaults for absent keys (101 interpolation sub-intervals, unlinked objects dropped, SNR cut and brute force on, randomisation, vignetting and trailing losses on for LSST and off for DES).",
  ["configurations"], "every combination of present/absent keys and values, including range end points and zero",
  "tests change one key at a time", [S + "utilities/sorchaConfigs.py"],
  [("section validators", "*Configs._validate_* in sorchaConfigs"), ("casting helpers", "cast_as_int, cast_as_float, cast_as_bool, check_key_exists, check_key_doesnt_exist")])
p("C16", "Existing outputs are never overwritten without permission",
  "Without the overwrite option, the run refuses to start when a results or statistics file of the chosen stem already exists and leaves every existing file untouched. With it, every file that would collide is removed before the run and no other file is touched. A missing input file or directory is refused.",
  ["inputs", "configurations"], "every pre-existing directory content and stem", "tests create one colliding file",
  [S + "utilities/fileAccessUtils.py", S + "utilities/sorchaCommandLineParser.py", S + "utilities/sorchaArguments.py"],
  [("collision check", "warn_or_remove_file"), ("input check", "FindFileOrExit, FindDirectoryOrExit")])
p("C17", "Each module's random stream depends only on the base seed and its name",
  "A module's random stream is determined by the base seed and the module's name alone: requests by other modules, in any order and number, never change it, repeated requests continue the same stream, modules of different names have streams of their own, and two runs with the same seed give identical streams.",
  ["histories", "inputs"], "every base seed and every history of requests", "tests request two modules once",
  [S + "utilities/sorchaModuleRNG.py"], [("lazy per-module generator", "PerModuleRNG.getModuleRNG")])
p("C18", "Camera footprint decides on-sensor detections by true geometry",
  "A detection is kept by the camera footprint iff, after gnomonic projection about its own field centre with that field's rotation, it lies on one of the detectors (and, when an edge threshold is set, at least that far from every edge of it), and it is labelled with that detector. The circular footprint keeps exactly the detections whose angular distance to their own field centre is below the radius. Kept rows are unchanged and correctly paired with their detector.",
  ["inputs", "configurations"], "every detection position, pointing, rotation, convex detector and edge threshold",
  "tests check a few points of the shipped detector file", [Mo + "PPFootprintFilter.py", Mo + "PPApplyFOVFilter.py"],
  [("projection", "radec_to_focal_plane"), ("point in detector", "Detector.ison, segmentedArea, distToSegment, trueArea, sortCorners"), ("row pairing", "Footprint.applyFootprint")])
p("C19", "Per-visit CCD footprints keep a detection iff it falls on a CCD of its visit",
  "With per-visit footprints a detection is kept iff its position lies inside a CCD polygon of its own visit, and it then carries the detector number and the limiting depth of that very CCD. Detections of visits without a footprint are dropped and all other values of kept rows are unchanged. (CCD mosaics in which one of the three nearest CCD corners and centres belongs to the CCD hit, such as those of DECam and LSST, away from the poles, and CCD coordinates that do not wrap within a visit.)",
  ["inputs"], "every set of detections, visits and CCD polygons, including RA wrap-around",
  "tests use one visit file", [Mo + "PPVisitsFootprintFilter.py"], [("polygon lookup", "PPVisitsFootprintFilter")])
p("C20", "Distance, motion and discovery cuts act on whole objects as specified",
  "The distance cut keeps all rows of exactly those objects that are seen at least once within the distance limits; the motion cut keeps exactly the rows whose sky speed is within the motion limits, in their order. The Dark Energy Survey discovery cut keeps, ordered by time, exactly the detections of the objects seen on at least nine nights, or on at least seven nights and on an arc longer than half a year even without its first or its last night (0.7 d) and on three nights with both gaps below 60 d, or below 90 d for an object never seen within 50 au of the Sun. A night is counted for a detection with no earlier one within 0.4 d. Values of kept rows are unchanged.",
  ["inputs", "configurations"], "every table of detections, limits at and around every boundary", "tests use one table per cut",
  [Mo + "PPDistanceandMotionCuts.py", Mo + "DESDiscoveryFilter.py"], [("object cuts", "PPDistanceandMotionCuts"), ("discovery criteria", "DESDiscoveryFilter")])
p("C21", "Every detection is matched to its own pointing and to no other",
  "Reading the pointing database returns exactly the pointings in the observing filters with their visit times, and matching attaches to each detection the attributes of the pointing it belongs to: no detection is duplicated, lost or paired with another pointing, unless its pointing is not in the selected filters, in which case it is dropped. Ephemerides whose times disagree with their pointings by more than a day stop the run, as do an unknown survey, a query that fails, a database without any pointing in the observing filters, and, for the Dark Energy Survey's fading function, pointings without its c and k parameters.",
  ["inputs"], "every pointing table and ephemeris, in any order", "tests use one small pointing database",
  [Mo + "PPMatchPointingToObservations.py", Mo + "PPReadPointingDatabase.py"], [("join on field", "PPMatchPointingToObservations"), ("query and filter", "PPReadPointingDatabase")])
p("C22", "Output files hold exactly the selected columns and every surviving row",
  "The output contains every surviving detection exactly once, in order, with the columns of the selected format (basic, all, or a custom list), where each value equals the simulated one up to the configured rounding and nothing else is altered. Writing in several chunks gives the same file as writing once. A custom list naming an unknown column is refused. The statistics hold, for each object and filter in which it has detections, their number and the true minimum, maximum and median of their trailed-source magnitudes and extremes of their phase angles (and linking date and flag when linking is on).",
  ["inputs", "configurations", "histories"], "every table, column format, rounding setting (zero included) and split into chunks",
  "tests write one small table once", [Mo + "PPOutput.py", Mo + "PPStats.py"], [("writer", "PPWriteOutput, PPOutWriteCSV"), ("statistics", "stats")])
p("C23", "Faint-object culling never drops an object that could be detected",
  "An object is culled before ephemeris generation only if, at its best possible geometry (perihelion, opposition) and in every observing filter, it is still more than two magnitudes fainter than the deepest limiting depth in the pointings of that filter; objects that can come within 2 au are never culled, nothing is culled when a chosen light-curve or activity model does not bound the brightness it adds, and surviving objects' rows are unchanged.",
  ["inputs", "configurations"], "every orbit format, H, colour set and pointing table", "tests cull one small table",
  [Mo + "PPFaintObjectCullingFilter.py"], [("best-case magnitude", "PPFaintObjectCullingFilter")])
p("C24", "Ephemeris geometry transforms are exact and mutually consistent",
  "Converting a sky position to a unit vector and back is the identity, the tangent-plane basis vectors are orthonormal and point east and north, and ecliptic and equatorial rotations are inverse isometries. Light-time correction yields the object's state at the time the light left it, to within the iteration's convergence. The range, range rate, sky position, sky rates (with the first-order light-time factor), phase angle and heliocentric states reported for a detection are those of that object as seen by the observer at the time of that pointing, in the documented units. Each candidate is reported exactly once per pointing whose field of view plus buffer contains it, and not otherwise. The observer's position and velocity are the Earth's plus those of the observatory's fixed site rotated to that epoch, for every observatory with a fixed position.",
  ["inputs"], "every sky position, state vector, observatory and time", "tests compare a few positions",
  [S + "ephemeris/simulation_geometry.py", S + "ephemeris/simulation_driver.py", S + "ephemeris/simulation_parsing.py", S + "ephemeris/simulation_setup.py"],
  [("vectors", "ra_dec2vec, vec2ra_dec, get_residual_vectors, ecliptic_to_equatorial"), ("light time", "integrate_light_time"), ("rates", "calculate_rates_and_geometry"),
   ("reporting", "create_ephemeris"), ("observer", "barycentricObservatoryRates, Observatory, precompute_pointing_information")])
p("C25", "The sky-position cache always brackets the requested time",
  "After any sequence of requests, forward or backward in time, the three cached epochs are equally spaced by the caching interval and the requested time lies within half an interval of the middle one, with the positions computed for exactly those epochs; every sky pixel an object occupies or passes through, and all its neighbours, are registered for that object, so no candidate is lost.",
  ["histories", "inputs"], "every sequence of requested times and every object track", "tests step forward through one pointing list",
  [S + "ephemeris/pixel_dict.py"], [("bracketing", "PixelDict.update_pickets"), ("pixel registration", "PixelDict.compute_pixel_traversed, get_designations")],
  [{"name": "t0, tm, tp", "meaning": "cached epochs", "where": "PixelDict"}])
p("C26", "Orbital-element conversions preserve the physical orbit",
  "Keplerian, cometary and Cartesian descriptions of one and the same orbit, heliocentric or barycentric, give the same barycentric state at epoch, for elliptic, parabolic and hyperbolic orbits: perihelion, semi-major axis and time of perihelion passage are related by the two-body laws, and converting a state to elements and back returns it. The perihelion distance used for an object is that of its own orbit in every format.",
  ["inputs"], "every valid orbit of every format", "tests convert one or two orbits per format",
  [S + "ephemeris/simulation_parsing.py", S + "ephemeris/orbit_conversion_utilities.py"], [("element parsing", "parse_orbit_row, get_perihelion_row"), ("two-body conversions", "universal_cartesian, universal_cometary, universal_keplerian")])
p("C27", "Combining run outputs neither loses nor duplicates results",
  "Building a results database from output files puts every row of every input file into it exactly once with its values unchanged, never treats the output database itself as an input, and stores parameter tables completely; checking a set of log files reports as incomplete exactly those runs whose log does not end with the completion message, empty logs included, and an existing report is only overwritten on request.",
  ["inputs", "histories"], "every set of result and log files, including empty ones and re-runs", "tests combine one fixed set",
  [S + "utilities/createResultsSQLDatabase.py", S + "utilities/check_output_logs.py"], [("merge", "create_results_database, create_results_table"), ("log check", "find_all_log_files, check_all_logs")])
p("C28", "Plug-in light-curve and activity models are selected by unique name",
  "Every registered light-curve or activity model is selectable by exactly its own name and is the one then applied to the detections; building a registry with two models of the same name is refused, and models added later never replace a registered one. Add-on models are registered before the configuration is checked, which refuses a name that is not registered and a model without a complex physical parameters file. A model whose required input columns are missing stops the run, and the identity models leave the detections unchanged.",
  ["histories", "configurations"], "every sequence of registrations", "tests register one model",
  [S + "activity/activity_registration.py", S + "lightcurves/lightcurve_registration.py", S + "activity/base_activity.py", S + "lightcurves/base_lightcurve.py"],
  [("registry", "register_activity_subclasses, register_lc_subclasses")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
