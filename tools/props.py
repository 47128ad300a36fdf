"""Single source for /verif/properties.jsonl (run tools/mkmeta.py)."""

M = "src/sorcha/modules/"
EPH = "src/sorcha/ephemeris/"
RD = "src/sorcha/readers/"
UT = "src/sorcha/utilities/"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(
        dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)
    )


prop(
    "C01",
    "SSP linking: exactly the linkable objects are linked, on the right night",
    "With a linking efficiency of one, an object is reported as linked exactly when, inside some run of at most the configured number of consecutive nights, it has at least the configured number of nights each holding a valid tracklet (a pair of detections spanning at least the minimum number of detections in time order, separated by more than the threshold and by a non-zero time below the configured maximum). Its discovery date is the night on which that first becomes true, and the verdict for one object depends neither on the other objects in the table nor on the order of the rows. Unlinked objects are removed or merely flagged as configured, and no detection of a linked object is lost, duplicated or altered.",
    ["inputs", "configurations"],
    "every assignment of times, positions, object interleaving and filter settings, within the stated number of detections",
    "the linking tests use a few fixed tables; whether every time/position pattern around the window, tracklet-length and separation boundaries is judged correctly is a quantification over all of them",
    [M + "PPLinkingFilter.py", M + "PPMiniDifi.py"],
    [("tracklet test", M + "PPMiniDifi.py:hasTracklet"), ("window count", M + "PPMiniDifi.py:discoveryOpportunities"),
     ("per-object grouping", M + "PPMiniDifi.py:linkObservations"), ("unit conversion and drop", M + "PPLinkingFilter.py")],
)
prop(
    "C02",
    "Fading function: detection survives iff its efficiency reaches its random draw",
    "For every detection the detection probability equals peak/(1+exp((m-m5)/w)) with m the PSF magnitude, m5 the five-sigma limiting magnitude at the source (the per-chip limit where one is provided) and w the width; it lies between 0 and the peak and never increases as the source gets fainter. A detection is kept exactly when its uniform random draw does not exceed that probability, each detection uses its own draw, and kept detections come out unmodified and in order. The DES efficiency is c/(1+exp(k(m-mlim))) with that exposure's own parameters and is applied in the same way.",
    ["inputs"],
    "every magnitude, limit, width, peak efficiency and random draw",
    "unit tests compare a handful of magnitudes and one seed; they cannot cover all draws and parameters",
    [M + "PPDetectionProbability.py", M + "PPDropObservations.py", M + "PPFadingFunctionFilter.py", M + "DESDetectionProbability.py", M + "DESFadingFunctionFilter.py"],
    [("efficiency", M + "PPDetectionProbability.py"), ("drop", M + "PPDropObservations.py"), ("DES variant", M + "DESFadingFunctionFilter.py")],
)
prop(
    "C03",
    "Brightness cuts keep exactly the detections on the right side of the limit",
    "The SNR cut keeps exactly the detections whose signal-to-noise ratio exceeds the limit; the magnitude cut keeps exactly those whose trailed-source magnitude is brighter than the limit; the saturation cut removes exactly those whose PSF magnitude is brighter than the saturation limit of their own filter, whether one limit or one per filter is configured. Detections that survive keep every value and their relative order.",
    ["inputs"],
    "every table of magnitudes, SNRs and filters and every limit, within the stated number of rows",
    "tests use single fixed tables; boundary equality, filter/limit pairing and arbitrary row labels are not covered",
    [M + "PPSNRLimit.py", M + "PPMagnitudeLimit.py", M + "PPBrightLimit.py"],
    [("SNR cut", M + "PPSNRLimit.py"), ("magnitude cut", M + "PPMagnitudeLimit.py"), ("saturation cut", M + "PPBrightLimit.py")],
)
prop(
    "C04",
    "Circular field of view keeps what lies inside the radius, thinned by fill factor",
    "With the circular camera model a detection survives the geometric cut exactly when its angular distance from the pointing centre is below the configured radius. If a fill factor is configured, each detection inside is independently kept exactly when its own uniform draw does not exceed the fill factor, so a factor of one keeps everything; survivors are unmodified and in order.",
    ["inputs", "configurations"],
    "every set of positions, pointing centres, radii, fill factors, random draws and row labels, within the stated row bound",
    "tests sample one seed and a few points",
    [M + "PPApplyFOVFilter.py"],
    [("circle", M + "PPApplyFOVFilter.py:PPCircleFootprint"), ("fill factor", M + "PPApplyFOVFilter.py:PPSimpleSensorArea"), ("dispatch", M + "PPApplyFOVFilter.py:PPApplyFOVFilter")],
)
prop(
    "C05",
    "Camera footprint: kept iff on a detector, labelled with that detector",
    "With the full-footprint camera model a detection survives exactly when its focal-plane position, obtained from the tangent-plane projection about the pointing centre rotated by the field rotation angle, lies inside the corner polygon of some detector (up to the code's area tolerance of 1e-11 sr, and, when an edge threshold is given, farther than that many arcseconds from its every edge). The detector recorded for it is the position in the camera file of the one that contains it, a detection on one detector appears once, and its other values are untouched.",
    ["inputs", "configurations"],
    "every focal-plane position, every convex quadrilateral detector, every pointing centre, rotation and edge threshold within the stated bounds",
    "the tests push one sample of points through one camera; boundary and arbitrary-detector behaviour is not reached",
    [M + "PPFootprintFilter.py", M + "PPApplyFOVFilter.py"],
    [("point in polygon", M + "PPFootprintFilter.py:Detector.ison"), ("edge threshold", M + "PPFootprintFilter.py:Detector.trueEdges"), ("projection", M + "PPFootprintFilter.py:radec_to_focal_plane"), ("assignment", M + "PPFootprintFilter.py:Footprint.applyFootprint")],
)
prop(
    "C06",
    "Faint-object culling never discards an object that could be detected",
    "An object is discarded before ephemeris generation only if its perihelion is at least 2 au and, in every observing filter, its brightest conceivable apparent magnitude over its orbit (computed from its absolute magnitude, colour and closest possible approach) is fainter than the deepest five-sigma depth of that filter plus the safety margin of two magnitudes. With light-curve or activity models configured, the brightest value the model can give takes the place of the bare magnitude. Culling never alters a surviving row's values and never fails because some filter has no visits.",
    ["inputs", "configurations"],
    "every orbit (all element formats), absolute magnitude, colours and survey depths",
    "tests check one object; soundness of a pruning rule is a universal statement",
    [M + "PPFaintObjectCullingFilter.py", EPH + "orbit_conversion_utilities.py"],
    [("culling rule", M + "PPFaintObjectCullingFilter.py"), ("perihelion and eccentricity", EPH + "simulation_parsing.py")],
)
prop(
    "C07",
    "Apparent magnitude: right filter, right colour, right distance and phase law",
    "The true trailed-source magnitude of every detection equals H in the main filter plus the object's colour for that detection's own filter plus 5 log10(r Delta) with distances in au plus the phase-function term evaluated at that detection's phase angle with that filter's (or the global) phase parameters, plus any light-curve shift; with cometary activity the configured model receives exactly this magnitude and geometry and its result is reported. Each detection uses its own filter's colour and parameters, the catalogued H is reported as H_filter plus colour, and no row is lost, reordered or mixed with another.",
    ["inputs", "configurations"],
    "every absolute magnitude, colour set, geometry, phase function, and mix of filters within the stated row bound",
    "tests compare a few hand-computed numbers; mixing up rows, filters, units or phase parameters for particular combinations escapes them",
    [M + "PPCalculateApparentMagnitude.py", M + "PPCalculateApparentMagnitudeInFilter.py", M + "PPApplyColourOffsets.py", M + "PPGetMainFilterAndColourOffsets.py", M + "PPCalculateSimpleCometaryMagnitude.py"],
    [("colour offsets", M + "PPApplyColourOffsets.py"), ("geometry and phase", M + "PPCalculateApparentMagnitudeInFilter.py"), ("orchestration", M + "PPCalculateApparentMagnitude.py")],
)
prop(
    "C08",
    "Trailing losses follow the published model, never brighten, vanish at rest",
    "For on-sky motion v in deg/day (the root sum square of the RA*cos(Dec) and Dec rates), exposure time T in seconds and seeing s in arcsec, with x = v T/(24 s), the loss is 1.25 log10(1+a x^2/(1+b x)) with (a,b)=(0.761,1.162) for the photometric (trailed-source) loss and (0.420,0.003) for the detection (PSF) loss. It is never negative, is zero for a stationary source, and each detection uses its own rates, exposure and seeing.",
    ["inputs"],
    "every rate, declination, exposure time and seeing",
    "tests check a couple of numeric values; unit and sign errors for other geometry pass",
    [M + "PPTrailingLoss.py"],
    [("loss formula", M + "PPTrailingLoss.py:calcTrailingLoss"), ("table wrapper", M + "PPTrailingLoss.py:PPTrailingLoss")],
)
prop(
    "C09",
    "Vignetting only makes the depth shallower, by distance from the field centre",
    "The five-sigma depth at a source equals the field's depth minus a vignetting loss that depends only on the great-circle distance between that source and its own pointing centre. The loss is never negative, is negligible at the centre, never decreases with distance and is the tabulated LSST curve linearly interpolated between its nodes, so the depth at the source never exceeds the depth of the field.",
    ["inputs"],
    "every source and pointing position and field depth",
    "tests check a few sample points",
    [M + "PPVignetting.py"],
    [("table interpolation", M + "PPVignetting.py:vignetteFactor"), ("distance", M + "PPVignetting.py:haversine / calcVignettingLosses")],
)
prop(
    "C10",
    "Photometric and astrometric uncertainties follow the LSST error model",
    "With x = 10^(0.4(m-m5)) and gamma = 0.039 the SNR is 1/sqrt((0.04-gamma) x + gamma x^2) and the magnitude uncertainty is 2.5 log10(1+1/SNR); the astrometric uncertainty is the root sum square of the 10 mas floor and 0.6 FWHM/SNR, given in degrees, hence never below the floor and never decreasing as the source gets fainter. The trailed-source uncertainty uses the magnitude including the photometric trailing loss when trailing losses are on, the PSF uncertainty uses the PSF magnitude, and both use the depth at the source and the detection's own geometric seeing.",
    ["inputs", "configurations"],
    "every magnitude, depth, seeing, rate and both settings of trailing losses",
    "tests compare a few sampled values with tolerances",
    [M + "PPAddUncertainties.py"],
    [("SNR", M + "PPAddUncertainties.py:calcPhotometricUncertainty/calcRandomAstrometricErrorPerCoord"), ("table wrapper", M + "PPAddUncertainties.py:addUncertainties")],
)
prop(
    "C11",
    "Randomisation adds sigma-scaled draws to measurements and keeps the truth",
    "Measured magnitudes equal the true magnitude plus the detection's own uncertainty times its own standard normal draw, and measured sky positions are the true unit vector displaced by the astrometric uncertainty times normal draws and renormalised, always giving RA in [0,360) and Dec in [-90,90]. True position and magnitudes are retained unmodified, each kind of measurement uses independent draws (except that trailed and PSF magnitude coincide when trailing losses are off), and exactly the detections with a PSF SNR above two survive when the default SNR cut is on, all of them when it is off.",
    ["inputs", "configurations"],
    "every true value, uncertainty and random draw",
    "statistical tests with one seed cannot tell scaled/unscaled, shared or swapped draws in every configuration",
    [M + "PPRandomizeMeasurements.py", M + "PPAddUncertainties.py"],
    [("photometry", M + "PPRandomizeMeasurements.py:randomizePhotometry"), ("astrometry", M + "PPRandomizeMeasurements.py:randomizeAstrometry"), ("coordinates", M + "PPRandomizeMeasurements.py:radec2icrf/icrf2radec"), ("default SNR cut", M + "PPAddUncertainties.py / PPRandomizeMeasurements.py")],
)
prop(
    "C12",
    "Chunked reading delivers every object exactly once with its own data",
    "For every chunk size and every catalogue, processing the objects chunk by chunk delivers each object's orbit, physical parameters, optional extra parameters and external ephemeris rows exactly once, joined by object identifier and independent of the order in which each file lists the objects, with a final partial chunk neither lost nor repeated. Catalogues whose identifier sets differ are rejected before any processing, and this holds for CSV, whitespace and HDF5 inputs, with or without cached tables and comment lines before the header.",
    ["inputs", "configurations"],
    "every chunk size and every file length and ordering within the stated bounds",
    "the tests read a few fixed blocks from fixed files; off-by-one at arbitrary block boundaries and orderings needs all sizes",
    [RD + "CombinedDataReader.py", RD + "CSVReader.py", RD + "HDF5Reader.py", RD + "ObjectDataReader.py", RD + "EphemerisReader.py", RD + "DatabaseReader.py", RD + "OrbitAuxReader.py"],
    [("block arithmetic", RD + "CombinedDataReader.py:read_block/read_aux_block"), ("row skipping", RD + "CSVReader.py"), ("id check", RD + "CombinedDataReader.py:check_aux_object_ids")],
)
prop(
    "C13",
    "Every detection carries the pointing data of its own visit",
    "After joining, each detection carries exactly the pointing values (filter, seeing, depth, centre, rotation, exposure) of the visit whose identifier it has; detections of visits not in the selected filters are dropped, none is duplicated or given another visit's values, and a detection whose time differs from its visit's start by more than the matching tolerance (relative 1e-5, about 0.6 day) stops the run. The pointing reader keeps exactly the visits in the configured observing filters, with mid-exposure time half a visit (DES: exposure) time after the exposure start.",
    ["inputs", "configurations"],
    "every detection table and pointing table within the stated number of rows",
    "tests join small fixed files",
    [M + "PPMatchPointingToObservations.py", M + "PPReadPointingDatabase.py"],
    [("join", M + "PPMatchPointingToObservations.py"), ("pointing reader", M + "PPReadPointingDatabase.py")],
)
prop(
    "C14",
    "Configuration values outside their documented range are always rejected",
    "Every numeric configuration value is accepted exactly when it lies in its documented range and is then stored as the number given; anything else stops the run with an error message and non-zero exit rather than continuing. Mutually exclusive options and all-or-nothing groups (linking parameters, fading function parameters, distance and motion cuts, SNR versus magnitude limit, camera-model specific keys, survey-specific features) are enforced for every combination.",
    ["configurations"],
    "every value of each numeric key and every combination of present/absent keys in a group",
    "tests try one or two bad values per key",
    [UT + "sorchaConfigs.py"],
    [("validators", UT + "sorchaConfigs.py:_validate_*")],
)
prop(
    "C15",
    "Unphysical or inconsistent orbits are rejected, valid ones pass unchanged",
    "An orbit table (the block of it that is read) is accepted exactly when it carries one single declared format with the required elements of that format, and, for Keplerian formats, every eccentricity is in [0,1) with a non-negative semi-major axis, or, for cometary formats, every eccentricity and perihelion distance is non-negative. Rejection stops the run; acceptance returns the elements of every object unaltered and in order.",
    ["inputs"],
    "every value of the elements and position of the offending row within the stated number of rows",
    "tests include one bad row each",
    [RD + "OrbitAuxReader.py"],
    [("validation", RD + "OrbitAuxReader.py:_process_and_validate_input_table")],
)
prop(
    "C16",
    "The sky-tile search always uses the ephemeris snapshots that bracket the visit",
    "For any sequence of visit times, in any order, candidates for a visit are looked up from object directions at three equally spaced snapshot times whose middle one is within half a snapshot interval of the visit, each snapshot holding the directions seen from the observatory at its own time. An object is a candidate exactly when a tile it crosses between those snapshots, or a neighbour of one, is searched. Interpolated candidate positions use exactly those snapshots, with the weights that reproduce each snapshot at its own time.",
    ["histories", "inputs"],
    "every visit-time history of the stated length, including non-monotonic ones, and every start time",
    "no test drives the snapshot cache at all; it only goes wrong for particular orders of visit times",
    [EPH + "pixel_dict.py"],
    [("window shift", EPH + "pixel_dict.py:update_pickets"), ("interpolation", EPH + "pixel_dict.py:lagrange3"), ("tile lookup", EPH + "pixel_dict.py:get_designations")],
)
prop(
    "C17",
    "Rates and viewing geometry are the true derivatives and angles of the vectors",
    "The reported RA*cos(Dec) and Dec rates equal the on-sky derivative of the topocentric direction (in deg/day), to first order in v/c (the light-time change along the line of sight applied to the object's velocity), the range is the norm of the topocentric vector and the range rate the line-of-sight component of the object's velocity relative to the observer (km and km/s), and the phase angle is the Sun-object-observer angle. RA/Dec conversion and its inverse agree, the local north/east directions are orthonormal to the line of sight, and the ecliptic/equatorial rotations are inverse isometries; all output distances and velocities are the input vectors in km and km/s.",
    ["inputs"],
    "every position and velocity vector",
    "tests compare a few vectors",
    [EPH + "simulation_geometry.py", EPH + "simulation_driver.py"],
    [("rates", EPH + "simulation_driver.py:calculate_rates_and_geometry"), ("tangent vectors", EPH + "simulation_driver.py:get_residual_vectors"), ("rotations", EPH + "simulation_geometry.py")],
)
prop(
    "C18",
    "Each orbit format is converted with its own origin, mass parameter and elements",
    "Cartesian, Keplerian and cometary elements, heliocentric or barycentric, are turned into the barycentric equatorial state they describe: heliocentric formats use the solar gravitational parameter and are shifted by the Sun's state exactly once, barycentric formats use the total mass and are not shifted, and every element lands in its own argument with angles in radians and epochs in Julian Date. Keplerian elements are converted to q = a(1-e) and the time of perihelion consistent with the mean anomaly.",
    ["inputs", "configurations"],
    "every value of the elements, every format",
    "tests use one orbit per format and tolerances; a swapped angle or wrong origin for one format with particular values passes",
    [EPH + "simulation_parsing.py", EPH + "orbit_conversion_utilities.py", EPH + "simulation_geometry.py"],
    [("dispatch", EPH + "simulation_parsing.py:parse_orbit_row"), ("perihelion row", EPH + "simulation_parsing.py / PPFaintObjectCullingFilter"), ("propagation", EPH + "orbit_conversion_utilities.py")],
)
prop(
    "C19",
    "Light-time correction puts the object at emission time",
    "The reported topocentric vector is the object's barycentric position at the observation time minus the light time, minus the observer's position at the observation time, where light time is range over c after the fixed number of iterations; the velocity and object state reported are those at that same emission time. The correction converges: the residual light-time error is bounded by the last iteration's change times v/c.",
    ["inputs"],
    "every object trajectory, observer position and observation time",
    "never unit tested against arbitrary trajectories; a stale light time changes positions by arcseconds only",
    [EPH + "simulation_driver.py", EPH + "simulation_geometry.py"],
    [("iteration", EPH + "simulation_geometry.py:integrate_light_time")],
)
prop(
    "C20",
    "Every in-field object-visit pair yields one correct ephemeris row, and no others",
    "For each visit, every object whose interpolated and light-time-corrected directions both lie within the search radius (field radius plus buffer) of the pointing centre gives exactly one row, carrying that object's identifier, parameters and that visit's identifier, times, observer state and geometry; other objects give none. Each visit's observer and Sun states are those of its own time and observatory site, each object starts its integration from its own orbit at its own epoch, and an orbit whose conversion fails is refused.",
    ["inputs", "histories"],
    "every set of object directions, pointing centres and radii within the stated number of objects and visits",
    "the ephemeris loop is only run once end-to-end on a demo file; selection boundaries and per-object bookkeeping are not examined",
    [EPH + "simulation_driver.py", EPH + "simulation_setup.py"],
    [("main loop", EPH + "simulation_driver.py:create_ephemeris"), ("simulation set-up", EPH + "simulation_setup.py:generate_simulations"), ("pointing pre-computation", EPH + "simulation_setup.py:precompute_pointing_information")],
)
prop(
    "C21",
    "Output files hold exactly the surviving detections with the configured columns",
    "The output contains one row per surviving detection, in order, with exactly the configured column set, and values equal to the internal ones except that positions and magnitudes are rounded to the configured number of decimals (including zero). Writing chunk after chunk gives the concatenation of the chunks with a single header, in each supported format, and the derived distance to the Sun is the norm of the object-Sun vector.",
    ["inputs", "configurations", "histories"],
    "every table, decimals setting, column setting and chunk sequence within the stated bounds",
    "tests write one fixed table per format",
    [M + "PPOutput.py"],
    [("column selection and rounding", M + "PPOutput.py:PPWriteOutput"), ("append", M + "PPOutput.py:PPOutWriteCSV/PPOutWriteHDF5/PPOutWriteSqlite3")],
)
prop(
    "C22",
    "Summary statistics are those of each object in each filter",
    "For every object and filter the statistics file holds the number of detections and the minimum, maximum and median apparent magnitude and phase angle of exactly that object's detections in that filter, and the linking information (date and flag) that object really has, one row per combination that occurs. Writing several chunks appends their rows under one header.",
    ["inputs", "configurations"],
    "every detection table within the stated number of rows",
    "one fixed table in the tests",
    [M + "PPStats.py"],
    [("grouping", M + "PPStats.py:stats")],
)
prop(
    "C23",
    "A Rubin run applies each configured bias once, in order, with its settings",
    "A Rubin run reports a potential detection exactly when it passes every enabled step (field of view, SNR or magnitude limit, fading function, saturation limit, linking) and no disabled one, each evaluated with the configured parameters and on the trailing-loss, vignetting and randomisation corrected quantities. Each chunk is treated alike and independently, empty chunks are skipped without ending or corrupting the run, and returning results in memory gives what would be written.",
    ["configurations", "inputs", "histories"],
    "every on/off combination of the steps and symbolic detection values, within the stated chunks and rows",
    "the end-to-end tests exercise one or two configurations; the driver itself is a quarter covered",
    ["src/sorcha/sorcha.py"],
    [("main loop", "src/sorcha/sorcha.py:runLSSTSimulation")],
)
prop(
    "C24",
    "A DES run applies each configured bias once, in order, with its settings",
    "A DES run reports a potential detection exactly when it passes every enabled step (field of view, SNR or magnitude limit, DES fading function, saturation limit, distance cut, motion cut, DES discovery) and no disabled one, each evaluated with the configured parameters. Each chunk is treated alike and independently, empty chunks are skipped, and returning results in memory gives what would be written.",
    ["configurations", "inputs", "histories"],
    "every on/off combination of the steps and symbolic detection values, within the stated chunks and rows",
    "the driver is not exercised by the unit tests beyond one demo",
    ["src/sorcha/des.py"],
    [("main loop", "src/sorcha/des.py:runDESSimulation")],
)
prop(
    "C25",
    "Random streams are reproducible per module and independent of one another",
    "For every base seed, a module's random stream is a function of the seed and that module's name only: it does not depend on which other modules exist, on the order of first use, or on process hash randomisation; asking again for the same module continues the same stream. Every derived seed is in the generator's legal range for every base seed, and two modules share a stream only if their names hash to the same value.",
    ["inputs", "histories"],
    "every base seed and every interleaving of requests, within the stated number of modules",
    "tests look at one seed",
    [UT + "sorchaModuleRNG.py"],
    [("derivation", UT + "sorchaModuleRNG.py:PerModuleRNG.getModuleRNG")],
)
prop(
    "C26",
    "DES discovery follows the published criteria for every detection history",
    "A DES object is kept exactly when its detections meet the discovery criteria on the number of unique nights, the arc remaining after removing any single night and the existence of a triplet of nights close enough for its distance, and all detections of a kept object are kept. The distance cut keeps exactly the objects having a detection with heliocentric distance inside the configured bounds with all their detections, and the motion cut keeps exactly the detections whose own rate of motion is inside the configured bounds; verdicts are independent of row order and of other objects.",
    ["inputs", "configurations"],
    "every detection history within the stated number of detections, and every bound",
    "tests use a few fixed histories",
    [M + "DESDiscoveryFilter.py", M + "PPDistanceandMotionCuts.py"],
    [("criteria", M + "DESDiscoveryFilter.py"), ("cuts", M + "PPDistanceandMotionCuts.py")],
)
prop(
    "C27",
    "Existing results are never overwritten or deleted unless forced",
    "A run whose output, statistics or generated ephemeris file already exists stops before computing anything unless forcing is requested, and when forced removes only files belonging to that output stem. Missing input files, directories or inconsistent command-line choices are reported with a non-zero exit before processing for every combination of arguments.",
    ["configurations", "fault_sequences"],
    "every combination of existing files and command line flags in the stated set",
    "tests try a few combinations",
    [UT + "fileAccessUtils.py", UT + "sorchaArguments.py", UT + "sorchaCommandLineParser.py"],
    [("overwrite guard", UT + "sorchaCommandLineParser.py:warn_or_remove_file"), ("argument validation", UT + "sorchaArguments.py:validate_arguments")],
)
prop(
    "C28",
    "The visit-footprint filter keeps exactly sources on a CCD of their own visit",
    "With per-visit footprints (non-overlapping equal CCDs in the arrangements of real cameras) a detection survives exactly when its sky position lies inside the corner polygon of a CCD listed for its own visit, including visits straddling RA = 0 at any declination the camera layout supports, and it then carries that CCD's limiting magnitude; no detection is duplicated and its other values are unmodified.",
    ["inputs"],
    "every source position and CCD polygon within the stated number of rows and CCDs",
    "tests use one small database",
    [M + "PPVisitsFootprintFilter.py"],
    [("polygon test", M + "PPVisitsFootprintFilter.py")],
)
prop(
    "C29",
    "Results database and log audit report exactly the files they were given",
    "Combining results puts every row of every result database below the results directory (of the given stem) and of every input file of the inputs directory into the output exactly once, in the column of the same name, refuses missing or differently structured files and never reads its own output; the log audit calls a run successful exactly when its log ends with the completion message, lists every log once and overwrites no report unless forced. The SPICE meta-kernel is valid for every length of the cache path and leads to every kernel in order.",
    ["inputs"],
    "every path length, every log tail shape within the stated bounds",
    "tests use a few sample files",
    [UT + "createResultsSQLDatabase.py", UT + "check_output_logs.py", UT + "generate_meta_kernel.py"],
    [("merge", UT + "createResultsSQLDatabase.py"), ("audit", UT + "check_output_logs.py"), ("path splitting", UT + "generate_meta_kernel.py")],
)
prop(
    "C30",
    "Numerical orbit integration is accurate to the stated precision",
    "Positions produced by the N-body integration agree with the true solution of the equations of motion with all modelled perturbers to well below the astrometric uncertainty over the length of the survey.",
    ["inputs"],
    "every physical orbit and survey span",
    "tests compare single objects to stored values",
    [EPH + "simulation_driver.py", EPH + "simulation_setup.py"],
    [("integration", "assist / rebound C libraries")],
)
prop(
    "C31",
    "A killed run never leaves an output that looks complete",
    "If a run is killed at any moment, the files it leaves contain only whole chunks of detections or are recognisably incomplete, and re-running does not silently append to them.",
    ["crash_points"],
    "every crash point during output writing",
    "no test kills a run",
    [M + "PPOutput.py"],
    [("append mode writing", M + "PPOutput.py")],
)
prop(
    "C32",
    "Reference data files are the configured ones, never another file's content",
    "Every auxiliary file the ephemeris generator uses (planet and small-body ephemerides, SPICE kernels, observatory codes) is the configured one: taken from the given directory if present, otherwise fetched once from its own configured URL, and never stored under one file's name from another file's URL. Bootstrapping completes the cache, and renews or deletes existing files only when forced, whatever is missing.",
    ["inputs", "histories"],
    "every combination of configured names and URLs, and every subset of files present beforehand",
    "tests download nothing and look at one default configuration",
    [UT + "sorchaConfigs.py", UT + "retrieve_ephemeris_data_files.py", EPH + "simulation_setup.py", EPH + "simulation_data_files.py", "src/sorcha_cmdline/bootstrap.py"],
    [("names and URLs", UT + "sorchaConfigs.py:auxiliaryConfigs"), ("retriever", EPH + "simulation_data_files.py:make_retriever"), ("bootstrap", UT + "retrieve_ephemeris_data_files.py")],
)
prop(
    "C33",
    "Command dispatch and set-up copies do exactly what was asked for",
    "The sorcha command runs the named verb once with its arguments unchanged and ends with its exit status; sorcha init and sorcha demo prepare copy exactly the selected files, identical to the packaged ones, and neither overwrite nor remove any existing file unless forced. Wrong answers, unknown verbs and missing directories stop with a failure status and leave everything as it was.",
    ["inputs", "histories"],
    "every menu answer, every exit status and every subset of files present beforehand",
    "tests copy once into an empty directory",
    ["src/sorcha_cmdline/main.py", "src/sorcha_cmdline/init.py", "src/sorcha_cmdline/demo.py", "src/sorcha_cmdline/cite.py", UT + "sorcha_copy_configs.py", UT + "sorcha_copy_demo_files.py", UT + "sorcha_demo_command.py"],
    [("dispatch", "src/sorcha_cmdline/main.py"), ("copies", UT + "sorcha_copy_configs.py"), ("demo", UT + "sorcha_copy_demo_files.py")],
)
prop(
    "C34",
    "User-supplied light-curve and activity models are the ones applied",
    "Every light-curve or activity class is registered under its own name, also when defined after sorcha was imported; two classes of one name never replace each other silently at registration, the configuration accepts exactly registered names, and the run applies the configured model and no other. A table without a column the model requires is refused.",
    ["inputs", "histories"],
    "every pattern of names and order of definitions, every magnitude and every model output",
    "tests use the identity model only",
    ["src/sorcha/lightcurves/lightcurve_registration.py", "src/sorcha/lightcurves/base_lightcurve.py", "src/sorcha/activity/activity_registration.py", "src/sorcha/activity/base_activity.py", M + "PPCalculateApparentMagnitudeInFilter.py", UT + "sorchaConfigs.py"],
    [("registration", "src/sorcha/lightcurves/lightcurve_registration.py"), ("registration", "src/sorcha/activity/activity_registration.py"), ("required columns", "src/sorcha/activity/base_activity.py")],
)
prop(
    "C35",
    "The run log states the settings in force and keeps the configuration",
    "For every accepted configuration the log names each setting in force (files, filters, camera, limits, fading, linking, ephemeris generator, models, output, base seed) with its actual value and states no value for what is off, and logging never stops a run. It holds an exact copy of the configuration file, and the logged seed regenerates the run's random streams. Messages go to two files of this run only, errors to both.",
    ["inputs", "histories"],
    "every value and every combination of settings",
    "one golden file of one configuration",
    [UT + "sorchaConfigs.py", UT + "sorchaArguments.py", UT + "sorchaGetLogger.py", UT + "sorchaModuleRNG.py", "src/sorcha/sorcha.py", "src/sorcha/des.py"],
    [("stated settings", UT + "sorchaConfigs.py"), ("log files", UT + "sorchaGetLogger.py"), ("seed", UT + "sorchaModuleRNG.py")],
)
