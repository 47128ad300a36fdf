"""level_note of every claimed check."""
NOTES_BY_ID = {
    "C01": "All paths of the linking code for <=4 detections of <=2 objects (see evidence bounds), times/positions symbolic in integers of nights and within-night offsets; numba bodies executed as Python; trusted: haversine math, numba.",
    "C02": "<=3 detections, every magnitude, limit, width, peak and draw; exp axiomatised (monotone, positive); trusted: random generator delivers values in [0,1).",
    "C03": "<=3 detections, every value, limit and filter mix; real arithmetic.",
    "C04": "<=2-3 detections, every position, centre, radius, fill factor and draw, repeated row labels; trusted: SkyCoord separation is the great-circle distance.",
    "C05": "<=2 detections, <=2 convex quadrilateral detectors from several shape families with symbolic size/position, concrete angle grids with symbolic perturbations for the projection; real arithmetic.",
    "C08": "<=2 detections, every rate, declination, exposure and seeing.",
    "C09": "<=2 detections; table nodes from the code, every distance in the field.",
    "C10": "<=2 detections; exp/log axiomatised; every magnitude, depth and seeing.",
    "C11": "<=2 detections; every draw within +-6 sigma, every true value; coordinate conversion over all sky except within the stated polar margin.",
    "C12": "catalogues of <=3-4 objects, every chunk size, listed orders, CSV/whitespace/HDF5, symbolic cell values; files are really written and parsed by pandas.",
    "C13": "<=2 detections x <=3 visits, every identifier assignment, filter and value; sqlite trusted.",
    "C15": "<=3 objects, every real element value, six formats, every single missing/extra/renamed column.",
    "C06": "<=2 orbits, <=2 filters (with/without visits), every element value, magnitude, colour and depth; orbit conversion stubbed by its contract (C18).",
    "C07": "<=2 detections, every magnitude, colour, geometry and phase parameter, all phase functions; log10/exp axiomatised; sbpy replaced by a recorder.",
    "C16": "<=3 visits in any order, symbolic times and snapshot interval; healpy and integrator replaced by recorders that stamp their own time.",
    "C17": "Every position/velocity vector (directions from concrete grids where trigonometric inverses are needed); real arithmetic.",
    "C19": "Every trajectory (uninterpreted position function of time) for the code's number of iterations; integrator replaced by a recorder; real arithmetic.",
    "C20": "<=2 visits, <=3 objects, every direction, radius and buffer, identifier styles; ASSIST/REBOUND/SPICE/healpy replaced by recorders.",
    "C25": "<=3 modules, every base seed, every request order; numpy generator replaced by a recorder, sha256 executed concretely on the names.",
    "C14": "Every numeric key with every value (number, nan or text), every combination of present/missing/conflicting keys in the listed groups, on the real ConfigParser and dataclasses; value ranges taken from the documentation.",
    "C18": "Every element set and state of the stated shapes (orientations of the inverse on concrete grids); sin/cos/sinh/sqrt/atan2 axiomatised, the root of Kepler's equation assumed converged (its residual is what the contract bounds); real arithmetic.",
    "C21": "<=3 chunks of <=2 detections, every cell value, decimals 0-9 or unset, all column settings, three formats; files are really written by pandas/h5py/sqlite3 and read back (trusted).",
    "C22": "<=4 detections in <=2 chunks, <=3 objects, 2 filters, every value; pandas aggregates replaced by their definitions while symbolic.",
    "C23": "<=3 objects x <=2 rows, chunk sizes 1-4, every on/off combination in overlapping groups, every value; the single steps are replaced by recorders with arbitrary verdicts (they are C01-C11, C21, C22).",
    "C24": "<=3 objects x <=2 rows, chunk sizes 1-4, every on/off combination in overlapping groups, every value; the single steps are replaced by recorders with arbitrary verdicts.",
    "C26": "1-10 detections on 1-9 nights, every gap and within-night time, every distance, two interleaved objects, several row orders; cuts on <=3 detections with every value and bound; numba bodies executed as Python while symbolic.",
    "C27": "The whole `sorcha run` command line over a file tree whose entries exist or not symbolically; names from a fixed set (dots, glob characters, similar names); simulation and configuration reader replaced by recorders.",
    "C28": "Every sky position around concrete camera layouts (grid, staggered DECam rows at declinations 0/-51/-65, rotated, wide) in fields near and away from RA 0; tables of <=3 detections of <=3 visits; kd-tree, polygon test and SQLite replaced by their contracts while symbolic, real on replay.",
    "C29": "Cache paths of every length 21-220 (symbolic length); result databases, input files and logs present or not in every combination of the stated places, every cell value, 7 kinds of log contents; files really written and read by sqlite/pandas (trusted); replays load the meta-kernel with the real SPICE toolkit.",
 "C32": "Every file role alone and with its neighbour, every combination of given/omitted name and URL, present in the cache or not; bootstrap over subsets of three files; the download is a recorder that writes its source, pooch and gzip are real; masses symbolic.",
 "C33": "Every menu answer (symbolic integer, or text), every subset of files present, forced or not; symbolic exit status of a verb, argument lists of up to 3; real copies in scratch directories.",
 "C34": "Up to three user models with every equality pattern of names next to registered ones; every subset of three required columns; symbolic magnitudes and model outputs for tables of two rows.",
 "C35": "Every numeric setting with every value through the real configuration reader and the real logging; present/absent combinations within groups of settings; names and words from fixed sets with similar members; seeds of every value; log files really written.",
}
