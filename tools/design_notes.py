"""What each check compares the code with (oracle) and what a test suite cannot reach; used by mkdesign.py."""
O = {
"C01": ("An independent definition of SSP discovery written over the symbolic times and positions: a night counts when its detections hold at least `min_tracklets` observations within `maxtime` hours and some pair moving more than `min_angular_separation`; the object is linked on the first night that ends a window of `tracklet_interval` nights holding enough tracklets; unlinked rows are dropped or flagged, nothing else changes. Nights come from the configured night boundary.",
        "histories: number of nights, ties and boundary times are symbolic; `crowded_night` covers pairs any number of detections apart."),
"C02": ("Survival iff efficiency >= draw for every draw in [0,1); efficiency between 0 and the peak, monotone in magnitude, half the peak at the depth; computed from the per-detection depth/magnitude columns asked for, with trailing losses when present. DES: the per-exposure c, k, m50 of the row's own exposure.", "every draw, magnitude and depth at once, plus index-label permutations."),
"C03": ("Kept iff SNR >= limit / magnitude <= limit / magnitude >= saturation limit of its own filter, elementwise on the original rows.", "equality at the limit, filter lists in another order than the data."),
"C04": ("Kept iff great-circle distance to the visit centre <= radius; with fill factor iff its own draw <= fill factor.", "repeated labels, limits 0 and 1, pole and RA wrap."),
"C05": ("Gnomonic projection about the visit centre and rotation compared with an exact rational construction; inside iff on the left of every edge of the convex detector; with edge threshold iff distance to every edge exceeds it; the label is the detector whose outline contains the point.", "every point of the focal plane and every rotation of the grid; built-in LSSTCam/DECam outlines."),
"C06": ("An independent lower bound on the brightest magnitude the object can ever have (perihelion distance, main filter + each colour, brightest light-curve/activity value): if that reaches the depth in any observing filter, the object must survive.", "soundness for every orbit, not just for the examples."),
"C07": ("H + colour of the row's own filter + 5 log10(r delta) + the phase law with the object's own parameters, then the light-curve and activity contributions; true magnitude kept; header colours validated.", "filter order, missing parameters, all four phase functions, symbolic geometry."),
"C08": ("The published trailing-loss formulas for PSF and SNR trailing (squares compared, sqrt/log axiomatised), >= 0, 0 at rest, monotone in rate and exposure.", "every rate."),
"C09": ("A piecewise-linear table of the code itself: non-negative, non-decreasing with field distance, zero at the centre, and applied to the row's own distance; haversine equals the great-circle distance.", "between table nodes."),
"C10": ("sigma^2 = sigma_rand^2 + sigma_sys^2 with the LSST gamma per filter, SNR 5 at the limiting magnitude, astrometric floor, monotone.", "every magnitude/depth, including very bright and very faint."),
"C11": ("The measured value equals true value + its own sigma x its own draw; true columns kept; tangent-plane displacement for positions.", "draw order, row permutations, poles excluded explicitly."),
"C12": ("Rows start..start+size of the written file; every object once with its own orbit, physical and extra parameters in each of the block modes; mismatched identifiers refused.", "every chunk size against every file length; identifiers that look like numbers; HDF5 appended in pieces."),
"C13": ("Each detection has the pointing columns of the visit with its FieldID; detections without visit or with a filter that is not observed are handled as documented; reader columns renamed and mid-exposure time computed.", "visits in any order, repeated identifiers, symbolic values."),
"C14": ("The documented range of each key (from docs and the validators' error messages) as an interval; accepted iff inside, stored value equals the given one; groups all-or-nothing; vocabularies.", "every real/integer value, nan, text forms, through the real ConfigParser."),
"C15": ("The documented validity of each of six formats (e, q, a, inclination ranges, required columns), accepted iff valid and then unchanged.", "every value of every element, one or several objects."),
"C16": ("A recorder integrator stamps the time it was asked for; the positions used for a visit must carry the two/three snapshot times bracketing the visit, and no object in the searched tiles may be missed.", "every visit order and every gap between visits (histories)."),
"C17": ("Numerical identities: range^2 = |v|^2, range rate = r.v/|r|, tangent unit vectors orthonormal, rates are derivatives; phase angle from the dot product.", "every vector."),
"C18": ("Energy and angular momentum / eccentricity vector identities of the two-body problem, the residual of the universal Kepler equation, own mu per format, Sun subtracted exactly once; inverse: elements of the state reproduce it.", "elliptic, parabolic and hyperbolic orbits, exactly on axes."),
"C19": ("State, vector and light time belong to one emission time; |v| c^-1 equals the light time used up to the contraction bound.", "an arbitrary (uninterpreted) trajectory."),
"C20": ("For every visit and object: a row exists iff the object is within radius + buffer of the visit centre at emission, and carries that visit and that object; each object set up from its own state/epoch; observer vectors of the visit's own time.", "every direction/radius/identifier style."),
"C21": ("Reads the written file back: exactly the rows given, in order, configured columns, rounded to the configured decimals, one header; missing columns refused before writing.", "every value; chunk sequences; 3 formats."),
"C22": ("The statistics recomputed from the definition per object and filter (count, min, max, median, link status/date), over chunks.", "every value/ordering."),
"C23": ("A reference schedule of processing steps derived from the documentation: each configured step called once per chunk with its settings, on the rows that survived the step before; nothing else removes rows; outputs written once per chunk.", "all on/off combinations, chunk sizes, data-dependent survivals."),
"C24": ("As C23 for DES.", "all on/off combinations, chunk sizes, data-dependent survivals."),
"C25": ("Streams are a function of (base seed, module name) only; distinct modules and seeds get distinct streams; order and other requests do not matter.", "every base seed; arbitrary interleavings of requests."),
"C26": ("The DES criteria (>=7 nights unique, triplets within windows, arc cut, n-observation cut) written independently over the night sequence.", "every history of <=10 detections; interleaved objects."),
"C27": ("A set-theoretic specification over the file tree: the run starts iff all inputs exist and the settings are consistent; without force nothing existing is touched; with force exactly the files of that stem go.", "every subset of existing files through the whole command line."),
"C28": ("Exact geometry of each visit's CCD corners (tangent half-planes) with tolerance; kept iff inside a CCD of its own visit, with that detector.", "every sky position incl. RA wrap; visits in any order."),
"C29": ("The SPICE text-kernel grammar (pieces 1-80 characters, lines <= 132, concatenation = path) over a path of symbolic length; set/multiset equality of rows for the merge; completion message for the audit.", "every path length, every arrangement of files."),
"C32": ("Each role's file must come from the cache or from its own configured URL (a recorder stands for the network and writes the URL into the file); bootstrap: set equality of requests, directory listing and contents.", "every role with every combination of name, URL and presence; any three files missing."),
"C33": ("Directory listing and contents before and after; exit status equal to the verb's; menu of the documentation.", "every answer, every subset of existing files, every exit status, argument lists of up to three."),
"C34": ("The registry as a function from declared names to classes; apparent magnitude = catalogue + distance terms + output of the configured models only.", "up to three models, every pattern of names and order of definition, symbolic magnitudes, two rows."),
"C35": ("Settings written in a configuration file are read by the real reader and logged; symbolic numbers leave marks in the messages, and the mark on the line about a setting must equal the setting for every value; switched-off settings must leave no number. Wording is matched loosely by keyword.", "every value; present/absent combinations within each group; two messages of every level."),
}
