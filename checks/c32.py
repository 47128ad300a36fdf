"""C32: the reference data files of the ephemeris generator are the configured ones."""
import gzip
import json
import os
from types import SimpleNamespace as NS

import pooch
import pooch.core

from lib.env import scratch
from lib.harness import exits, harness, patched
from sorcha.ephemeris import simulation_parsing as P
from sorcha.ephemeris import simulation_setup as S
from sorcha.utilities import generate_meta_kernel, retrieve_ephemeris_data_files
from sorcha.utilities.sorchaConfigs import auxiliaryConfigs
from sorcha_cmdline import bootstrap

BOUNDS = "every file role, alone and with its neighbour, with every combination of given/omitted file name and URL, present in the cache or not; bootstrap with any three files present or missing against all others present or all missing, forced or not; masses of any value for the Sun and one more body"
OUTSIDE = "the download itself (replaced by a recorder that writes what it was asked for); checksums; a cache moved after its meta-kernel was built"
ASSUMPTIONS = ["pooch and its decompression work as documented (their real code is run)"]
ROLES = ["planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "jpl_planets", "jpl_small_bodies", "leap_seconds", "observatory_codes_compressed", "orientation_constants"]
KERNELS = ["leap_seconds", "earth_historical", "earth_predict", "orientation_constants", "planet_ephemeris", "earth_high_precision"]
CODES = {"X05": {"Longitude": 0.0, "cos": 1.0, "sin": 0.0}}


class Net:
    """the network: records each request and writes a file that names its source"""

    def __init__(self):
        self.asked = []

    def choose(self, url, progressbar=False):
        if not isinstance(url, str) or "://" not in url:
            raise ValueError("no such place: %r" % (url,))

        def get(url, output_file, pooch, check_only=False):
            self.asked.append(url)
            body = ("from " + url).encode()
            if url.endswith(".gz"):
                body = gzip.compress(json.dumps(dict(CODES, source={"Longitude": url})).encode())
            if hasattr(output_file, "write"):
                output_file.write(body)
            else:
                with open(output_file, "wb") as f:
                    f.write(body)

        return get

    def patches(self):
        return [(pooch.core, "choose_downloader", self.choose)]


def put(d, name, text="cached"):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)


def read(d, name):
    with open(os.path.join(d, name)) as f:
        return f.read()


def default(role):
    return getattr(auxiliaryConfigs, role), getattr(auxiliaryConfigs, role + "_url")


def given(c, role, tag):
    """what the user writes for one file: keywords, and the name and URL that result (None: no URL)"""
    name, url = default(role)
    how = c.choose("given_" + tag, ["nothing", "name", "version", "url", "both"])
    kw = {}
    if how == "version":
        root, ext = name.split(".", 1)
        name = kw[role] = root + "_v2." + ext
        url = None
    elif how in ("name", "both"):
        name = kw[role] = "my_%s.dat" % role if "compressed" not in role else "my_codes.json.gz"
        if how == "name":
            url = None
    if how in ("url", "both"):
        url = kw[role + "_url"] = "https://elsewhere/%s" % (role if "compressed" not in role else "codes.gz")
    return kw, name, url, how == "url"


@harness(cases=[dict(r=i) for i in range(len(ROLES))])
def sources(c, r):
    """each configured file comes from the cache or from its own URL, never from the URL of another file"""
    roles = [ROLES[r], ROLES[(r + 1) % len(ROLES)]]
    kw, want, bad = {}, {}, False
    for i, role in enumerate(roles):
        k, name, url, wrong = given(c, role, str(i))
        kw.update(k)
        want[role] = (name, url, c.flag("cached%d" % i))
        bad = bad or wrong
    stop, cfg = exits(lambda: auxiliaryConfigs(**kw))
    c.prove(stop == bad, "url-without-file-name-stops")
    if stop:
        c.prove(cfg.code not in (0, None), "failure-status")
        return
    names = {q: default(q)[0] for q in ROLES}
    names.update({q: want[q][0] for q in roles})
    c.prove(sorted(cfg.data_files_to_download) == sorted(names.values()), "every-file-is-downloaded")
    c.prove(sorted(cfg.data_file_list) == sorted(list(names.values()) + ["meta_kernel.txt", "ObsCodes.json"]), "every-file-is-expected")
    order = list(cfg.ordered_kernel_files)
    c.prove(sorted(order) == sorted(names[q] for q in KERNELS), "kernels")
    pos = lambda q: order.index(names[q])
    c.prove(pos("leap_seconds") == 0 and pos("earth_high_precision") > max(pos("earth_predict"), pos("earth_historical")), "kernel-precedence")
    net = Net()
    with scratch() as d, patched(*net.patches()):
        for name, _, cached in want.values():
            if cached:
                put(d, name)
        retriever = S.make_retriever(cfg, d)
        for role in roles:
            name, url, cached = want[role]
            before = len(net.asked)
            try:
                path = retriever.fetch(name)
            except Exception:
                path = None
            new = net.asked[before:]
            if cached:
                c.prove(path == os.path.join(d, name) and new == [] and read(d, name) == "cached", "cached-file-used")
            elif url is None:
                c.prove(path is None and new == [], "no-other-file-under-the-name")
            else:
                c.prove(path == os.path.join(d, name) and new == [url], "own-url")
        c.prove(os.path.realpath(str(retriever.abspath)) == os.path.realpath(d), "given-directory")
        c.reached("fetched")


ALL = [default(q)[0] for q in ROLES] + ["meta_kernel.txt", "ObsCodes.json"]


@harness(cases=[dict(r=i, rest=x) for i in range(len(ALL)) for x in (False, True)])
def fetch_all(c, r, rest):
    """sorcha bootstrap completes the cache; it deletes and re-downloads only when forced, whatever is missing"""
    force = c.flag("force")
    some = [ALL[(r + k) % len(ALL)] for k in range(3)]
    there = {f: (c.flag("there%d" % some.index(f)) if f in some else rest) for f in ALL}
    net = Net()
    with scratch() as d, patched(*net.patches()):
        for f in ALL:
            if there[f]:
                if f.endswith(".gz"):
                    with open(os.path.join(d, f), "wb") as g:
                        g.write(gzip.compress(json.dumps(CODES).encode()))
                else:
                    put(d, f)
        put(d, "notes.txt", "mine")
        bootstrap.execute(NS(cache=d, force=force))
        c.prove(sorted(os.listdir(d)) == sorted(ALL + ["notes.txt"]), "cache-complete")
        c.prove(read(d, "notes.txt") == "mine", "other-files-kept")
        want = [default(q) for q in ROLES if force or not there[default(q)[0]]]
        c.prove(sorted(net.asked) == sorted(u for _, u in want), "downloads")
        complete = all(there.values())
        for q in ROLES:
            f, u = default(q)
            if not f.endswith(".gz"):
                c.prove(read(d, f) == ("cached" if there[f] and not force else "from " + u), "file-content")
        if force or not complete:
            k = read(d, "meta_kernel.txt")
            c.prove(all("'$A/%s'" % default(q)[0] in k for q in KERNELS), "meta-kernel-names-the-kernels")
        else:
            c.prove(read(d, "meta_kernel.txt") == "cached", "complete-cache-untouched")
        if force:
            c.prove("source" in json.loads(read(d, "ObsCodes.json")), "codes-renewed")
        elif there["ObsCodes.json"] and there["ObsCodes.json.gz"]:
            c.prove(read(d, "ObsCodes.json") == "cached", "codes-kept")


class Ephem:
    def __init__(self, m):
        self.m, self.paths = m, []

    def __call__(self, planets_path=None, asteroids_path=None):
        self.paths.append((planets_path, asteroids_path))
        return self

    def get_particle(self, body, t):
        return NS(m=self.m[0 if body == "Sun" else body], t=t)


@harness(cases=[dict(own=o) for o in (False, True)])
def run_time(c, own):
    """a run opens the configured planet, small-body, kernel and observatory files in the given directory"""
    kw, names = {}, {q: default(q)[0] for q in ROLES}
    if own:
        for q in ROLES:
            names[q] = kw[q] = "my_%s%s" % (q, ".json.gz" if "compressed" in q else ".dat")
            kw[q + "_url"] = "https://elsewhere/%s%s" % (q, ".gz" if "compressed" in q else "")
        kw.update(meta_kernel="my_kernels.txt", observatory_codes="my_codes.json")
    cfg = auxiliaryConfigs(**kw)
    url = {q: kw.get(q + "_url", default(q)[1]) for q in ROLES}
    k = c.choose("present", ROLES + [None, "meta", "codes", "all"])
    m = [c.real("msun", 0, 1), 3.0, c.real("m2", 0, 5)] + [0.125] * 24
    ephem, loaded, net = Ephem(m), [], Net()
    meta, codes = ("my_kernels.txt", "my_codes.json") if own else ("meta_kernel.txt", "ObsCodes.json")
    with scratch() as d, patched(*net.patches(), (S, "Ephem", ephem), (S, "spice", NS(furnsh=loaded.append))):
        have = set(ROLES if k == "all" else [k] if k in ROLES else [])
        for q in have:
            if "compressed" not in q:
                put(d, names[q])
            else:
                with open(os.path.join(d, names[q]), "wb") as g:
                    g.write(gzip.compress(json.dumps(dict(CODES, cached={})).encode()))
        if k in ("meta", "all"):
            put(d, meta)
        if k in ("codes", "all"):
            put(d, codes, json.dumps(dict(CODES, cached={})))
        args = NS(ar_data_file_path=d)
        e, sun, total = S.create_assist_ephemeris(args, cfg)
        c.prove(e is ephem and ephem.paths == [(os.path.join(d, names["jpl_planets"]), os.path.join(d, names["jpl_small_bodies"]))], "configured-ephemeris-files")
        c.prove(c.eq(sun, m[0], 0.0 if c.mode == "sym" else 1e-12), "mass-of-the-sun")
        c.prove(c.eq(total, m[0] + m[1] + m[2] + 24 * 0.125, 0.0 if c.mode == "sym" else 1e-12), "total-mass")
        S.furnish_spiceypy(args, cfg)
        c.prove([str(x) for x in loaded] == [os.path.join(d, meta)], "configured-meta-kernel-loaded")
        text = read(d, meta)
        if k in ("meta", "all"):
            c.prove(text == "cached", "meta-kernel-kept")
        else:
            at = [text.find("'$A/%s'" % names[q]) for q in KERNELS]
            c.prove(min(at) > 0 and text.count("$A/") == len(KERNELS), "meta-kernel-names-the-kernels")
            c.prove(at[0] == min(at) and at[5] > max(at[1], at[2]), "meta-kernel-order")
        o = P.Observatory(args, cfg)
        c.prove(("X05" in o.ObservatoryXYZ) and ("cached" in o.ObservatoryXYZ) == (k in ("codes", "all", "observatory_codes_compressed")), "configured-codes")
        for q in ROLES:
            used = q != "observatory_codes_compressed" or k not in ("codes", "all")
            c.prove(net.asked.count(url[q]) == (0 if q in have or not used else 1), "downloaded-once-if-missing")
