"""C33: the sorcha command passes verbs through; init and demo prepare copy exactly the files asked for, overwriting only when forced."""
import builtins
import importlib.resources
import io
import os
import subprocess
import sys
from types import SimpleNamespace as NS

import sorcha
import sorcha.utilities.sorcha_copy_configs as CC
import sorcha.utilities.sorcha_copy_demo_files as CD
import sorcha.utilities.sorcha_demo_command as DC
import sorcha_cmdline.cite as cite
import sorcha_cmdline.demo as demo
import sorcha_cmdline.init as init
import sorcha_cmdline.main as main
import sorcha_cmdline.run as run
from lib import sym
from lib.env import scratch, text
from lib.harness import exits, harness, patched

BOUNDS = "every answer to the menu of sorcha init (any integer, or text that is none), every combination of the files present beforehand, forced or not, directory present or not; every exit status of a verb, up to three arguments; executables and other files on a PATH of two directories"
OUTSIDE = "symbolic links, full disks, permissions; the wording of messages"
ASSUMPTIONS = ["shutil, argparse and the operating system work as documented (their real code is run)"]
SETUPS = os.path.join(os.path.dirname(sorcha.__file__), "data", "survey_setups")
MENU = {
    1: ["Rubin_circular_approximation.ini"],
    2: ["Rubin_full_footprint.ini"],
    3: ["Rubin_known_object_prediction.ini"],
    4: ["DES_config_file.ini"],
}
ALL = [f for i in (1, 2, 3, 4) for f in MENU[i]]
DEMO = ["sorcha_config_demo.ini", "sspp_testset_colours.txt", "sspp_testset_orbits.des", "baseline_v2.0_1yr.db"]


def put(d, name, body="mine"):
    with open(os.path.join(d, name), "w") as f:
        f.write(body)


def read(d, name):
    with open(os.path.join(d, name)) as f:
        return f.read()


def quiet():
    return patched((sys, "stdout", io.StringIO()))


def checked(c, call, d, names, want, source, there, force):
    """run the copy; names: all that could be copied, want: those asked for"""
    put(d, "notes.txt")
    for n in names:
        if there[n]:
            put(d, n, "earlier " + n)
    with quiet():
        stop, e = exits(call)
    clash = any(there[n] for n in want) and not force
    c.prove(stop == clash, "stops-exactly-on-a-clash")
    if stop:
        c.prove(e.code not in (0, None), "failure-status")
    now = sorted(os.listdir(d))
    c.prove(set(now) <= set(want) | {n for n in names if there[n]} | {"notes.txt"}, "nothing-else-appears")
    c.prove(read(d, "notes.txt") == "mine", "other-files-kept")
    for n in names:
        if there[n] and not (force and n in want):
            c.prove(n in now and read(d, n) == "earlier " + n, "not-overwritten")
        elif n in now:
            c.prove(read(d, n) == source(n), "exact-copy")
        if n in want and not clash:
            c.prove(n in now, "all-copied")


@harness(cases=[dict(force=f) for f in (False, True)])
def init_menu(c, force):
    """sorcha init: each answer copies its configuration files, and no answer outside the menu copies anything"""
    n = c.int("answer", -3, 12)
    answer = text(c, n)
    there = {f: c.flag("there%d" % i) for i, f in enumerate(ALL)}
    with scratch() as d, patched((builtins, "input", lambda *a: answer), (sym, "ENUM_HASH", True)):
        if c.flag("on_the_menu"):
            c.assume(c.And(n >= 1, n <= 5))
            want = ALL
            for i in MENU:
                if n == i:
                    want = MENU[i]
            call = lambda: init.execute(NS(path=d, force=force, verbose=False))
            checked(c, call, d, ALL, want, lambda f: read(SETUPS, f), there, force)
        else:
            c.assume(c.Or(n < 1, n > 5))
            with quiet():
                stop, e = exits(init.execute, NS(path=d, force=force, verbose=False))
            c.prove(stop and e.code not in (0, None) and os.listdir(d) == [], "wrong-answer-stops")


@harness(cases=[dict(word=w) for w in ("", "x", "1.5", "all", "1 2", "nan")])
def init_words(c, word):
    with scratch() as d, patched((builtins, "input", lambda *a: word)), quiet():
        stop, e = exits(init.execute, NS(path=d, force=c.flag("force"), verbose=False))
        c.prove(stop and e.code not in (0, None) and os.listdir(d) == [], "wrong-answer-stops")


@harness(cases=[dict(which=w) for w in ("rubin_circle", "rubin_footprint", "rubin_known", "des_configs", "all", "rubin", "")])
def configs_by_name(c, which):
    """the library function behind sorcha init, for its own names"""
    force = c.flag("force")
    there = {f: c.flag("there%d" % i) for i, f in enumerate(ALL)}
    order = ["rubin_circle", "rubin_footprint", "rubin_known", "des_configs"]
    with scratch() as d:
        if which == "all" or which in order:
            want = ALL if which == "all" else MENU[1 + order.index(which)]
            checked(c, lambda: CC.copy_demo_configs(d, which, force), d, ALL, want, lambda f: read(SETUPS, f), there, force)
        else:
            with quiet():
                stop, e = exits(CC.copy_demo_configs, d, which, force)
            c.prove(stop and e.code not in (0, None) and os.listdir(d) == [], "unknown-name-stops")


def demo_sources(src):
    """the packaged demo files, complete with the pointing database that releases add"""
    import pathlib

    real = importlib.resources.files
    f = lambda package=None, **k: pathlib.Path(src) if str(package) == "sorcha.data.demo" else real(package)
    return [(m, "files", f) for m in (importlib.resources, CD) if hasattr(m, "files")]


@harness()
def demo_prepare(c):
    """sorcha demo prepare copies the files the demo command names, and nothing over an existing file unless forced"""
    force = c.flag("force")
    there = {f: c.flag("there%d" % i) for i, f in enumerate(DEMO)}
    with scratch() as src, scratch() as d, patched(*demo_sources(src)):
        for f in DEMO:
            put(src, f, "packaged " + f)
        checked(c, lambda: demo.cmd_demo_prepare(NS(path=d, force=force)), d, DEMO, DEMO, lambda f: "packaged " + f, there, force)


@harness(cases=[dict(which=w) for w in ("init", "demo")])
def no_directory(c, which):
    """without the target directory both stop, and create nothing"""
    force, kind = c.flag("force"), c.choose("kind", ["missing", "file"])
    with scratch() as src, scratch() as d, patched(*demo_sources(src), (builtins, "input", lambda *a: "5")), quiet():
        for f in DEMO:
            put(src, f)
        if kind == "file":
            put(d, "target")
        fn = init.execute if which == "init" else demo.cmd_demo_prepare
        stop, e = exits(fn, NS(path=os.path.join(d, "target"), force=force, verbose=False))
        c.prove(stop and e.code not in (0, None), "stops")
        c.prove(os.listdir(d) == (["target"] if kind == "file" else []), "nothing-created")
        c.prove(kind != "file" or read(d, "target") == "mine", "file-kept")


@harness()
def demo_command(c):
    """the printed demo command is one that sorcha run accepts, and names only files that demo prepare supplies"""
    words = DC.get_demo_command().split()
    c.prove(words[:2] == ["sorcha", "run"], "is-a-run")
    got = []
    with patched((sys, "argv", ["sorcha-run"] + words[2:]), (run, "execute", got.append)):
        stop, _ = exits(run.main)
    c.prove(not stop and len(got) == 1, "accepted")
    a = got[0]
    c.prove(a.c == DEMO[0] and a.p == DEMO[1] and a.ob == DEMO[2] and a.pd == DEMO[3], "names-the-demo-files")


@harness(cases=[dict(n=n) for n in (0, 1, 3)])
def dispatch(c, n):
    """sorcha VERB ARGS runs the verb once with its arguments unchanged and ends with its exit status"""
    rc = c.int("status", -20, 255)
    pool = ["--version", "-h", "x y", "-c", "verb", "*", "=", "--o=p"]
    args = [c.choose("arg%d" % i, pool) for i in range(n)]
    calls = []

    class Process:
        """the started verb: it has ended with the status"""

        pid = 1

        def __init__(self, args, *a, **k):
            calls.append(list(args))
            self.args, self.returncode, self.stdout, self.stderr = args, rc, None, None

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def wait(self, timeout=None):
            return rc

        poll = wait

        def communicate(self, input=None, timeout=None):
            return None, None

    def become(file, args):
        calls.append(list(args))
        raise SystemExit(rc)

    with scratch() as d, scratch() as d2:
        path = os.pathsep.join([os.path.join(d, "gone"), d, d2])
        for place, name, mode in ((d, "sorcha-verb", 0o755), (d2, "sorcha-other", 0o755), (d2, "sorcha-text", 0o644), (d2, "other", 0o755)):
            put(place, name, "#!/bin/sh\nexit 0\n")
            os.chmod(os.path.join(place, name), mode)
        verb = c.choose("verb", ["verb", "other", "text", "none"])
        old = os.environ.get("PATH")
        os.environ["PATH"] = path
        try:
            c.prove(main.find_sorcha_verbs() == ["other", "verb"], "verbs-are-the-executables")
            with patched((sys, "argv", ["sorcha", verb] + args), (subprocess, "Popen", Process), (os, "execvp", become), (sys, "stderr", io.StringIO())), quiet():
                stop, e = exits(main.main)
        finally:
            os.environ["PATH"] = old
    if verb in ("text", "none"):
        c.prove(stop and e.code not in (0, None) and calls == [], "unknown-verb-stops")
    else:
        c.prove(calls == [["sorcha-" + verb] + args], "arguments-unchanged")
        code = e.code if stop and e.code is not None else 0
        c.prove(c.eq(code, rc), "exit-status")


@harness()
def citation(c):
    """sorcha cite writes to the given directory what it would print, and stops without the directory"""
    with scratch() as d:
        put(d, "notes.txt")
        out = io.StringIO()
        place = c.choose("place", ["there", "missing", "file"])
        o = {"there": d, "missing": os.path.join(d, "gone"), "file": os.path.join(d, "notes.txt")}[place]
        with patched((sys, "stdout", out)):
            stop, e = exits(cite.execute, NS(p=False, o=o))
            same = sys.stdout is out
        c.prove(same, "output-restored")
        c.prove(stop == (place != "there"), "stops-without-directory")
        c.prove(read(d, "notes.txt") == "mine", "other-files-kept")
        c.prove(sorted(os.listdir(d)) == (["notes.txt", "sorcha_citation.txt"] if place == "there" else ["notes.txt"]), "one-file")
        if place == "there":
            t = read(d, "sorcha_citation.txt")
            c.prove("{2025AJ....170..100M," in t and "{2025AJ....170...97H," in t and "ASSIST" in t and "rebound" in t.lower(), "complete")
