"""Compile the C++ extensions of /repo's current tree into a scratch directory.

kind "sym":  the real sources with `double` replaced by the symbolic scalar (engine/symcpp/pre.h)
kind "real": the real sources as they are (used to replay counterexamples and validate encodings)
"""
import os
import re
import subprocess
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PYB = "/opt/venv/lib/python3.12/site-packages/pybind11/include"
EIGEN = "/usr/include/eigen3"
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


class BuildError(Exception):
    pass


def parse_setup():
    """extension name -> sources, as setup.py lists them (falls back to the known layout)"""
    known = {
        "eigen_solvers": ["src/mssm/src/cpp/eigen_solvers.cpp"],
        "davies": ["src/mssm/src/cpp/davies.cpp"],
        "dChol": ["src/mssm/src/cpp/dchol.cpp"],
        "mcmc": ["src/mssm/src/cpp/mcmc.cpp"],
        "hsmm": ["src/mssm/src/cpp/hsmm/%s.cpp" % n for n in ("hsmm", "llk", "decode", "resid")],
        "hazard": ["src/mssm/src/cpp/hazard.cpp"],
    }
    try:
        txt = open(os.path.join(REPO, "setup.py")).read()
        out = {}
        for m in re.finditer(r"Pybind11Extension\((.*?)\)\n\n", txt + "\n\n", re.S):
            body = m.group(1)
            name = re.search(r"name\s*=\s*\"([^\"]+)\"", body)
            srcs = re.search(r"sources\s*=\s*\[(.*?)\]", body, re.S)
            if name and srcs:
                out[name.group(1)] = re.findall(r"\"([^\"]+)\"", srcs.group(1))
        for k, v in known.items():
            out.setdefault(k, v)
        return out
    except OSError:
        return known


NO_EIGEN = {"hsmm", "davies"}


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("compilation failed: %s\n%s" % (" ".join(cmd[-4:]), p.stdout[-3000:]))


def _compile(args):
    kind, name, src, out = args
    inc = sysconfig.get_paths()["include"]
    env_cmd = ["g++", "-fPIC", "-w", "-fvisibility=hidden", "-I" + inc, "-I" + PYB, "-I" + EIGEN]
    if kind == "sym":
        cmd = env_cmd + ["-O1", "-std=c++17", "-include", os.path.join(HERE, "symcpp", "pre.h")]
        if name not in NO_EIGEN:
            cmd += ["-DSYM_EIGEN"]
    else:
        cmd = env_cmd + ["-O1", "-std=c++14"]
    try:
        _run(cmd + ["-c", src, "-o", out])
    except BuildError:
        if kind != "sym":
            raise
        # a source that uses Eigen without being listed, or constexpr in a template argument
        alt = cmd + ([] if "-DSYM_EIGEN" in cmd else ["-DSYM_EIGEN"]) + ["-DSYM_KEEP_CONSTEXPR"]
        _run(alt + ["-c", src, "-o", out])
    return out


def build(names, scratch, kinds=("sym", "real"), jobs=8):
    """returns {kind: directory}"""
    exts = parse_setup()
    tasks, links = [], []
    dirs = {}
    for kind in kinds:
        d = os.path.join(scratch, kind)
        os.makedirs(d, exist_ok=True)
        dirs[kind] = d
        for n in names:
            if kind == "sym" and n == "davies":
                continue
            objs = []
            for s in exts[n]:
                o = os.path.join(d, n + "_" + os.path.basename(s) + ".o")
                tasks.append((kind, n, os.path.join(REPO, s), o))
                objs.append(o)
            links.append((objs, os.path.join(d, n + SUFFIX)))
    # longest first
    tasks.sort(key=lambda t: -os.path.getsize(t[2]))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(_compile, tasks))
        list(ex.map(lambda l: _run(["g++", "-shared"] + l[0] + ["-o", l[1]]), links))
    return dirs
