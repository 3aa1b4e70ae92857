#!/usr/bin/env python3
"""mutate.py OUT N SEED [FILE:PROPS ...]: random small mutations of source files, each judged by the quick checks named for its file.
Works on scratch copies (VT_REPO); survivors are listed in OUT for a human to classify (equivalent or missed)."""
import os, random, re, shutil, subprocess, sys, tempfile
TARGETS = """src/gaussfft.cpp:C04,C01,C03,C05,C08
src/gaussfftinterface.cpp:C04,C05,C08,C01
src/nrlib/variogram/gaussianfield.cpp:C07,C05,C02,C04
src/nrlib/variogram/variogram.cpp:C08,C09
src/nrlib/variogram/variogramtypes.cpp:C08,C09,C05
src/nrlib/variogram/variogramtypes.hpp:C08,C05,C09
src/nrlib/variogram/fftcovgrid.cpp:C10,C07
src/nrlib/variogram/covgrid2d.cpp:C10
src/nrlib/fft/fft.cpp:C11,C06
src/nrlib/fft/fft.hpp:C11,C06
src/nrlib/fft/fftgrid2d.cpp:C11,C06
src/nrlib/fft/fftgrid2d.hpp:C11,C06,C07
src/nrlib/fft/fftgrid3d.cpp:C11,C06
src/nrlib/fft/fftgrid3d.hpp:C11,C06,C07
src/nrlib/random/random.cpp:C12
src/nrlib/random/random.hpp:C12
src/nrlib/random/randomgenerator.cpp:C12
gaussianfft/util/empirical_variogram.py:C13
gaussianfft/util/empirical_variogram2.py:C13
src/nrlib/iotools/fileio.hpp:C14,C15
src/nrlib/iotools/fileio.cpp:C15,C17,C14
src/nrlib/iotools/stringtools.cpp:C15,C17
src/nrlib/iotools/stringtools.hpp:C15
src/nrlib/iotools/logkit.cpp:C16
src/nrlib/iotools/logstream.cpp:C16
src/nrlib/iotools/logstream.hpp:C16
src/nrlib/iotools/bigfile.cpp:C17
src/nrlib/iotools/bigfile.hpp:C17
src/nrlib/segy/segygeometry.cpp:C18,C19
src/nrlib/segy/segy.cpp:C19,C18
src/nrlib/segy/traceheader.cpp:C19
src/nrlib/segy/segytrace.cpp:C19
src/nrlib/segy/commonheaders.cpp:C19
src/nrlib/surface/regularsurface.hpp:C20
src/nrlib/surface/regularsurfacerotated.hpp:C20
src/nrlib/surface/surfaceio.cpp:C20
src/nrlib/surface/surfaceio.hpp:C20
src/nrlib/geometry/line.cpp:C21
src/nrlib/geometry/box.cpp:C21
src/nrlib/geometry/polygon.cpp:C21
src/nrlib/geometry/plane.cpp:C21
src/nrlib/geometry/triangle.cpp:C21
src/nrlib/geometry/point.cpp:C21
src/nrlib/geometry/point.hpp:C21
src/nrlib/geometry/bilinearsurface.cpp:C21
src/nrlib/geometry/interpolation.cpp:C21
src/nrlib/geometry/transformation.cpp:C21
src/nrlib/grid/grid2d.hpp:C22
src/nrlib/grid/grid.hpp:C22
src/nrlib/grid/grid4d.hpp:C22
src/nrlib/grid/grid5d.hpp:C22
src/nrlib/grid/grid2dgeneral.hpp:C22
src/nrlib/statistics/kriging.cpp:C23
src/nrlib/statistics/nodalkrigingdata2d.cpp:C23
src/nrlib/statistics/continuouskrigingdata2d.cpp:C23""".split()
RULES = [(r"(?<![<>=!+\-*/&|])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![>\-=])>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
         (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=[\w)\s])\*(?=[\s\w(])(?!\s*[\w>]+\s*[,)&=;])", "/"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b1\.0\b", "1.5"), (r"\b0\.5\b", "0.6"),
         (r"\bnx\b", "ny"), (r"\bny\b", "nx"), (r"\bnz\b", "ny"), (r"\bdx\b", "dy"), (r"\bdy\b", "dx"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"),
         (r"\bi\b(?=[\]),])", "j"), (r"\bj\b(?=[\]),])", "i"), (r"range_x\b", "range_y"), (r"range_y\b", "range_x"), (r"\+\+(\w)", r"\1"), (r"(\+=)", "-="), (r"std::max\b", "std::min"), (r"std::min\b", "std::max")]


def mutants(path, text):
    out, lines, depth = [], text.split("\n"), False
    for n, l in enumerate(lines):
        s = l.strip()
        if "/*" in s and "*/" not in s: depth = True
        if depth:
            if "*/" in s: depth = False
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "namespace", "assert", '"""', "import", "typedef", "@", "throw", "raise")):
            continue
        code = re.split(r"//", l)[0]
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + re.sub(pat, rep, m.group(0)) + code[m.end():]
                if new != code:
                    out.append((n, l, new))
        if s.endswith(";") and not re.match(r"(return|const|static|int|size_t|double|float|std::|bool|char|unsigned|break|virtual|class|else|case|default|\}|delete|long)", s) and not path.endswith(".hpp"):
            out.append((n, l, "  ;"))
    return out


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    targets = sys.argv[4:] or TARGETS
    rng = random.Random(seed)
    W = tempfile.mkdtemp(prefix="mut-")
    R, V = W + "/repo", W + "/verif"
    subprocess.check_call(["git", "clone", "-q", os.environ.get("MUT_REPO", "/repo"), R])
    shutil.copytree(os.environ.get("MUT_VERIF", "/verif"), V, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replay"))
    env = dict(os.environ, VT_REPO=R)
    log = open(out, "a", buffering=1)
    todo = []
    for t in targets:
        f, props = t.split(":")
        if not os.path.exists(R + "/" + f):
            continue
        text = open(R + "/" + f, encoding="latin1", newline="").read()
        ms = mutants(f, text)
        for m in rng.sample(ms, min(n, len(ms))):
            todo.append((f, props.split(","), text, m))
    rng.shuffle(todo)
    try:
        for f, props, text, (ln, old, new) in todo:
            lines = text.split("\n")
            lines[ln] = new + ("\r" if old.endswith("\r") and not new.endswith("\r") else "")
            open(R + "/" + f, "w", encoding="latin1", newline="").write("\n".join(lines))
            res = "SURVIVED"
            for p in props:
                try:
                    r = subprocess.run([V + "/check.py", p, "quick"], env=env, capture_output=True, text=True, timeout=600, cwd=V)
                except subprocess.TimeoutExpired:
                    res = "timeout " + p; break
                if r.returncode == 1:
                    res = "caught " + p; break
                if r.returncode != 0:
                    res = "broken " + p + " " + (r.stderr.strip().split("\n") or [""])[-1][:120]; break
            log.write("%s | %s:%d | %s => %s\n" % (res, f, ln + 1, old.strip(), new.strip()))
            open(R + "/" + f, "w", encoding="latin1", newline="").write(text)
            for d in os.listdir(V + "/build"):
                p = V + "/build/" + d
                if len(os.listdir(V + "/build")) > 40 and os.path.isdir(p) and os.path.getmtime(p) < os.path.getmtime("/proc/self") + 1e12 and d.startswith(("ext-", "nrlib", "h-")):
                    shutil.rmtree(p, ignore_errors=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)


main()
