"""Runs sessions with several threads in one process.  IN.pickle: dict(runs=[dict(seed, threads=[[op]])], calls, seeds, words)."""
import hashlib, itertools, os, pickle, sys, threading
import gaussianfft as g
job = pickle.load(open(sys.argv[1], "rb"))


def do(o):
    if o[0] == "sim":
        v, a = job["calls"][o[1]]
        return hashlib.sha256(g.simulate(g.variogram(*v), *a).tobytes()).hexdigest()[:16]
    if o[0] == "seed":
        g.seed(int(o[1]))
    elif o[0] == "query":
        return str(g.seed())
    else:
        v, a = job["calls"][o[1]]
        g.variogram(*v).corr(1.0)
        g.simulation_size(g.variogram(*v), *a)
    return ""


def child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as o:
                pickle.dump(f(), o)
        except BaseException as e:
            print(repr(e), file=sys.stderr)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        b = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else None


def serial():
    tab = {}
    for s in job["seeds"]:
        tab[s] = []
        for c in range(len(job["calls"])):
            tab[s].append([])
            for w in job["words"]:
                g.seed(int(s))
                for x in w:
                    do(("sim", x))
                tab[s][-1].append(do(("sim", c)))
    return tab


def threaded(run):
    sys.setswitchinterval(1e-6)
    clock, out, bar = itertools.count(1), [], threading.Barrier(len(run["threads"]))
    g.seed(int(run["seed"]))

    def go(t, ops):
        bar.wait()
        for o in ops:
            a = next(clock)
            try:
                r = do(o)
            except Exception as e:
                r = "raised " + type(e).__name__
            out.append(dict(t=t, inv=a, res=next(clock), k=o[0], c=o[1], r=r))
    ts = [threading.Thread(target=go, args=(t, ops)) for t, ops in enumerate(run["threads"])]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


pickle.dump((child(serial), [child(lambda: threaded(r)) for r in job["runs"]]), open(sys.argv[2], "wb"))
