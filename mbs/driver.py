"""driver.py OUT < jobs : runs jobs [kind, argument, seconds] in processes of their own, eight at a time.
A job generates the equations of one described system with the library's real generator on symbolic parameters and
coordinates, and decides for each result whether it equals the reference for all values."""
import json, os, signal, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "bin"), HERE]

def of_library(tb):
    import vbuild
    return any(f.filename.startswith(os.path.join(vbuild.REPO, "pymbs")) for f in tb)

def job(kind, arg):
    import jobs
    from alg import Unsupported
    out = dict(status="ok", checked=0, queries=0, solver_s=0.0, undecided=[], found=[], unreproduced=[], samples=[])
    try:
        jobs.KINDS[kind](arg, out)
    except Unsupported as e:
        out["status"] = "outside: " + str(e)[:200]
    except jobs.Failed as e:
        out["found"].append((str(e), "the library's own code fails:\n" + e.text))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        out["status"] = "harness: " + text[-1500:]
    return out

def main():
    outp = sys.argv[1]
    todo = json.load(sys.stdin)
    limit = float(os.environ.get("MBS_BUDGET", "600"))
    par = int(os.environ.get("MBS_JOBS", "0")) or os.cpu_count() or 8
    import pybuild
    pybuild.load()
    import jobs, systems, play                             # in the parent, so that the jobs inherit them
    t0 = time.time()
    results, running = [None] * len(todo), {}
    order = sorted(range(len(todo)), key=lambda i: -todo[i][2])
    def finish(i, r): results[i] = r
    while order or running:
        while order and len(running) < par:
            i = order.pop(0)
            if time.time() - t0 > limit: finish(i, dict(status="skipped: time budget used up")); continue
            f = tempfile.TemporaryFile("w+")
            pid = os.fork()
            if pid == 0:
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
                    dn = os.open(os.devnull, os.O_RDWR); os.dup2(dn, 1)
                    r = job(todo[i][0], todo[i][1])
                    json.dump(r, f); f.flush()
                finally:
                    os._exit(0)
            running[pid] = (i, f, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, (i, f, t) in list(running.items()):
                over = time.time() - t > todo[i][2] or time.time() - t0 > limit + 60
                if over: os.kill(p, signal.SIGKILL)
            time.sleep(0.02)
            continue
        i, f, t = running.pop(pid)
        f.seek(0); s = f.read(); f.close()
        r = json.loads(s) if s else dict(status="killed: signal %d after %.0f s" % (st & 127, time.time() - t), signal=st & 127)
        r["wall_s"] = round(time.time() - t, 2)
        finish(i, r)
    json.dump(results, open(outp, "w"))

if __name__ == "__main__":
    main()
