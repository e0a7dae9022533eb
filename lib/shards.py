"""python shards.py ID [--replay FILE]: run one check as several processes and merge what they did.

Every shard is one process with its own scratch directory and its own random sequence, a pure function of VERIF_SEED
and the number of the shard; the cases of every part are divided among them.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYTHON = "/opt/venv/bin/python"


def environment(work):
    env = {k: v for k, v in os.environ.items() if not k.startswith("EARTHKIT_REGRID_")}
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
        env.pop(k, None)
    home = os.path.join(work, "home")
    os.makedirs(home)
    os.makedirs(os.path.join(work, "tmp"))
    env.update(
        VP_SCRATCH=work,
        HOME=home,
        TMPDIR=os.path.join(work, "tmp"),
        XDG_CACHE_HOME=os.path.join(home, ".cache"),
        XDG_CONFIG_HOME=os.path.join(home, ".config"),
        ECKIT_GEO_CACHE_PATH=os.path.join(home, "eckit-geo"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        no_proxy="*",
        NO_PROXY="*",
    )
    return env


class Shard:
    def __init__(self, pid, n, of, args):
        self.work = tempfile.mkdtemp(prefix=f"vp-{pid}.", dir="/tmp")
        env = environment(self.work)
        env.update(VP_SHARD=str(n), VP_SHARDS=str(of))
        self.out = open(os.path.join(self.work, "output"), "w+b")
        self.proc = subprocess.Popen(
            [PYTHON, os.path.join(HERE, "main.py"), pid, *args],
            env=env, cwd=self.work, stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.STDOUT, start_new_session=True,
        )

    def text(self):
        self.out.seek(0)
        return self.out.read().decode("utf8", "replace")

    def end(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.out.close()
        for _ in range(5):
            shutil.rmtree(self.work, ignore_errors=True)
            if not os.path.exists(self.work):
                break
            time.sleep(0.2)


def crash(pid, s):
    """the process was ended by a signal in native code: the case that was running is the reproduction"""
    cur = os.path.join(s.work, "current-case")
    rc = s.proc.returncode
    if rc not in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGFPE, -signal.SIGBUS) or not os.path.exists(cur) or not os.path.getsize(cur):
        print(f"harness error: a process of {pid} ended with {rc}")
        return 2
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-crash.json")
    shutil.copyfile(cur, path)
    print(f"the process was ended by signal {-rc} in the case kept in the replay file")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def merge(pid, shards, wall):
    parts = []
    for s in shards:
        with open(os.path.join(s.work, "evidence.json")) as f:
            parts.append(json.load(f))
    distinct = set()
    dist = {}
    samples = []
    for p in parts:
        distinct.update(p["distinct"])
        for k, v in p["evidence"]["coverage"]["distribution"].items():
            dist[k] = max(dist.get(k, 0), v) if k.endswith(":seconds") else dist.get(k, 0) + v
    for i in range(24):
        for p in parts:
            if i < len(p["evidence"]["coverage"]["samples"]) and len(samples) < 24:
                samples.append(p["evidence"]["coverage"]["samples"][i])
    ev = parts[0]["evidence"]
    ev["coverage"].update(
        evaluations=sum(p["evidence"]["coverage"]["evaluations"] for p in parts),
        distinct_nontrivial=len(distinct),
        samples=samples,
        distribution=dict(sorted(dist.items())),
        skipped_by_time_budget=sum(p["evidence"]["coverage"]["skipped_by_time_budget"] for p in parts),
        processes=len(parts),
    )
    ev["wall_s"] = round(wall, 2)
    ev["violations"] = sum(p["evidence"]["violations"] for p in parts)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as g:
        json.dump(ev, g, indent=1)
        g.write("\n")
    known = {}
    for p in parts:
        for k, (what, n) in p["known"].items():
            known[k] = (what, known.get(k, (what, 0))[1] + n)
    for k, (what, n) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} {what} (met {n} times in this run)")
    return ev


def main():
    pid, args = sys.argv[1], sys.argv[2:]
    t0 = time.monotonic()
    n = 1 if args else int(os.environ.get("VP_SHARDS") or min(6, os.cpu_count() or 1))
    shards = []
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        for i in range(n):
            shards.append(Shard(pid, i, n, args))
        # the first violation ends the run; errors are only reported when there is none
        waiting = list(shards)
        bad = None
        while waiting and bad is None:
            time.sleep(0.05)
            for s in list(waiting):
                if s.proc.poll() is not None:
                    waiting.remove(s)
                    if s.proc.returncode == 1 or s.proc.returncode < 0:
                        bad = s
                        break
        if bad is None:
            bad = next((s for s in shards if s.proc.returncode != 0), None)
        if args:
            s = shards[0]
            sys.stdout.write(s.text())
            return s.proc.returncode if s.proc.returncode >= 0 else crash(pid, s)
        done = [s for s in shards if os.path.exists(os.path.join(s.work, "evidence.json"))]
        if done:
            ev = merge(pid, done, time.monotonic() - t0)
        if bad is not None:
            sys.stdout.write(bad.text())
            return bad.proc.returncode if bad.proc.returncode >= 0 else crash(pid, bad)
        c = ev["coverage"]
        print(
            f"OK property={pid} tier={ev['tier']} seed={ev['seed']} evaluations={c['evaluations']} "
            f"distinct_nontrivial={c['distinct_nontrivial']} skipped={c['skipped_by_time_budget']} wall={time.monotonic() - t0:.1f}s"
        )
        return 0
    finally:
        for s in shards:
            s.end()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
