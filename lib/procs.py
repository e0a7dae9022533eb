"""Child processes made by fork: the check process itself never starts the threads of the
code under test when it uses these, so that forking is safe."""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from vp import HarnessError, Violation, fail


class Child:
    def __init__(self, fn, *args):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.alarm(0)
                self._w = w
                try:
                    fn(self, *args)
                    self.send(("done", None))
                except Violation as e:
                    self.send(("violation", (str(e), e.key)))
                except BaseException as e:
                    from vp import _in_repo

                    self.send(("error", (traceback.format_exc(), _in_repo(e), repr(e))))
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self._r = pid, r
        self.messages = []
        self.status = None
        self._buf = b""

    # in the child
    def send(self, obj):
        data = pickle.dumps(obj)
        data = struct.pack("<I", len(data)) + data
        while data:
            n = os.write(self._w, data)
            data = data[n:]

    def say(self, obj):
        self.send(("msg", obj))

    # in the parent
    def _parse(self):
        while len(self._buf) >= 4:
            n = struct.unpack("<I", self._buf[:4])[0]
            if len(self._buf) < 4 + n:
                return
            self.messages.append(pickle.loads(self._buf[4 : 4 + n]))
            self._buf = self._buf[4 + n :]

    def wait(self, timeout=60):
        """-> "done", "killed" or "hangs"; a violation or error of the child is raised here."""
        end = time.time() + timeout
        state = None
        while True:
            left = end - time.time()
            if left <= 0:
                state = "hangs"
                self.kill()
                break
            ok, _, _ = select.select([self._r], [], [], left)
            if ok:
                data = os.read(self._r, 1 << 16)
                if not data:
                    break
                self._buf += data
                self._parse()
        os.close(self._r)
        if state is None:
            # the pipe is closed: it ends now
            _, self.status = os.waitpid(self.pid, 0)
        last = self.messages[-1] if self.messages else (None, None)
        if state == "hangs":
            return "hangs"
        if last[0] == "violation":
            fail(*last[1])
        if last[0] == "error":
            text, in_repo, short = last[1]
            if in_repo:
                fail(f"{short}\n{text}")
            raise HarnessError(text)
        if last[0] == "done":
            return "done"
        if os.WIFSIGNALED(self.status):
            return "killed"
        raise HarnessError(f"child ended with status {self.status} after {last}")

    def said(self):
        return [m[1] for m in self.messages if m[0] == "msg"]

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except (ProcessLookupError, ChildProcessError):
            pass


def crash_at(n, files, armed=True):
    """Kill this process at the n-th line executed in one of `files`, whatever the thread. -> a function that starts counting"""
    import itertools
    import threading

    counter = itertools.count(1)
    state = [armed]

    def arm():
        state[0] = True

    def local(frame, event, arg):
        if event == "line" and state[0] and next(counter) == n:
            os.kill(os.getpid(), signal.SIGKILL)
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.endswith(files):
            return local
        return None

    threading.settrace(trace)
    sys.settrace(trace)
    return arm


def _first(self, timeout=30, n=0):
    """The first thing the child says (the one after `n` others)."""
    end = time.time() + timeout
    while len(self.said()) <= n:
        ok, _, _ = select.select([self._r], [], [], max(0, end - time.time()))
        data = os.read(self._r, 1 << 16) if ok else b""
        if not data:
            raise HarnessError("the child said nothing")
        self._buf += data
        self._parse()
    return self.said()[n]


Child.first = _first


def jitter(seed, files, share=0.03, longest=0.003):
    """Pause threads at random lines of `files`: more schedules than the system gives by itself."""
    import random
    import threading

    rnd = random.Random(seed)

    def local(frame, event, arg):
        if event == "line" and rnd.random() < share:
            time.sleep(rnd.random() * longest)
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.endswith(files) else None

    threading.settrace(trace)
    sys.settrace(trace)


class _Relay:
    """The ctx of a case that runs in a child."""

    def __init__(self, child, ctx):
        self._child, self._ctx = child, ctx
        self.tier = ctx.tier
        self.seed = ctx.seed

    def nontrivial(self, cond=True):
        if cond:
            self._child.say(("nontrivial",))

    def label(self, name, n=1):
        self._child.say(("label", name))

    def newdir(self, prefix="d"):
        return self._ctx.newdir(prefix)

    def excused(self, key):
        r = key in self._ctx.known
        if r:
            self._child.say(("excused", key))
        return r


def isolated(fn, timeout=60):
    """Run every case in a process of its own: whatever it does to the package is gone afterwards."""

    def run(case, ctx):
        child = Child(lambda c: fn(case, _Relay(c, ctx)))
        state = child.wait(timeout)
        for m in child.said():
            if m[0] == "nontrivial":
                ctx.nontrivial()
            elif m[0] == "label":
                ctx.label(m[1])
            elif m[0] == "excused":
                ctx.excused(m[1])
        if state != "done":
            fail(f"the process {state}")

    return run
