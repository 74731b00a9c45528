"""Runs sessions of the real code and records them; judges nothing.
sessdriver.py JOB OUT.  JOB (JSON): {"calls": [[f, lang, text]...], "sessions": [...], "mode": "sessions"|"batch"}
A session: {"threads": [[call...]...], "sched": null | [[thread, share]...], "opcodes": bool, "noise": bool}
  sched null: the threads run one after the other (one thread: a plain history)
  sched: a list of [thread, start]; start is a call (it begins) or 0 (the next segment of its work)
  "free": the threads run freely with a very small switch interval
Each session runs in a forked child: a process in which nothing was called before."""
import json, os, select, signal, sys, threading, time

REPO = os.environ.get("NP_REPO", "/repo")
sys.path.insert(0, REPO)
import number_parser as np_  # noqa: E402

PKG = os.path.dirname(os.path.realpath(np_.__file__)) + os.sep
if not PKG.startswith(os.path.realpath(REPO) + os.sep):
    sys.exit("number_parser was not imported from " + REPO)
FUNCS = {"parse": np_.parse, "num": np_.parse_number, "ord": np_.parse_ordinal, "frac": np_.parse_fraction}


def do(c):
    f, lang, text = c
    try:
        r = FUNCS[f](text) if lang is None else FUNCS[f](text, lang)
    except BaseException as e:  # noqa: B902
        return "exc:" + ("ValueError" if isinstance(e, ValueError) else type(e).__name__)
    if r is None:
        return "none"
    if isinstance(r, bool) or not isinstance(r, (int, str)):
        return "other:" + type(r).__name__
    return ("int:" if isinstance(r, int) else "str:") + ascii(str(r))


def counted(c, opcodes):
    """number of trace events of the call"""
    n = [0]

    def tr(frame, ev, arg):
        if not frame.f_code.co_filename.startswith(PKG) or frame.f_code.co_name == "<module>":
            return None
        frame.f_trace_opcodes = opcodes

        def loc(frame, ev, arg):
            if ev == ("opcode" if opcodes else "line"):
                n[0] += 1
            return loc
        return loc
    sys.settrace(tr)
    try:
        do(c)
    finally:
        sys.settrace(None)
    return n[0]


class Sched:
    """Hands a baton from thread to thread; a thread runs until its allowance of trace events is used up."""

    def __init__(self, calls, threads, opcodes, log):
        self.calls, self.log, self.opcodes = calls, log, opcodes
        self.sem = [threading.Semaphore(0) for _ in threads]
        self.allow = [0] * len(threads)
        self.back = threading.Semaphore(0)
        self.done = [False] * len(threads)
        self.inside = [False] * len(threads)
        self.ths = [threading.Thread(target=self.body, args=(i, t), daemon=True) for i, t in enumerate(threads)]
        for t in self.ths:
            t.start()

    def step(self, i):
        self.allow[i] -= 1
        if self.allow[i] < 0:
            self.back.release()
            self.sem[i].acquire()

    def body(self, i, ids):
        def loc(frame, ev, arg):
            if ev == ("opcode" if self.opcodes else "line"):
                self.step(i)
            return loc

        def tr(frame, ev, arg):
            if not frame.f_code.co_filename.startswith(PKG) or frame.f_code.co_name == "<module>":
                return None
            frame.f_trace_opcodes = self.opcodes
            return loc
        for c in ids:
            self.sem[i].acquire()
            self.log.append(("start", i + 1, c, ""))
            sys.settrace(tr)
            try:
                r = do(self.calls[c - 1])
            finally:
                sys.settrace(None)
            self.log.append(("ret", i + 1, c, r))
            self.inside[i] = False
            self.back.release()
        self.done[i] = True

    def run(self, plan):
        """plan: [[thread, events]...]"""
        for i, n in plan:
            if self.done[i]:
                continue
            self.allow[i] = n
            self.sem[i].release()
            if not self.back.acquire(timeout=2.0):
                continue          # it waits for something another thread holds: go on with the others


def free(calls, threads, log):
    sys.setswitchinterval(1e-6)
    gate = threading.Barrier(len(threads))

    def body(i, ids):
        gate.wait()
        for c in ids:
            log.append(("start", i + 1, c, ""))
            r = do(calls[c - 1])
            log.append(("ret", i + 1, c, r))
    ths = [threading.Thread(target=body, args=(i, t), daemon=True) for i, t in enumerate(threads)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(60)


def noise(k):
    """things a process may do between calls"""
    import gc, locale, random
    if k % 5 == 0:
        try:
            locale.setlocale(locale.LC_ALL, "C.UTF-8" if k % 2 else "C")
        except locale.Error:
            pass
    elif k % 5 == 1:
        os.chdir("/" if k % 2 else REPO)
    elif k % 5 == 2:
        random.seed(k)
        gc.collect()
    elif k % 5 == 3:
        import importlib
        importlib.import_module("number_parser.data." + ("fr", "de", "hi", "uk")[k % 4])
    else:
        sys.setswitchinterval(0.001 * (1 + k % 7))


def session(calls, s, log):
    if s.get("free"):
        free(calls, s["threads"], log)
    elif s.get("plan"):
        sc = Sched(calls, s["threads"], s.get("opcodes", False), log)
        sc.run(s["plan"])
        end = time.time() + 30
        while not all(sc.done) and time.time() < end:     # the rest, in order
            for i in range(len(s["threads"])):
                if not sc.done[i]:
                    sc.allow[i] = 10 ** 9
                    sc.sem[i].release()
            time.sleep(0.002)
    else:
        for i, ids in enumerate(s["threads"]):
            for k, c in enumerate(ids):
                if s.get("noise") and k % 3 == 2:
                    noise(k // 3 + i)
                log.append(("start", i + 1, c, ""))
                log.append(("ret", i + 1, c, do(calls[c - 1])))


def forked(fn, limit=90):
    """runs fn() in a child, returns what it returns (JSON), or None if it did not finish"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf, end = b"", time.time() + limit
    while True:
        ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return None


def main():
    job = json.load(open(sys.argv[1]))
    calls = job["calls"]
    with open(sys.argv[2], "w") as out:
        if job["mode"] == "refs":         # each call in a process of its own
            for c in calls:
                out.write(json.dumps(forked(lambda: do(c), 30) or "hang") + "\n")
        elif job["mode"] == "count":
            for c in calls:
                out.write(json.dumps(forked(lambda: [counted(c, False), counted(c, True)], 60) or [1, 1]) + "\n")
        elif job["mode"] == "batch":      # all calls in this very process
            log = []
            session(calls, {"threads": [list(range(1, len(calls) + 1))]}, log)
            out.write(json.dumps(log) + "\n")
        else:
            for s in job["sessions"]:
                def child():
                    log = []
                    session(calls, s, log)
                    return list(log)
                out.write(json.dumps(forked(child) or []) + "\n")


main()
