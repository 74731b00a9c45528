"""Runs the data script in a scratch tree, and reads language modules.
datadriver.py run TREE ORDER STOP CWD   (ORDER: seed of the directory order, 0 = as it is; STOP: stop at that write, 0 = never)
datadriver.py read OUT DIR [DIR...]    (the tables of every module in the directories, as code points and digits)"""
import json, os, random, sys


class Stopped(BaseException):
    pass


def run(tree, order, stop, cwd):
    import builtins, io, runpy
    os.chdir(cwd)
    listdir, opened = os.listdir, io.open
    if order:
        rnd = random.Random(order)

        def shuffled(*a):
            x = sorted(listdir(*a))
            rnd.shuffle(x)
            return x
        scandir = os.scandir

        class Scan:
            def __init__(self, *a):
                with scandir(*a) as it:
                    self.x = sorted(it, key=lambda e: e.name)
                rnd.shuffle(self.x)
                self.i = iter(self.x)

            def __iter__(self):
                return self.i

            def __next__(self):
                return next(self.i)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass
        os.listdir, os.scandir = shuffled, Scan
    data = os.path.realpath(os.path.join(tree, "number_parser", "data"))
    count = [0]

    def watched(file, mode="r", *a, **k):
        f = opened(file, mode, *a, **k)
        if stop and any(m in mode for m in "wax+") and isinstance(file, (str, os.PathLike)) and os.path.realpath(file).startswith(data):
            count[0] += 1
            if count[0] == stop:
                f.write(b"info = {" if "b" in mode else "info = {")
                f.close()
                raise Stopped()
        return f
    if stop:
        builtins.open = io.open = watched
    sys.stdout = opened(os.devnull, "w")
    import logging
    logging.disable(logging.CRITICAL)
    sys.argv = ["write_complete_language_data.py"]
    try:
        runpy.run_path(os.path.join(tree, "number_parser_scripts", "write_complete_language_data.py"), run_name="__main__")
    except Stopped:
        pass


TABLES = ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]


def digits(v):
    return [int(c) for c in str(v)] if type(v) is int and v >= 0 else [-1]


def cps(s):
    return [ord(c) for c in s] if type(s) is str else [-1]


def read(path):
    try:
        text = open(path, encoding="utf8").read()
    except FileNotFoundError:
        return {"state": "absent"}
    ns = {}
    try:
        exec(compile(text, path, "exec"), ns)
        info = ns["info"]
        out = {"state": "written", "extra": sorted(k for k in info if k not in TABLES + ["SKIP_TOKENS", "USE_LONG_SCALE"])}
        for t in TABLES:
            out[t] = [[cps(w), digits(v)] for w, v in info[t].items()]
        out["SKIP_TOKENS"] = [cps(w) for w in info["SKIP_TOKENS"]]
        x = info.get("USE_LONG_SCALE", "absent")
        out["LONG"] = {True: "true", False: "false", "absent": "absent"}[x] if type(x) in (bool, str) else repr(x)
        return out
    except Exception as e:
        return {"state": "unreadable: " + repr(e)[:200], "text": text[:80]}


if __name__ == "__main__":
    if sys.argv[1] == "run":
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
    else:
        res = {}
        for d in sys.argv[3:]:
            res[d] = {n[:-3]: read(os.path.join(d, n)) for n in os.listdir(d) if n.endswith(".py") and n != "__init__.py"}
        json.dump(res, open(sys.argv[2], "w"))
