"""Runs a plan of calls against the repository's Python wrapper, and writes what each returned.

driver.py PACKAGE_PARENT PLAN OUT
"""
import ctypes
import gc
import io
import json
import pathlib
import sys
import threading

sys.path.insert(0, sys.argv[1])
import snips_nlu_rust  # noqa: E402

libc = ctypes.CDLL(None)


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


libc.mallinfo2.restype = Info


def used():
    gc.collect()
    i = libc.mallinfo2()
    return i.uordblks + i.hblkhd


def value(v):
    if isinstance(v, dict) and "__bytes__" in v:
        return v["__bytes__"].encode("utf8")
    if isinstance(v, dict) and "__path__" in v:
        return pathlib.Path(v["__path__"])
    if isinstance(v, dict) and "__file__" in v:
        with io.open(v["__file__"], "rb") as f:
            return bytearray(f.read())
    if isinstance(v, dict):
        return {k: value(x) for k, x in v.items()}
    if isinstance(v, list):
        return [value(x) for x in v]
    return v


engines = {}


def run(step):
    args = [value(a) for a in step.get("args", [])]
    kwargs = {k: value(a) for k, a in step.get("kwargs", {}).items()}
    keep = json.dumps([repr(args), repr(kwargs)])
    try:
        if step["do"] == "new":
            engines[step["as"]] = None
            engines[step["as"]] = snips_nlu_rust.NLUEngine(*args, **kwargs)
            r = {"ok": None}
        else:
            r = {"ok": getattr(engines[step["on"]], step["do"])(*args, **kwargs)}
            json.dumps(r, allow_nan=True)
    except Exception as e:
        r = {"error": {"mro": [t.__name__ for t in type(e).__mro__], "message": str(e)}}
    if json.dumps([repr(args), repr(kwargs)]) != keep:
        r["changed"] = True
    return r


def execute(step):
    what = step["do"]
    if what == "del":
        engines[step["on"]] = None
        gc.collect()
        return {"ok": None}
    if what == "leak":
        marks = [used()]
        for _ in range(step["rounds"]):
            for _ in range(step["n"]):
                run(step["step"])
                if step["step"]["do"] == "new":
                    engines[step["step"]["as"]] = None
            marks.append(used())
        return {"growth": [b - a for a, b in zip(marks, marks[1:])]}
    if what == "threads":
        out = [None] * len(step["steps"])
        gate = threading.Barrier(len(step["steps"]))

        def work(i):
            gate.wait()
            out[i] = [run(s) for s in step["steps"][i]]
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(out))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return {"threads": out}
    return run(step)


with io.open(sys.argv[2], encoding="utf8") as f:
    plan = json.load(f)
with io.open(sys.argv[3], "w", encoding="utf8") as f:
    for step in plan:
        f.write(json.dumps(execute(step)) + "\n")
        f.flush()
    engines.clear()
    gc.collect()
    f.write("\"end\"\n")
