"""Starts a recorder, with or without the JIT compiler (both are supported ways of running the library)."""
import gc
import os
import runpy
import sys
if os.environ.get("VERIF_JIT") != "1":
    sys.modules["numba"] = None          # the library then falls back to plain Python
gc.collect = lambda *a, **k: 0                # the library collects garbage after every call; no bearing on results
if os.environ.get("VERIF_COV"):               # which lines of the library the recorders reach (tools/reach.py)
    import atexit, json, uuid
    seen, mon = set(), sys.monitoring
    mon.use_tool_id(1, "reach")

    def line(code, n):
        if "/inflation/" in code.co_filename:
            seen.add((code.co_filename.rsplit("/inflation/", 1)[1], n))
        return mon.DISABLE
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    atexit.register(lambda: json.dump(sorted(seen), open(os.path.join(os.environ["VERIF_COV"], uuid.uuid4().hex), "w")))
name = sys.argv[1]
sys.argv = [name] + sys.argv[2:]
runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py"), run_name="__main__")
