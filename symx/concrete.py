"""Replays harness runs on the unpatched code: one JSON request per line on stdin, one JSON answer per line."""
import io
import json
import os
import sys
import traceback


def tup(x):
    """job parameters are tuples, never lists (JSON keeps no difference)"""
    if isinstance(x, (list, tuple)):
        return tuple(tup(v) for v in x)
    if isinstance(x, dict):
        return {k: tup(v) for k, v in x.items()}
    return x


def wrong_kind(e):
    """the harness stumbled over a result of the wrong kind or shape (None for an array, one value for two, ...);
    names that are not public and call signatures are the harness's own business"""
    t = str(e)
    if isinstance(e, AttributeError):
        return "attribute '_" not in t and "module '" not in t
    if isinstance(e, TypeError):
        return "argument" not in t
    return isinstance(e, (IndexError, KeyError, ValueError))


def run_one(g, mod, fn, params, values):
    from . import load
    from .api import AssumeFail, CheckFail, ConCtx
    import contextlib

    load.restore()
    c = ConCtx(values, g)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            getattr(mod, fn)(c, **params)
        r = {"status": "ok"}
    except CheckFail as e:
        r = {"status": "fail", "label": e.label, "detail": str(e.detail)[:600]}
    except AssumeFail:
        r = {"status": "assume"}
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, load.REPO) if f.filename.startswith(load.REPO) else f.filename}:{f.lineno}:{f.name}" for f in tb]
        # an exception raised by the harness itself, not from the code under test
        own = not any(f.filename.startswith(load.REPO + "/gridded") for f in tb) and not wrong_kind(e)
        r = {"status": "exc", "label": "exception:" + type(e).__name__, "detail": str(e)[:400], "where": where[-4:], "own": own}
    finally:
        c.cleanup()
    r["reached"] = c.reached
    r["obs"] = c.obs
    return r


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from . import load
    import importlib

    out = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(out, "w")
    g = load.load(False)
    mods = {}
    for line in sys.stdin:
        q = json.loads(line)
        m = mods.get(q["mod"])
        if m is None:
            m = mods[q["mod"]] = importlib.import_module("checks." + q["mod"])
        try:
            r = run_one(g, m, q["fn"], tup(q["params"]), q["values"])
        except BaseException as e:  # noqa
            r = {"status": "error", "detail": repr(e)[:400], "reached": 0}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
