"""helpers shared by the symbolic worker and the native (concrete) runner"""

from __future__ import annotations

import importlib
import os
import signal
import sys
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_harness(ref):
    mod, fn = ref.split(":")
    m = importlib.import_module("props." + mod)
    return getattr(m, fn)


def exc_origin(e):
    """'code' when the exception was raised inside recap / a library it called,
    'harness' when the last project frame is the harness itself"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/recap/" in fn and "/verif/" not in fn:
            last = "code"
        elif fn.startswith(VERIF + "/props"):
            last = "harness"
        tb = tb.tb_next
    return last or "harness"


def exc_text(e):
    try:
        return f"{type(e).__name__}: {e}"
    except BaseException:
        return type(e).__name__


def plain(v):
    """JSON-comparable form of an observation (no symbolic leaves)"""
    if isinstance(v, dict):
        return {"__dict__": sorted(([plain(k), plain(x)] for k, x in v.items()), key=repr)}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {"__set__": sorted((plain(x) for x in v), key=repr)}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return f"<{type(v).__name__}>"


HANG_S = 20.0  # of processor time: concrete runs take milliseconds


class Hang(core.Control):
    """a concrete run did not come to an end"""


def _hang(signum, frame):
    raise Hang()


def run_concrete(ref, params, assign):
    """run a harness natively on one assignment -> dict"""
    cx = core.ConcreteCtx(assign)
    out = {"violation": None, "obs": None, "skipped": False, "error": None}
    fn = load_harness(ref)
    signal.signal(signal.SIGVTALRM, _hang)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, HANG_S)
        try:
            fn(cx, **params)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Hang:
        out["violation"] = "the call does not come to an end"
        out["trace"] = traceback.format_exc()[-2000:]
        out["hang"] = True
    except core.StopPath:
        pass
    except core.Infeasible:
        out["skipped"] = True
    except core.Control as e:
        out["error"] = f"{type(e).__name__}: {e}"
    except Exception as e:
        if exc_origin(e) == "code":
            out["violation"] = "unexpected exception " + exc_text(e)
            out["trace"] = traceback.format_exc()[-2000:]
        else:
            # the harness reads results through the public API only: a result
            # it cannot read is not what the property describes
            out["violation"] = "a result does not have the expected form: " + exc_text(e)
            out["trace"] = traceback.format_exc()[-2000:]
    if cx.violation is not None:
        out["violation"] = cx.violation
    try:
        out["obs"] = [[l, plain(v)] for l, v in cx.obs]
    except Exception as e:  # pragma: no cover
        out["error"] = "observation: " + exc_text(e)
    out["fatal"] = False
    return out
