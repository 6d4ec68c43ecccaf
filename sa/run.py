#!/usr/bin/env python3
"""run.py <property>: decide one property from /repo's current source."""
import ctypes
import importlib
import os
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)


def main():
    prop = sys.argv[1]
    import report
    rc = [2]

    def go():
        ctx = None
        try:
            m = importlib.import_module("checks." + prop.lower())
            ctx = report.Ctx(prop, getattr(m, "LEVEL", "other"))
            m.run(ctx)
            rc[0] = ctx.finish()
        except Exception:
            traceback.print_exc()
            rc[0] = 2
            if ctx and (ctx.obs or ctx.viol):
                # the source could be read; what this construct does is left open
                ctx.und("remaining obligations", traceback.format_exc()[-300:])
                rc[0] = ctx.finish()
    t = threading.Thread(target=go)
    t.start()
    while True:
        t.join(2)
        if not t.is_alive():
            break
        if time.time() - report.START > report.RUN_LIMIT + 120:
            report.START += 60
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(report.OutOfTime))
    sys.stdout.flush()
    sys.exit(rc[0])


if __name__ == "__main__":
    main()
