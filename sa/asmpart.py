"""The part of a property that the assembly engine has to keep: selected groups of obligations over its handlers."""
import panics
import report
from asmcheck import *


def engines(ctx, p):
    r = []
    for E in (X64Engine, A64Engine):
        try:
            r.append(E(p, ctx))
        except Unsupported as e:
            ctx.und(E.name + " engine", e)
    return r


def handlers(ctx, p, groups, ops=None, traces=None, engs=None):
    """obligations of `groups` for the handlers of `ops` (default: all) and of `traces` for block transitions"""
    if panics.ON:
        return
    trials = 2000 if ctx.thorough else 300
    for eng in engs if engs is not None else engines(ctx, p):
        todo = [op for op in eng.ops if spec.form(op) is not None and op not in ("CUSTOM_TRACE_END", "CUSTOM_ASM_TRACE_JUMP")
                and (ops is None or ops(op))]

        def one(c, op):
            try:
                judge_op(c, eng, op, c.seed, trials, groups)
            except Unsupported as e:
                c.und(eng.name + " " + op, e)
        if groups:
            report.pmap(ctx, one, todo)
            ctx.extra.setdefault("assembly_handlers", {})[eng.name] = len(todo)
        if traces:
            try:
                judge_traces(ctx, eng, ctx.seed, trials, traces)
            except Unsupported as e:
                ctx.und(eng.name + " block transitions", e)
