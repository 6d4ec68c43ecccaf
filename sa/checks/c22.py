"""C22: wrapping layers forward every operation."""
from facts import Program
import report
import wrap

LEVEL = "other"


def run(ctx):
    p = Program()
    trials = 3000 if ctx.thorough else 800
    jobs = [("fwd",) + j for j in wrap.jobs(p)]
    jobs += [("acc", asm, m) for asm in (False, True) for m in wrap.ACCESS]
    jobs += [("inh",) + j for j in wrap.INHERENT]
    jobs += [("accm", m, "machine::asm::AsmMachine::set_max_cycles") for m in wrap.ACCESS if m[0] == "set_max_cycles"] + [("one",)]
    jobs += [("fwd", l, "machine::trace::TraceMachine", s, tr, m) for l, s, tr, m in wrap.ecalls(p)]

    def one(c, j):
        if j[0] == "fwd":
            layer, ty, spec, tr, nm = j[1:]
            wrap.forwards(c, p, layer, ty, spec, tr, nm, trials, layer == "permission memory" and nm in wrap.CHECKED)
        elif j[0] == "acc":
            wrap.access(c, p, j[1], j[2])
        elif j[0] == "accm":
            wrap.access(c, p, True, j[1], j[2])
        elif j[0] == "one":
            f = p.fn("machine::trace::TraceMachine::<Inner>::set_max_cycles")
            n = "trace machine::set_max_cycles"
            wrap.one(c, p, n, f, wrap.LAYERS[1][2], "machine::SupportMachine", "set_max_cycles", trials) if f else c.und(n, "not found")
        else:
            layer, path, spec, target = j[1:]
            wrap.inherent(c, p, layer, path, spec, target, trials)
    report.pmap(ctx, one, jobs)
    ctx.explanation = ("Each method of each wrapper (default machine, trace machine, permission memory, block decoders) is evaluated symbolically from its MIR with an opaque wrapped "
                       "object: every call on that object is an event with a fresh result. The event must be the same method with the same arguments, once, and the result must be that "
                       "call's result; methods that check first must do nothing when they refuse. The accessors of the two machines at the bottom read and write exactly the field they name.")
    ctx.rules = ["one call of the method of the same name on the wrapped object, same arguments, result returned unchanged", "a refused operation makes no state-changing call",
                 "the wrapper's own fields stay as they were", "accessors of DefaultCoreMachine and AsmCoreMachine: set, get and frame"]
    ctx.trusted = ["rustc MIR construction", "sa/prims.py, sa/memworld.py", "pure queries (memory_size, fetch_flag, pc, version, ...) do not change the wrapped object"]
