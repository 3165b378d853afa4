"""C21: the exit status and messages tell the truth."""
from vlib import faults, view
from vlib.check import Violation
from vlib.world import Opts

ID, LEVEL = "C21", "fault_enumeration"
TECHNIQUE = "runtime monitoring: enumeration of every error at every system call of real runs, exit status judged against the published state"
NOTE = "For every enumerated error (no space, I/O, permission, short and partial writes, failing reads) at every operation of the prepared runs: status 0 only with the right content published, otherwise a message."
RULE = ("One case is one run with one injected error. Distinct: (scenario, operation kind, number of the operation, error, outcome).")
ASSUMPTIONS = ["errors are those of open, write, copy, rename, mkdir, unlink, symlink, time stamps, and (separately) opening and reading files"]


def tasks(tier, seed):
    v = 1 if tier == "quick" else 6
    for name in faults.NAMES:
        for variant in range(v):
            for part in range(4):
                yield "enumerate_faults", dict(name=name, variant=variant, part=part, parts=4, reads=False)
            yield "enumerate_faults", dict(name=name, variant=variant, part=0, parts=1 if tier != "quick" else 3, reads=True)


def enumerate_faults(ctx, name, variant, part, parts, reads):
    c = faults.build(ctx, name, variant, ctx.seed)
    w, o = c.w, c.o
    base = w.must(o, observe=False, reads=reads)
    c.right()
    ctx.count("operations", len(base.events))
    done = set()
    for n, ev in enumerate(base.events, 1):
        if n % parts != part:
            continue
        ks = faults.read_kinds(ev) if reads else [k for k in faults.kinds(ev) if k[0] not in "kKp"]
        if reads and (ev.op, ev.path) in done:
            ks = ks[:1]
        done.add((ev.op, ev.path))
        for k in ks:
            c.reset()
            w.log.append("fault %s at %d: %s %s" % (k, n, ev.op, ev.path))
            r = w.run(o, fault={n: k}, observe=False, reads=reads)
            out = "ok" if r.rc == 0 else "failed"
            if r.rc == 0:
                try:
                    c.right()
                except Violation as e:
                    raise e.wrap("a run in which '%r' fails with %s exits with status 0, but: %s" % (ev, k, e.msg), log=w.log[-6:])
            elif r.rc != 1:
                raise Violation("a run in which '%r' fails with %s ends with %s" % (ev, k, r.brief()), log=w.log[-6:])
            elif not r.err.strip():
                raise Violation("a run in which '%r' fails with %s exits with status 1 without any message on standard error" % (ev, k), log=w.log[-6:])
            ctx.count("faults_" + out)
            ctx.case((name, variant, reads, ev.op, n, k, out), dict(scenario=name, operation=repr(ev).replace(w.root, ""), fault=k, outcome=out, message=r.err[:120]) if n % 7 == 0 and k == ks[0] else None)
            # what a run that failed did is not reported as done by the next one
            if r.rc != 0 and (n + len(k)) % 3 == 0:
                r2 = w.run(o, observe=False)
                if r2.rc == 0:
                    try:
                        c.right()
                    except Violation as e:
                        raise e.wrap("after a run in which '%r' failed with %s the next run exits with status 0, but: %s" % (ev, k, e.msg), log=w.log[-6:])
                ctx.count("follow_ups")
