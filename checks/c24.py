"""C24: status and log behave as documented.

All sequences of handler operations up to a bound are executed on real handlers, through the C++ and the C interface,
for one handler and for two handlers used alternately; a small state machine predicts status, message, log file name and
the final contents of every log file.  The same is done for the handlers inside query objects."""
import itertools

import numpy as np

from gmg import *

BAD = "/nonexistent-dir/log.txt"


class Model:
    """Reference state machine of one handler."""
    def __init__(self, files):
        self.status, self.msg, self.name, self.target = 0, "", "/dev/null", "/dev/null"
        self.files = files  # shared: path -> text

    def open(self, path, trunc):
        self.target = None
        if path and path not in (BAD, "/dev/null"):
            self.target = path
            if trunc or path not in self.files:
                self.files[path] = ""

    def step(self, op, arg):
        if op == "log":
            self.name = arg
            self.open(arg, True)
        elif op == "logon":
            self.open(self.name if arg else None, False)
        elif op == "reset":
            self.status, self.msg = 0, ""
        elif op == "error":
            self.status, self.msg = ERROR, arg
        elif op == "warning":
            self.status, self.msg = WARNING, arg
        elif op == "message" and self.target in self.files:
            self.files[self.target] += arg


def command(h, op, arg, c):
    if c and op in ("log", "logon", "reset"):
        return T("e.c", h, op, *([] if arg is None else [arg if op == "log" else int(arg)]))
    return T(f"e.{op}", h, *([] if arg is None else [arg if not isinstance(arg, bool) else int(arg)]))


def check(ctx):
    drv = ctx.driver(fast=True)
    w = ctx.work

    def run(seqs, label, handlers):
        """seqs: lists of (handler, op, symbolic arg)."""
        scripts, expect = [], []
        for n, sq in enumerate(seqs):
            files, ms, s, exp = {}, {h: Model({}) for h in handlers}, [], []
            for h in handlers:
                ms[h].files = files
                s.append(T("e.new", h))
                exp.append(["OK"])
            for k, (h, op, arg) in enumerate(sq):
                if op == "log" and arg not in (BAD, ""):
                    arg = str(w / f"{arg}{n}")
                elif op in ("message", "error", "warning") and arg is not None:
                    arg = arg.replace("#", str(k))
                ms[h].step(op, arg)
                s.append(command(h, op, arg, (n + k) % 2))
                exp.append(["OK"])
                for g in handlers:
                    s.append(T("e.c", g, "get") if (n + k) % 3 == 0 else T("e.get", g))
                    exp.append(["OK", str(ms[g].status), ms[g].msg])
                s.append(T("e.c", h, "logname") if (n + k) % 3 else T("e.logname", h))
                exp.append(["OK", ms[h].name])
            for h in handlers:
                s.append(T("e.del", h))
                exp.append(["OK"])
            for path in {m for sq_ in [files] for m in sq_}:
                s += [T("x.read", path), T("x.rm", path)]
                exp += [["OK", files[path]], ["OK", "0"]]
            scripts.append(s)
            expect.append(exp)
        for sq, s, exp, r in zip(seqs, scripts, expect, drv.run(scripts)):
            ctx.traces += 1
            ctx.transitions += len(s)
            ctx.nstates += 1
            for c, a, e in zip(s, r + [["CRASH", "no answer"]] * len(s), exp):
                if list(a) != e:
                    ctx.violation(f"{label} {sq}", f"{label}, operations {[x[1:] if len(handlers) == 1 else x for x in sq]}: {c!r} answered {str(list(a))[:300]}, expected {str(e)[:300]}", {"script": s})
                    break
            if len(r) > len(s):
                ctx.violation(f"{label} {sq} end", f"{label}, {sq}: {r[-1]}", {"script": s})

    big = "m" * 9000 + "#\n"
    ops = [("log", "A"), ("log", "B"), ("log", BAD), ("logon", True), ("logon", False), ("message", "<#>\n"), ("reset", None), ("error", "E#"), ("warning", "W#")]
    more = ops + [("log", ""), ("message", big), ("message", "no newline #"), ("error", "")]
    depth = 5 if ctx.quick else 6
    # operations on the log only, deeper; with status operations, less deep
    logops = [o for o in more if o[0] in ("log", "logon", "message")]
    fam = itertools.chain(*[itertools.product(logops[:6] if n > 4 else logops, repeat=n) for n in range(1, depth + 1)])
    run([[("a",) + o for o in sq] + [("a", "message", "last#")] for sq in fam], "log operations", ["a"])
    fam = itertools.chain(*[itertools.product(more, repeat=n) for n in range(1, (3 if ctx.quick else 4) + 1)])
    run([[("a",) + o for o in sq] for sq in fam], "all operations", ["a"])
    ops2 = [(h,) + o for h, f in (("a", "A"), ("b", "B")) for o in [("log", f), ("logon", False), ("logon", True), ("message", h + "#\n"), ("error", h + "#"), ("reset", None)]]
    # every interleaving; the first operation on handler a without loss of generality
    fam = [sq for n in range(2, (4 if ctx.quick else 5) + 1) for sq in itertools.product(ops2, repeat=n) if sq[0][0] == "a" and any(x[0] == "b" for x in sq)]
    run([list(sq) for sq in fam], "two handlers", ["a", "b"])
    ctx.sample("log A, message, logging off, message, logging on, message: A holds the first and third")
    in_queries(ctx, drv)
    ctx.notes.update(rule="state = operation sequence", driver_commands=drv.commands)


def in_queries(ctx, drv):
    """Handlers inside query objects (C interface, which logs): all interleavings of operations on two queries."""
    w = ctx.work
    rng = np.random.default_rng(3)
    spec = ModelSpec((100.0, 100.0, 50.0), [BlockSpec("b", Axis(2, 100.0), Axis(2, 100.0), Axis(2, 50.0), 0.0, rng.random((2, 2, 2, 2)))])
    p = spec.write(str(w / "m.h5"))
    ops = ["in", "out", "top", "topo", "squash", "reset", "log", "off", "on", "final"]
    cmds = {"in": lambda q, n: T("c.query", q, 10, 10, -10), "out": lambda q, n: T("c.query", q, 500 + (q == "b"), 10, -10), "top": lambda q, n: T("c.top", q, -500, 3), "topo": lambda q, n: T("c.topo", q, -600, 4), "squash": lambda q, n: T("c.squash", q, "99"),
            "reset": lambda q, n: T("c.reset", q), "log": lambda q, n: T("c.log", q, str(w / f"q{q}{n}")), "off": lambda q, n: T("c.logon", q, 0), "on": lambda q, n: T("c.logon", q, 1), "final": lambda q, n: T("c.final", q)}
    depth = 3 if ctx.quick else 4
    single = {}
    seqs = [sq for n in range(1, depth + 1) for sq in itertools.product(ops, repeat=n)]

    def script(sq, n, qs):
        s = []
        for q in qs:
            s += [T("c.new", q), T("c.init", q, "EPSG:3311", *L([p]), *L(["one"])), T("c.log", q, str(w / f"q{q}{n}"))]
        for q, o in sq:
            s.append(cmds[o](q, n))
            for g in qs:
                s.append(T("c.err", g))
        for q in qs:
            s.append(T("c.del", q))
        for q in qs:
            s += [T("x.read", str(w / f"q{q}{n}")), T("x.rm", str(w / f"q{q}{n}"))]
        return s
    # a single query: the log and the status follow the documented behaviour
    scripts = [script([("a", o) for o in sq], n, ["a"]) for n, sq in enumerate(seqs)]
    for sq, s, r in zip(seqs, scripts, drv.run(scripts)):
        ctx.traces += 1
        ctx.transitions += len(s)
        ctx.nstates += 1
        status, on, text, msg, dead = 0, True, "", "", False
        prob = None
        for k, o in enumerate(sq):
            e = r[3 + 2 * k + 1]
            if o == "reset":
                status, msg = 0, ""
            elif o == "log":
                on, text = True, ""
            elif o in ("on", "off"):
                on = o == "on"
            elif o == "final":
                dead = True
            elif o == "squash":
                status, msg = ERROR, None
            elif o in ("out", "top", "topo") or dead and o == "in":
                status, msg = (ERROR if dead and o not in ("top", "topo") else WARNING), None
                # the message logged is the message set, or nothing is logged for a misuse
                if e[0] == "OK" and not (dead and o not in ("top", "topo")):
                    if on:
                        text += e[2]
                    where = ("-5.0", "3.0") if o == "top" else ("-6.0", "4.0") if o == "topo" else ("5.0", "1.0", "-1.0")
                    if not e[2].startswith("WARNING") or not all(x in e[2] for x in where):
                        prob = f"message after {o} is {e[2]!r}"
            if e[0] != "OK" or e[1] != str(status) or (msg is not None and e[2] != msg) or (msg is None and not e[2]):
                prob = f"after {o} (step {k}) status and message are {list(e)}, expected status {status}"
            if prob:
                break
        if not prob and r[-2][1] != text:
            prob = f"log file holds {r[-2][1]!r}, expected {text!r}"
        if prob:
            ctx.violation(f"query {sq}", f"query through C, operations {sq}: {prob}", {"script": s, "files": [p]})
        single[sq] = ([x for x in r[3:3 + 2 * len(sq)]], r[-2][1])
    # two queries: each as if alone
    pairs = [(x, y) for x in itertools.product(ops, repeat=2) for y in itertools.product(ops, repeat=2)]
    inter = [(0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 0, 1, 0), (1, 1, 0, 0)]
    if ctx.quick:
        inter = inter[1:4]
    fam = []
    for x, y in pairs:
        for o in inter:
            it = {0: iter(x), 1: iter(y)}
            fam.append((x, y, [("ab"[i], next(it[i])) for i in o]))
    scripts = [script(f[2], n, ["a", "b"]) for n, f in enumerate(fam)]
    for (x, y, sq), s, r in zip(fam, scripts, drv.run(scripts)):
        ctx.traces += 1
        ctx.transitions += len(s)
        ctx.nstates += 1
        for q, alone in (("a", x), ("b", y)):
            ref, text = single[alone]
            k = 0
            last = ["OK", "0", ""]
            fixq = lambda t: t.replace("5.010000e+02", "5.000000e+02")
            for j, (h, o) in enumerate(sq):
                e = r[6 + 3 * j + (1 if q == "a" else 2)]
                if h == q:
                    last = [fixq(v) for v in ref[2 * k + 1]]
                    k += 1
                if [fixq(v) for v in e] != last:
                    ctx.violation(f"queries {sq} {q}", f"two queries, operations {sq}: after step {j} handler {q} has {list(e)}, alone {last}", {"script": s, "files": [p]})
                    break
            t = r[-4 if q == "a" else -2]
            if fixq(t[1]) != fixq(text):
                ctx.violation(f"queries {sq} {q} log", f"two queries, operations {sq}: log of {q} is {t[1]!r}, alone {text!r}", {"script": s, "files": [p]})
