"""Discharging obligations: z3, then cvc5 (through SMT-LIB) on what z3 leaves open."""
import time
import z3

RLIMIT = 20_000_000
TIMEOUT = 90_000


def solver(timeout=TIMEOUT, rlimit=RLIMIT):
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("rlimit", rlimit)
    s.set("smt.array.extensional", False)    # weaker theory: nothing here compares whole arrays
    return s


def check(s, want_model=False, hard=None):
    """s.check() in a forked child, so that a crash of the solver costs one query -> ("unsat" | "sat" | "unknown" | "crash", text)"""
    import os
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            res = str(s.check())
            m = str(s.model())[:1500] if want_model and res == "sat" else ""
            os.write(w, (res + "\n" + m).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    end = time.time() + (hard or 200)
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    if not out:
        return "crash", ""
    a, _, m = out.decode(errors="replace").partition("\n")
    return a, m


def prove(eng, nfacts, pc, goal, timeout=30_000, rlimit=4_000_000):
    """Used for candidate invariants: True iff proved."""
    goal = z3.simplify(goal) if z3.is_expr(goal) else goal
    if z3.is_true(goal):
        return True
    eng.houdini_stats[0] += 1
    t = time.time()
    s = solver(timeout * max(1, eng.unit.effort // 2), rlimit * eng.unit.effort)
    s.add(*eng.facts[:nfacts])
    s.add(pc, z3.Not(goal))
    r, _ = check(s)
    if r == "crash":
        s.set("random_seed", 11)
        r, _ = check(s)
    dt = time.time() - t
    eng.solver_time += dt
    if eng.unit.debug and (dt > 1 or eng.unit.debug > 1):
        print("   houdini %.2fs %s %s" % (dt, r, str(goal)[:150].replace("\n", " ")))
    return r == "unsat"


def discharge(facts, pc, goal, timeout=TIMEOUT, rlimit=RLIMIT, use_cvc5=True):
    """-> (status, backend, model/None, seconds); status in proved / refuted / unknown"""
    t = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g) or z3.is_false(z3.simplify(pc)):
        return "proved", "simplifier", None, time.time() - t
    s = solver(timeout, rlimit)
    s.add(*facts)
    s.add(pc, z3.Not(goal))
    r, model = check(s, True)
    if r == "crash":
        s.set("random_seed", 11)
        r, model = check(s, True)
    if r == "unsat":
        return "proved", "z3", None, time.time() - t
    if r == "sat":
        return "refuted", "z3", model, time.time() - t
    # again with fewer hypotheses: of the quantified facts only those of the last program points
    for last in (45, 70, 100):
        if len(facts) > last:
            s2 = solver(8_000, 4_000_000)
            s2.set("mbqi", False)
            s2.add(*[f for i, f in enumerate(facts) if i >= len(facts) - last or not has_quantifier(f)])
            s2.add(pc, z3.Not(goal))
            if check(s2)[0] == "unsat":
                return "proved", "z3", None, time.time() - t
    if use_cvc5:
        st = cvc5_check(s.to_smt2(), timeout)
        if st == "unsat":
            return "proved", "cvc5", None, time.time() - t
    return "unknown", "z3+cvc5", None, time.time() - t


def has_quantifier(e, seen=None):
    seen = set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def cvc5_check(smt2, timeout):
    import os
    import subprocess
    import tempfile
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        os.write(fd, ("(set-logic ALL)\n" + smt2).encode())
        os.close(fd)
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, p], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)
