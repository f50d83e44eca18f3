"""C02: no native failure terminates the interpreter; each becomes the right Python exception."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import Check, main, AnalysisBroken
import cpp
from exflow import ExFlow, norm

# what a translator must turn each library exception into (README/docstrings: a timeout, a keyboard
# interrupt, bad parameters, failed initialization, an internal inconsistency)
MAP = {
    "find_embedding::TimeoutException": "PyExc_TimeoutError",
    "find_embedding::ProblemCancelledException": "PyExc_KeyboardInterrupt",
    "find_embedding::CorruptParametersException": "PyExc_ValueError",
    "find_embedding::BadInitializationException": "PyExc_RuntimeError",
    "find_embedding::CorruptEmbeddingException": "PyExc_AssertionError",
}


def cname(f):
    return re.sub(r"\(lambda at [^)]*\)", "lambda", re.sub(r"\(unnamed [^)]*\)", "anon", f.p))


def run():
    c = Check("C02", "exception-flow analysis",
              "Interprocedural exception flow over clang's resolved program of both Cython extensions "
              "(generated C++ plus every header they include). For every function Cython generates, the set of "
              "exception types that can leave it must be empty; destructors, noexcept functions and thread "
              "entries must not leak; the exception translator must map every type it can receive.",
              ["only allocation by new-expressions and allocating std container calls inside the library is "
               "modelled as raising bad_alloc", "std functions other than at(), sto*, async/thread, future::get "
               "and allocation are assumed not to throw"])
    c.rule("no-escape-generated", "no exception escapes a C++ function generated by Cython into the interpreter")
    c.rule("guarded-call", "each call from generated code to a library function that can throw is inside try/catch(...)")
    c.rule("no-escape-noexcept", "no exception escapes a destructor or noexcept function")
    c.rule("no-escape-thread", "no exception other than allocation failure escapes a task run on another thread "
                               "unless its future is read with get()")
    c.rule("translator-total", "the exception translator lets nothing escape, whatever was thrown")
    c.rule("translator-maps", "each library exception is translated to its Python counterpart")
    c.rule("no-terminate", "native code never calls a process-terminating function")
    ntrans = 0
    for unit in cpp.UNITS:
        P = cpp.program(unit)
        E = ExFlow(P)
        c.count("functions", len(P.funcs))
        for f in P.funcs.values():
            gen = f.file.endswith("(generated)")
            if gen and f.p.startswith("__pyx_"):
                ty = E.esc[f.id]
                c.ob("no-escape-generated", unit + ":" + f.p, not ty, f.at(),
                     "; ".join("%s thrown at %s" % (t, w) for t, w in sorted(ty, key=str)))
                # call sites of throwing library functions
                for n, ts in P.calls(f):
                    r = E.raised_at(f, n)
                    if not r:
                        continue
                    tgt = ts[0].p if ts else "?"
                    if ts and ts[0].file.endswith("(generated)"):
                        continue
                    left = E.filter(r, n)
                    c.count("guarded call sites")
                    c.ob("guarded-call", "%s:%s -> %s" % (unit, f.p, tgt), not left, n.at(),
                         "; ".join("%s thrown at %s" % (t, w) for t, w in sorted(left, key=str)))
            if f.kind == "dtor" or f.noexcept:
                ty = E.esc[f.id]
                c.ob("no-escape-noexcept", unit + ":" + cname(f), not ty, f.at(),
                     "; ".join("%s thrown at %s" % (t, w) for t, w in sorted(ty, key=str)))
            for n in f.nodes():
                if n.k == "LambdaExpr" and E.is_async(n):
                    cls_gets = any(m.j.get("n") == "get" and "future" in (m.j.get("q") or "")
                                   for g in P.funcs.values() if g.cls == f.cls for m in g.nodes() if m.k in cpp.CALLS)
                    left = {x for x in E.esc.get(n.j.get("f"), ()) if x[0] != "std::bad_alloc"}
                    c.ob("no-escape-thread", unit + ":" + cname(f), not left or cls_gets, n.at(),
                         "; ".join("%s thrown at %s" % (t, w) for t, w in sorted(left, key=str)))
            # thread entries passed as parameters (chunk executors)
            if f.file.startswith("include/") or f.file.startswith("minorminer/src"):
                for n, ts in P.calls(f):
                    for t in ts:
                        q = t.q
                        if q in ("abort", "std::terminate", "std::abort", "exit", "_exit", "std::exit",
                                 "quick_exit", "std::quick_exit", "raise", "kill", "__assert_fail", "__builtin_trap"):
                            c.ob("no-terminate", "%s:%s -> %s" % (unit, cname(f), q), False, n.at(), "")
                c.ob("no-terminate", "%s:%s" % (unit, cname(f)), True, f.at(), "")
        # tasks handed to std::async through a template parameter
        for f in P.funcs.values():
            if not f.file.startswith("include/"):
                continue
            for n, ts in P.calls(f):
                if any(t.q.startswith("std::async") for t in ts):
                    raised = set()
                    for p in f.params:
                        m = re.search(r"\(lambda at .*?:(\d+):(\d+)\)", P.types[p["t"]][1])
                        if m:
                            for g in P.funcs.values():
                                if g.p.endswith("(lambda)::operator()") and g.line == int(m.group(1)):
                                    raised |= E.esc[g.id]
                    left = {x for x in raised if x[0] != "std::bad_alloc"}
                    gets = any(m.j.get("n") == "get" and "future" in (m.j.get("q") or "") for m in f.nodes() if m.k in cpp.CALLS)
                    c.ob("no-escape-thread", unit + ":" + cname(f) + " task", not left or gets, n.at(),
                         "; ".join("%s thrown at %s" % (t, w) for t, w in sorted(left, key=str)))
                    c.count("async tasks")
        # translators: functions that re-throw the current exception
        for f in P.funcs.values():
            rethrows = [n for n in f.nodes() if n.k == "CXXThrowExpr" and n.j.get("et") is None
                        and E.enclosing_catch(n) is None]
            if not rethrows or f.file.endswith("(generated)") and not f.p.startswith("handle"):
                continue
            ntrans += 1
            left = E.esc[f.id]
            c.ob("translator-total", unit + ":" + f.p, not left, f.at(), str(sorted(left, key=str)))
            for t, py in MAP.items():
                if t not in E.bases:
                    continue
                # first matching clause decides
                got = None
                for tr in [n for n in f.nodes() if n.k == "CXXTryStmt"]:
                    for cl in tr.kids[1:]:
                        if got is None and E.matches(t, E.catch_type(cl)):
                            got = cl
                names = sorted({m.n for m in got.walk() if m.k == "DeclRefExpr" and (m.n or "").startswith("PyExc_")}) if got else []
                sets = bool(got) and any(m.k in cpp.CALLS and (m.j.get("n") or "").startswith("PyErr_") for m in got.walk())
                if got and not sets:
                    # the clause may delegate to a helper
                    for m in got.walk():
                        if m.k in cpp.CALLS:
                            for g in P.targets(m):
                                if g.defined:
                                    for x in g.nodes():
                                        if x.k == "DeclRefExpr" and (x.n or "").startswith("PyExc_"):
                                            names.append(x.n)
                                        if x.k in cpp.CALLS and (x.j.get("n") or "").startswith("PyErr_"):
                                            sets = True
                c.ob("translator-maps", "%s:%s %s" % (unit, f.p, t), sets and names == [py], f.at(),
                     "clause sets %s, expected %s" % (names, py))
    if not ntrans:
        raise AnalysisBroken("no exception translator found")
    c.need("no-escape-generated", 100)
    c.need("guarded-call", 25)
    c.need("no-escape-thread", 2)
    c.need("translator-maps", 5)
    return c


if __name__ == "__main__":
    main(run)
