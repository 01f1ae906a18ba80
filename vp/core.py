"""
Harness core.

A check is a module in /verif/checks that creates one ``Check`` and registers
sub-properties with ``@C.given(strategy, ...)``.  ``vp/run.py`` runs every
sub-property in its own forked worker under Hypothesis, with the seed taken from
VERIF_SEED, counts the generated cases, shrinks failures and writes the evidence.

Rules
-----
* a sub-property body gets ``(ctx, *drawn)``; every random choice is drawn by the
  strategies *before* the body starts (no interactive draws), so that a case is
  fully described by its arguments;
* ``check(cond, message)`` states the oracle;
* any exception that leaves the body is a violation (the properties say which
  calls have to succeed; where a call may be refused the body says so itself);
* problems of the machinery itself (out of disk, unsatisfiable strategies, worker
  died, ...) end the run with exit code 2, never with a VIOLATION line.
"""
import errno
import hashlib
import json
import os
import reprlib
import sys
import time
import traceback
from collections import Counter


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


def check(cond, msg="", *args):
    if not cond:
        if args:
            msg = msg % args
        raise Violation(msg)


def raises(exceptions, fn, what=""):
    """fn must raise one of the exceptions"""
    try:
        got = fn()
    except exceptions:
        return
    check(False, f"{what}: accepted, returned {got!r}"[:600])


def check_eq(got, want, what=""):
    if not (got == want):
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


class Ctx:
    """Per-case context handed to a sub-property body."""

    def __init__(self):
        self.nontrivial = True
        self.tags = []
        self.key = None
        self.sample = None

    def trivial(self):
        self.nontrivial = False

    def tag(self, *names):
        self.tags.extend(str(n) for n in names)


class Sub:
    def __init__(self, name, fn, strategies, quick, thorough, doc, budget, max_thorough):
        self.name = name
        self.fn = fn
        self.strategies = strategies
        self.quick = quick
        self.thorough = thorough
        self.doc = doc
        self.budget = budget
        self.max_thorough = max_thorough


class Check:
    def __init__(self, property_id, rule, assumptions=()):
        self.property = property_id
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = []
        self.known = []

    def given(self, *strategies, quick=100, thorough=3000, budget=60, thorough_budget=420):
        def deco(fn):
            if any(s.name == fn.__name__ for s in self.subs):
                raise HarnessError(f"duplicate sub-property {fn.__name__}")
            self.subs.append(
                Sub(
                    fn.__name__,
                    fn,
                    strategies,
                    quick,
                    thorough,
                    (fn.__doc__ or "").strip(),
                    budget,
                    thorough_budget,
                )
            )
            return fn

        return deco

    def known_finding(self, fid):
        """Register a probe for a known finding.  The probe returns None when the
        behaviour is right and a one-line description when it still fails."""

        def deco(fn):
            self.known.append((fid, fn))
            return fn

        return deco


_REPR = reprlib.Repr()
_REPR.maxstring = 300
_REPR.maxother = 400
_REPR.maxlist = 12
_REPR.maxdict = 12
_REPR.maxtuple = 12
_REPR.maxlevel = 6


def short(obj, n=700):
    try:
        s = _REPR.repr(obj)
    except Exception as e:  # pragma: no cover
        s = f"<unreprable {type(obj).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


def case_hash(args):
    try:
        s = repr(args)
    except Exception:
        s = short(args)
    return hashlib.sha1(s.encode("utf-8", "surrogatepass")).digest()[:10]


_MACHINE_ERRNO = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT}


def is_machine_error(exc):
    if isinstance(exc, (MemoryError, KeyboardInterrupt, HarnessError)):
        return True
    if isinstance(exc, OSError) and exc.errno in _MACHINE_ERRNO:
        return True
    return False


def run_sub(chk, sub, tier, seed, reproduce=None):
    """Run one sub-property; returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import strategies as st
    from hypothesis.errors import Flaky, HypothesisException

    n = sub.quick if tier == "quick" else sub.thorough
    budget = sub.budget if tier == "quick" else sub.max_thorough
    budget = float(os.environ.get("VP_BUDGET", budget))
    n = max(1, int(n * float(os.environ.get("VP_SCALE", "1"))))

    st_ = dict(
        evals=0,
        seen=set(),
        nontrivial=0,
        tags=Counter(),
        samples=[],
        fail=None,
        fail_t=None,
        machine=None,
        skipped=0,
        timeouts=False,
    )
    t0 = time.monotonic()

    def body(args):
        now = time.monotonic()
        if st_["fail"] is None:
            if now - t0 > budget:
                st_["skipped"] += 1
                return
        elif now - st_["fail_t"] > 60:
            return
        ctx = Ctx()
        st_["evals"] += 1
        try:
            sub.fn(ctx, *args)
        except HypothesisException:
            raise
        except BaseException as exc:
            if type(exc).__name__ in ("UnsatisfiedAssumption", "StopTest", "Frozen"):
                raise
            if is_machine_error(exc):
                st_["machine"] = "".join(traceback.format_exception(exc))[-3000:]
                raise
            if st_["fail"] is None:
                st_["fail_t"] = now
            tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
            st_["fail"] = dict(
                case=repr(args)[:20000],
                error=f"{type(exc).__name__}: {exc}"[:4000],
                traceback=tb[-6000:],
            )
            raise
        if st_["fail"] is None:
            h = ctx.key if ctx.key is not None else case_hash(args)
            if not isinstance(h, bytes):
                h = case_hash(h)
            new = h not in st_["seen"]
            st_["seen"].add(h)
            if ctx.nontrivial:
                if new:
                    st_["nontrivial"] += 1
                    k = st_["nontrivial"]
                    if len(st_["samples"]) < 4 and (k in (1, 7, 23, 61)):
                        st_["samples"].append(
                            ctx.sample if ctx.sample is not None else short(args)
                        )
            st_["tags"].update(ctx.tags)
            if not ctx.nontrivial:
                st_["tags"]["(trivial)"] += 1

    strat = st.tuples(*sub.strategies)

    def test(args):
        body(args)

    test.__name__ = sub.name
    test.__qualname__ = sub.name
    wrapped = hypothesis.given(strat)(test)
    wrapped = settings(
        max_examples=n,
        database=None,
        deadline=None,
        print_blob=True,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
    )(wrapped)
    if reproduce is not None:
        wrapped = hypothesis.reproduce_failure(hypothesis.__version__, reproduce)(wrapped)
    else:
        wrapped = hypothesis.seed(seed)(wrapped)
    blob = None
    harness = None
    try:
        with hypothesis.reporting.with_reporter(lambda *_: None):
            wrapped()
    except BaseException as exc:
        notes = []
        seen = set()

        def collect(e):
            if e is None or id(e) in seen:
                return
            seen.add(id(e))
            notes.extend(getattr(e, "__notes__", []) or [])
            for s in getattr(e, "exceptions", ()) or ():
                collect(s)
            collect(e.__cause__)
            collect(e.__context__)

        collect(exc)
        import re

        for nn in notes:
            m = re.search(r"reproduce_failure\([^,]+,\s*(b'.*?'|b\".*?\")\)", nn, re.S)
            if m:
                import ast

                blob = ast.literal_eval(m.group(1)).decode("ascii")
        if st_["machine"]:
            harness = st_["machine"]
        elif st_["fail"] is None:
            harness = "".join(traceback.format_exception(exc))[-4000:]
    if st_["fail"] is not None:
        st_["fail"]["blob"] = blob
    return dict(
        name=sub.name,
        doc=sub.doc,
        evals=st_["evals"],
        distinct=len(st_["seen"]),
        nontrivial=st_["nontrivial"],
        tags=dict(st_["tags"].most_common(60)),
        samples=st_["samples"],
        skipped_over_budget=st_["skipped"],
        fail=st_["fail"],
        harness=harness,
        wall=round(time.monotonic() - t0, 2),
    )
