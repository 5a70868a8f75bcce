"""Property registry, generated-case campaigns, shrinking, replay, evidence.

A property is decided by one or more *sub-checks*.  A sub-check is a Hypothesis strategy that produces a JSON-able
case plus a function `fn(case, ctx)` which drives the real resippy code and compares it with an independent oracle.
Every random choice comes from the strategy (bulk array contents are a pure function of an integer the strategy draws),
so shrinking and replay work on the case alone.
"""
import collections
import hashlib
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from harness import env

REPO_PKG = os.path.join(os.path.realpath(env.REPO), "resippy") + os.sep


class Violation(Exception):
    """The property is broken for this case."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key        # identifies a listed known finding, None otherwise


class HarnessError(Exception):
    """The check itself went wrong; says nothing about the property."""


class Hung(KeyboardInterrupt):
    """The code used up CASE_CPU_S of processor time on one case (which takes a fraction of a second when it works)."""


CASE_CPU_S = 90
HUNG = "no-result"


class Discard(Exception):
    """The case is outside the property's domain (counted, must stay rare)."""


Sub = collections.namedtuple("Sub", "prop name strategy fn quick thorough rule examples")
REGISTRY = collections.OrderedDict()
ASSUMPTIONS = collections.defaultdict(list)
KEEP = set()


def results_stay(prop):
    """For this property every array that was compared with an expected one is looked at again when the case ends: what
    the code has handed out must not change when it is used again."""
    KEEP.add(prop)


def sub(prop, name, strategy, quick, thorough=None, rule="", examples=()):
    """Register a sub-check.  rule says what makes a case non-trivial (fn calls ctx.nontrivial())."""

    def deco(fn):
        REGISTRY.setdefault(prop, collections.OrderedDict())
        if name in REGISTRY[prop]:
            raise HarnessError("duplicate sub-check " + name)
        REGISTRY[prop][name] = Sub(prop, name, strategy, fn, quick, thorough or quick * 25, rule, tuple(examples))
        return fn

    return deco


def nudged(case, which, power):
    """The case with one of its numbers made smaller by a part in 10**power, or None where it has none."""
    case = json.loads(canonical(case))
    at = []

    def walk(v, put):
        if isinstance(v, float) and v:
            at.append((v, put))
        elif isinstance(v, (dict, list)):
            for k, x in (sorted(v.items()) if isinstance(v, dict) else enumerate(v)):
                if k not in ("nodata", "nd"):      # these have to fit the data type
                    walk(x, lambda n, v=v, k=k: v.__setitem__(k, n))

    walk(case, None)
    if not at:
        return None
    v, put = at[which % len(at)]
    put(v * (1 - 10.0 ** -power))
    return case


def again(prop, name, share=(), quick=40, most=4, same_files=True, always=False, nudge=True):
    """Register `<name>_again`: the cases of a sub-check one after another in one process, the later ones agreeing with
    the first in the entries `share` (same size, same file name, ...) but not in content, so that anything kept from an
    earlier use shows.  Some of the later cases are the first one with a single number changed a little (unless nudge is
    False), so that anything kept because it seemed close enough shows too."""
    from hypothesis import strategies as st
    base = REGISTRY[prop][name]

    def join(t):
        first, rest, close = t
        steps = [first] + [{**c, **{k: first[k] for k in share if k in first}} if alike or always else c for c, alike in rest]
        if nudge and close is not None:
            near = nudged(first, *close)
            if near is not None:
                steps.insert(1, near)
        return {"steps": steps}

    def fn(case, ctx):
        for k, c in enumerate(case["steps"]):
            if not same_files:
                ctx.step = "step%d" % k
            try:
                base.fn(c, ctx)
            except Violation as v:
                raise Violation("step %d of %d: %s" % (k + 1, len(case["steps"]), v), v.key)

    fn.__doc__ = "uses of the above one after another, alike in %s" % (", ".join(share) or "nothing in particular")
    sub(prop, name + "_again", st.tuples(base.strategy, st.lists(st.tuples(base.strategy, st.sampled_from([True, True, False])), min_size=1, max_size=most - 1),
                                       st.one_of(st.none(), st.tuples(st.integers(0, 99), st.sampled_from([3, 4, 6, 8])))).map(join),
        quick, rule="a step that is non-trivial by the rule of " + name)(fn)


def assume_note(prop, text):
    ASSUMPTIONS[prop].append(text)


class Ctx:
    """What one case may use: a scratch directory, labels, and assertion helpers."""

    def __init__(self, scratch_root):
        self._root = scratch_root
        self._dir = None
        self.step = ""
        self.labels = set()
        self.is_nontrivial = False
        self.keeps = False
        self._kept = []

    def keep(self, got, what):
        import numpy as np
        if isinstance(got, np.ndarray) and got.dtype != object and got.size <= 20000 and len(self._kept) < 40:
            self._kept.append((got, got.copy(), what))

    def look_again(self):
        for got, was, what in self._kept:
            if got.tobytes() != was.tobytes():
                raise Violation("%s: the array handed out was changed by later calls" % what)

    # ---- scratch -------------------------------------------------------------------------------------------------
    @property
    def tmp(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="case-", dir=self._root)
        return self._dir

    def path(self, *parts):
        p = os.path.join(self.tmp, self.step, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    # ---- bookkeeping -----------------------------------------------------------------------------------------------
    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.update(names)

    # ---- assertions ------------------------------------------------------------------------------------------------
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg, key)

    def close_to(self, got, want, what, rtol=1e-9, atol=1e-9, key=None, equal_nan=True):
        import numpy as np
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape), key)
        if g.dtype == object or w.dtype == object:
            raise Violation("%s: object array (got %r)" % (what, got), key)
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=equal_nan)
        if not ok.all():
            bad = np.argwhere(~ok)
            i = tuple(bad[0]) if g.ndim else ()
            raise Violation("%s: at %s got %r, expected %r (%d of %d differ, rtol=%g atol=%g)"
                            % (what, i, g[i].item(), w[i].item(), len(bad) if g.ndim else 1, max(g.size, 1), rtol, atol),
                            key)
        if self.keeps:
            self.keep(got, what)

    def equal_arrays(self, got, want, what, key=None):
        import numpy as np
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape), key)
        same = (g == w)
        if g.dtype.kind in "fc" and w.dtype.kind in "fc":
            same = same | (np.isnan(g) & np.isnan(w))
        if not np.all(same):
            bad = np.argwhere(~np.asarray(same))
            i = tuple(bad[0]) if g.ndim else ()
            raise Violation("%s: at %s got %r, expected %r (%d of %d differ)"
                            % (what, i, g[i].item(), w[i].item(), len(bad), g.size), key)
        if self.keeps:
            self.keep(got, what)

    def equal(self, got, want, what, key=None):
        if not (got == want):
            raise Violation("%s: got %r, expected %r" % (what, got, want), key)


# ---------------------------------------------------------------------------------------------------------------------
def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha1(canonical(case).encode()).hexdigest()


def in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(REPO_PKG):
            return True
    return False


def repo_site(tb):
    site = None
    for fr in traceback.extract_tb(tb):
        f = os.path.realpath(fr.filename)
        if f.startswith(REPO_PKG):
            site = "%s:%s:%d" % (os.path.relpath(f, os.path.dirname(REPO_PKG.rstrip(os.sep))), fr.name, fr.lineno)
    return site


def run_case(s, case, scratch_root):
    """Run one case.  Returns (ctx, violation-or-None); raises HarnessError for anything that is not the code's doing."""
    ctx = Ctx(scratch_root)
    # hand the function its own copy so that a case can never be changed by running it
    case = json.loads(canonical(case))
    signal.signal(signal.SIGPROF, _hung)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        ctx.keeps = s.prop in KEEP
        s.fn(case, ctx)
        ctx.look_again()
        return ctx, None
    except Violation as v:
        return ctx, v
    except Discard:
        ctx.label("discarded")
        ctx.is_nontrivial = False
        return ctx, None
    except Hung as h:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return ctx, Violation("no result: %s (in %s)" % (h, repo_site(h.__traceback__)), HUNG)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except HarnessError:
        raise
    except BaseException as e:      # noqa
        tb = e.__traceback__
        if in_repo(tb):
            return ctx, Violation("unexpected %s on a valid input: %s (raised in %s)"
                                  % (type(e).__name__, str(e)[:300], repo_site(tb)))
        if unusable(e):
            last = traceback.extract_tb(tb)[-1]
            return ctx, Violation("what the code returned or wrote cannot be used: %s: %s (%s:%d)"
                                  % (type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.lineno))
        raise HarnessError("".join(traceback.format_exception(type(e), e, tb)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.close()


def unusable(e):
    """Errors met while a check looks at what the code returned or wrote: a value of another kind, an entry or a file
    that is not there.  Anything the machine may be to blame for says nothing about the property."""
    if isinstance(e, OSError):
        return isinstance(e, (FileNotFoundError, IsADirectoryError, NotADirectoryError))
    return isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError, EOFError, SyntaxError))


def _hung(signum, frame):
    raise Hung("no result after %d s of processor time" % CASE_CPU_S)


class Campaign:
    """One shard of one sub-check: generate, run, count, shrink."""

    def __init__(self, s, n, seed, scratch_root, known=()):
        self.s, self.n, self.seed, self.root = s, n, seed, scratch_root
        self.known = set(known)
        self.evaluations = 0
        self.nontrivial = set()
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []
        self.known_hits = collections.Counter()
        self.failure = None       # (case, message)

    def _one(self, case, count=True):
        ctx, v = run_case(self.s, case, self.root)
        if count:
            self.evaluations += 1
            d = digest(case)
            self.distinct.add(d)
            self.labels.update(ctx.labels)
            if ctx.is_nontrivial:
                if d not in self.nontrivial:
                    self.nontrivial.add(d)
                    if len(self.samples) < 3:
                        self.samples.append(case)
        if v is not None and v.key is not None and v.key in self.known:
            self.known_hits[v.key] += 1
            return None
        return v

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 60
        # the mutator copies drawn values over one another (about half of all cases): equal coordinates everywhere are
        # not what these domains are about
        engine.ConjectureRunner.generate_mutations_from = lambda runner, data: None

        for case in self.s.examples:
            v = self._one(case)
            if v is not None:
                self.failure = (case, str(v))
                return self

        state = {"failed": False}

        @hypothesis.seed(self.seed)
        @settings(max_examples=self.n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
                  phases=[Phase.generate, Phase.shrink],
                  suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                         HealthCheck.large_base_example, HealthCheck.differing_executors])
        @given(self.s.strategy)
        def test(case):
            v = self._one(case, count=not state["failed"])
            if v is not None:
                state["failed"] = True
                self.failure = (case, str(v))
                if v.key == HUNG:
                    raise Hung()          # not shrunk: every attempt would take as long
                raise v

        try:
            test()
        except Violation:
            pass
        except HarnessError:
            raise
        except BaseException as e:     # noqa
            if self.failure is None:
                raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__)))
            # the failure did not recur when Hypothesis re-ran the case: it depends on the cases before it
        return self

    def result(self):
        return {"sub": self.s.name, "evaluations": self.evaluations, "distinct": len(self.distinct),
                "nontrivial": sorted(self.nontrivial), "labels": dict(self.labels), "samples": self.samples,
                "failure": self.failure, "known_hits": dict(self.known_hits)}


def shard_seed(seed, prop, name, shard):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, name, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def load_known(path=os.path.join(env.VERIF, "known_findings.txt")):
    """Lines `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    out = collections.defaultdict(dict)
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    toks = line[len("finding:"):].split(None, 2)
                    prop = toks[0].split("=", 1)[1]
                    key = toks[1].split("=", 1)[1]
                    out[prop][key] = toks[2] if len(toks) > 2 else ""
    return out
