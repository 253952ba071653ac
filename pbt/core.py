"""Harness core: sub-check registry, hypothesis driver, counters, replay.

A *sub-check* is a pair of functions:

  gen(draw) -> case      draws a JSON-serialisable case with hypothesis only
  run(case, rec)         judges the code under test on that case

`run` raises Violation (through the helpers below) when the property is
broken.  Any other exception that escapes `run` comes from calling the toolbox
on an input of the property's domain (or from a result so malformed that the
oracle cannot even read it), and is a violation too.  Exceptions in `gen`, in
hypothesis or in the runner are harness errors (exit status 2).
"""
import hashlib, json, os, signal, sys, time, traceback, warnings

SUBS = {}          # property id -> list of Sub


class Violation(Exception):
    pass


class HarnessError(BaseException):
    pass


class CaseTimeout(Exception):
    pass


class Sub:
    def __init__(self, prop, name, gen, run, quick, thorough, shards=1, examples=(), rule="", journal=False):
        self.prop, self.name, self.gen, self.run = prop, name, gen, run
        self.quick, self.thorough, self.shards = quick * 2, thorough, shards
        self.examples, self.rule, self.journal = list(examples), rule, journal


def sub(prop, name, gen, quick, thorough=None, shards=4, examples=(), rule="", journal=False):
    """Decorator registering run(case, rec) as a sub-check of `prop`."""
    def deco(f):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, gen, f, quick, thorough or quick * 20, shards, examples, rule, journal))
        return f
    return deco


class Rec:
    """Per-worker statistics, filled in by the sub-checks."""
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self._case = None
        self._hash = None

    def begin(self, case):
        self.evaluations += 1
        self._case = case
        self._hash = None

    def cls(self, *labels):
        for l in labels:
            self.classes[l] = self.classes.get(l, 0) + 1

    def nontriv(self, *labels):
        """Mark the current case as non-trivial (by the sub-check's rule)."""
        self.cls(*labels)
        if self._hash is None:
            self._hash = hashlib.blake2b(json.dumps(self._case, sort_keys=True).encode(), digest_size=8).hexdigest()
        if self._hash not in self.nontrivial:
            self.nontrivial.add(self._hash)
            n = len(self.nontrivial)
            if n in (1, 10, 100):
                self.samples.append(self._case)


# ------------------------------------------------------------------ helpers

def fail(msg, **kw):
    extra = "".join("\n  %s = %r" % (k, v) for k, v in kw.items())
    raise Violation(msg + extra)


def require(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


def rejects(f, *args, exc=Exception, what="invalid input was accepted", **kw):
    """The call must raise an ordinary exception (of type exc)."""
    try:
        with quiet():
            r = f(*args, **kw)
    except exc:
        return
    except CaseTimeout:
        raise
    except Exception as e:
        fail(what + ": raised %s instead of %s" % (type(e).__name__, exc))
    fail(what, result=r)


class quiet:
    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        return self

    def __exit__(self, *a):
        return self.w.__exit__(*a)


def rand_seed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], "big")


def case_alarm(seconds):
    def h(sig, frm):
        raise CaseTimeout("no answer after %d s for one case" % seconds)
    signal.signal(signal.SIGALRM, h)
    signal.alarm(seconds)


CASE_LIMIT_S = 180


def evaluate(s, case, rec, journal=None):
    rec.begin(case)
    if journal is not None:
        journal.seek(0)
        journal.truncate()
        journal.write(json.dumps(case))
        journal.flush()
    case_alarm(CASE_LIMIT_S)
    try:
        with quiet():
            s.run(json.loads(json.dumps(case)), rec)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, HarnessError):
        raise
    except Exception as e:
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())) from None
    finally:
        signal.alarm(0)


def run_shard(s, tier, seed, shard, nshards, journal=None):
    """Run one shard of one sub-check. Returns (rec, failure or None)."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, strategies as st
    import hypothesis.internal.conjecture.engine as eng
    import hypothesis.configuration
    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(os.environ.get("TMPDIR", "/tmp"), "pbt_no_hypothesis_home"))
    eng.MAX_SHRINKING_SECONDS = 25
    rec = Rec()
    if shard == 0:
        for c in s.examples:
            try:
                evaluate(s, c, rec, journal)
            except Violation as e:
                return rec, dict(case=c, message=str(e))
    n = s.quick if tier == "quick" else s.thorough
    n = -(-n // nshards)
    last = {}

    @st.composite
    def cases(draw):
        try:
            return s.gen(draw)
        except (AssertionError, TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, NameError) as e:
            raise HarnessError("generator of %s/%s failed: %s" % (s.prop, s.name, traceback.format_exc()))

    @hypothesis.seed(rand_seed(seed, s.prop, s.name, shard))
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate] if os.environ.get("PBT_NOSHRINK") else [Phase.generate, Phase.shrink])
    @given(cases())
    def test(case):
        try:
            evaluate(s, case, rec, journal)
        except Violation as e:
            last["case"], last["message"] = case, str(e)
            raise
    try:
        test()
    except BaseException as e:
        if last and not isinstance(e, (KeyboardInterrupt, HarnessError)):
            return rec, dict(last)
        raise
    return rec, None


def dump_replay(path, s, fail_):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(dict(property=s.prop, sub=s.name, case=fail_["case"], message=fail_["message"]), f, indent=1)
