"""Shared machinery of the property-based checks: facets, case execution, accounting, replay.

A *facet* is one executable statement of (part of) a property: a Hypothesis strategy that generates plain,
JSON-representable cases, and a ``check(case)`` function that runs the code under test on the case and compares
it with an explicit oracle.  Because cases are plain data, a shrunk failure can be replayed without Hypothesis.
"""
from __future__ import annotations

import collections
import contextlib
import dataclasses
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import uuid
from typing import Any, Callable

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class HarnessError(BaseException):
    """The check itself (not the code under test) is at fault."""


class CaseHang(BaseException):
    """A case did not end within the hang limit."""


@dataclasses.dataclass
class Facet:
    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any], Any]
    quick: int
    thorough: int = 0
    shards: int = 8
    hang: float = 150.0
    regressions: tuple = ()
    setup: Callable[[], None] | None = None

    def __post_init__(self) -> None:
        if not self.thorough:
            self.thorough = self.quick * 12


# --------------------------------------------------------------------------------------------------------------
# helpers for checks


def expect(cond: Any, msg: str, *args: Any) -> None:
    if not cond:
        raise Violation(msg + ("" if not args else " | " + " | ".join(_short(a) for a in args)))


def expect_eq(actual: Any, expected: Any, msg: str) -> None:
    if not (actual == expected):
        raise Violation(f"{msg}: got {_short(actual)}, expected {_short(expected)}")


def _short(x: Any, n: int = 1500) -> str:
    r = repr(x)
    return r if len(r) <= n else r[: n - 3] + "..."


@contextlib.contextmanager
def must_raise(*types: type[BaseException], msg: str):
    try:
        yield
    except types:
        return
    raise Violation(f"no {'/'.join(t.__name__ for t in types)} raised: {msg}")


_rng = random.Random(0)


def _uuid4() -> uuid.UUID:
    return uuid.UUID(int=_rng.getrandbits(128), version=4)


def _urandom_like(n: int) -> bytes:
    return _rng.randbytes(n)


_SCRATCH: str | None = None


def scratch_root() -> str:
    global _SCRATCH
    if _SCRATCH is None or not os.path.isdir(_SCRATCH):
        _SCRATCH = tempfile.mkdtemp(prefix="vpscratch-")
    return _SCRATCH


@contextlib.contextmanager
def scratch_dir():
    d = tempfile.mkdtemp(prefix="case-", dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cleanup_scratch() -> None:
    global _SCRATCH
    if _SCRATCH is not None:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
        _SCRATCH = None


# --------------------------------------------------------------------------------------------------------------
# environment of the code under test


def prepare_environment() -> None:
    """Import the code under test from /repo and make it deterministic."""
    import logging
    import warnings

    warnings.simplefilter("ignore")
    want = os.path.join(REPO, "python")
    if REPO != "/repo":
        # scratch copies (development only): put the copy's package directory first
        import lsst

        lsst.__path__ = [os.path.join(want, "lsst"), *list(lsst.__path__)]
    if REPO != "/repo":
        import lsst.pipe
        lsst.pipe.__path__ = [os.path.join(want, "lsst", "pipe"), *list(lsst.pipe.__path__)]
    import lsst.pipe.base

    f = os.path.realpath(lsst.pipe.base.__file__)
    if not f.startswith(os.path.realpath(want) + os.sep):
        raise HarnessError(f"lsst.pipe.base imported from {f}, not from {want}")
    logging.getLogger().setLevel(logging.WARNING)
    logging.lastResort = None
    # Python 3.12.3's zipfile has a bug in _SharedFile.seek(n, SEEK_CUR) (fixed upstream in 3.12.4): it makes
    # any reader that uses relative seeks misread.  It is a defect of the interpreter in this sandbox, not of
    # pipe_base, and would hide the behaviour under test, so it is corrected here.
    import zipfile

    def seek(self, offset, whence=0):
        with self._lock:
            if self._writing():
                raise ValueError("Can't reposition in the ZIP file while there is an open writing handle on it.")
            if whence == os.SEEK_CUR:
                self._file.seek(self._pos + offset)
            else:
                self._file.seek(offset, whence)
            self._pos = self._file.tell()
            return self._pos

    zipfile._SharedFile.seek = seek
    uuid.uuid4 = _uuid4


def reset_case_state(case_json: str) -> None:
    _rng.seed(hashlib.sha256(case_json.encode()).digest())
    random.seed(0)


# --------------------------------------------------------------------------------------------------------------
# accounting


class Stats:
    def __init__(self) -> None:
        self.evaluations = 0
        self.nontrivial: set[str] = set()
        self.labels: collections.Counter[str] = collections.Counter()
        self.samples: list[Any] = []
        self.skipped = 0
        self.wall = 0.0

    def to_json(self) -> dict[str, Any]:
        return dict(evaluations=self.evaluations, nontrivial=sorted(self.nontrivial), labels=dict(self.labels),
                    samples=self.samples, skipped=self.skipped, wall=self.wall)


def dumps(case: Any) -> str:
    return json.dumps(case, sort_keys=True)


def _alarm(signum, frame):
    raise CaseHang("case exceeded the hang limit")


def run_case(facet: Facet, case: Any, stats: Stats | None) -> None:
    """Run one case; raises whatever the check raises."""
    text = dumps(case)
    reset_case_state(text)
    case = json.loads(text)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, facet.hang)
    try:
        info = facet.check(case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if stats is not None:
        stats.evaluations += 1
        nontrivial = True
        labels: Any = ()
        if isinstance(info, dict):
            nontrivial = info.get("nontrivial", True)
            labels = info.get("labels", ())
        for lb in labels:
            stats.labels[f"{facet.name}:{lb}"] += 1
        if nontrivial:
            h = hashlib.sha1((facet.name + text).encode()).hexdigest()[:16]
            if h not in stats.nontrivial:
                stats.nontrivial.add(h)
                if len(stats.samples) < 2 and (len(stats.nontrivial) % 7 == 3) and len(text) < 6000:
                    stats.samples.append({"facet": facet.name, "case": json.loads(text)})


ENV_ERRORS = (MemoryError, HarnessError)


def is_environment_error(exc: BaseException) -> bool:
    if isinstance(exc, ENV_ERRORS):
        return True
    if isinstance(exc, OSError) and exc.errno in (28, 12, 24, 122):  # ENOSPC, ENOMEM, EMFILE, EDQUOT
        return True
    return False


def run_facet(facet: Facet, *, seed: int, examples: int, deadline: float, out_path: str, shard: int,
              shrink_seconds: float) -> None:
    """Worker body: generate cases with Hypothesis, write a JSON result file."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = shrink_seconds
    stats = Stats()
    t0 = time.monotonic()
    last_flush = [t0]
    failing: dict[str, Any] = {}
    result: dict[str, Any] = {"facet": facet.name, "shard": shard, "status": "running"}

    def flush(status: str) -> None:
        result["status"] = status
        stats.wall = time.monotonic() - t0
        result["stats"] = stats.to_json()
        if failing:
            result["failure"] = dict(failing)
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f)
        os.replace(tmp, out_path)

    def record_failure(case: Any, exc: BaseException) -> None:
        failing.clear()
        failing.update(case=json.loads(dumps(case)), error=f"{type(exc).__name__}: {exc}"[:4000],
                       traceback="".join(traceback.format_exception(exc))[-8000:],
                       hang=isinstance(exc, CaseHang))

    if facet.setup is not None:
        facet.setup()

    def guarded(case: Any) -> None:
        if not failing and time.monotonic() > deadline:
            stats.skipped += 1
            return
        try:
            run_case(facet, case, None if failing else stats)
        except CaseHang as exc:
            record_failure(case, exc)
            flush("violation")
            cleanup_scratch()
            os._exit(0)
        except BaseException as exc:
            if isinstance(exc, (KeyboardInterrupt, SystemExit, hypothesis.errors.UnsatisfiedAssumption)):
                raise
            if type(exc).__module__.startswith("hypothesis"):
                raise
            if is_environment_error(exc):
                result["error"] = "".join(traceback.format_exception(exc))[-8000:]
                flush("error")
                cleanup_scratch()
                os._exit(0)
            first = not failing
            record_failure(case, exc)
            if first:
                flush("shrinking")
            raise
        now = time.monotonic()
        if now - last_flush[0] > 2.0:
            last_flush[0] = now
            flush("running" if not failing else "shrinking")

    try:
        if shard == 0:
            for case in facet.regressions:
                guarded(case)
        if examples > 0:

            @hypothesis.seed(seed)
            @settings(max_examples=examples, deadline=None, database=None, derandomize=False,
                      phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                      print_blob=False, report_multiple_bugs=False)
            @hypothesis.given(facet.strategy())
            def test(case: Any) -> None:
                guarded(case)

            test()
        flush("ok")
    except BaseException as exc:
        if failing:
            result["final_exception"] = f"{type(exc).__name__}: {exc}"[:1000]
            flush("violation")
        else:
            result["error"] = "".join(traceback.format_exception(exc))[-8000:]
            flush("error")
    finally:
        cleanup_scratch()
