"""Make Hypothesis importable from the repository's interpreter.

Hypothesis is not installed in the interpreter lsst/pipe_base runs in, but it is pre-installed in the tooling
venv (same Python version) and in the offline wheelhouse.  ``/verif/.deps`` gets symbolic links to just those
packages (never the whole tooling site-packages, which would shadow numpy and others).
"""
from __future__ import annotations

import os
import pathlib
import sys
import zipfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
DEPS = ROOT / ".deps"
SITE = pathlib.Path("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
WHEELS = pathlib.Path("/opt/veriftools/wheels")


def ensure() -> None:
    if not (DEPS / "hypothesis" / "__init__.py").exists() or not (DEPS / "sortedcontainers").exists():
        DEPS.mkdir(exist_ok=True)
        linked = False
        if (SITE / "hypothesis" / "__init__.py").exists():
            for p in SITE.iterdir():
                n = p.name
                if n.startswith(("hypothesis", "_hypothesis", "sortedcontainers")) and not n.endswith(".dist-info"):
                    dst = DEPS / n
                    if not dst.exists():
                        try:
                            dst.symlink_to(p)
                        except FileExistsError:
                            pass
            linked = (DEPS / "sortedcontainers").exists()
        if not linked:
            for w in WHEELS.iterdir():
                if w.name.startswith(("hypothesis-", "sortedcontainers-")):
                    with zipfile.ZipFile(w) as z:
                        z.extractall(DEPS)
    sys.path.insert(0, str(DEPS))
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    ensure()
    import hypothesis
    print("hypothesis", hypothesis.__version__, os.path.dirname(hypothesis.__file__))
