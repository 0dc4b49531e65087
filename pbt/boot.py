"""Make hypothesis importable offline (wheels extracted in a scratch folder)."""
import glob
import importlib.util
import os
import sys
import zipfile

WHEELS = "/opt/veriftools/wheels"


def missing():
    return importlib.util.find_spec("hypothesis") is None


def provide(folder):
    """Extract the needed wheels in 'folder'; return list of paths to add."""
    tag = "cp%d%d" % sys.version_info[:2]
    found = []
    for pattern in (f"hypothesis-*-{tag}-*.whl", "sortedcontainers-*.whl"):
        names = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if names:
            found.append(names[-1])
    if found and any("hypothesis-" in f for f in found):
        os.makedirs(folder, exist_ok=True)
        for wheel in found:
            with zipfile.ZipFile(wheel) as zf:
                zf.extractall(folder)
        return [folder]
    # Fallback on the tooling venv (same Python version).
    return glob.glob("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
