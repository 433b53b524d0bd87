"""Puts the code under test (/repo's working tree) first and hypothesis last on sys.path."""
import importlib.abc, importlib.machinery, os, sys, warnings
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

HYP_DIRS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
NAMES = {"hypothesis", "_hypothesis_globals", "sortedcontainers", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector", "attr", "attrs"}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, dirs):
        self.dirs = dirs

    def find_spec(self, name, path=None, target=None):
        if name in NAMES:
            return importlib.machinery.PathFinder.find_spec(name, self.dirs)
        return None


def _have():
    try:
        import hypothesis  # noqa
        return True
    except ImportError:
        return False


if not _have():
    sys.meta_path.append(Finder([d for d in HYP_DIRS if os.path.isdir(d)]))
    if not _have():
        import atexit, glob, shutil, tempfile, zipfile
        d = tempfile.mkdtemp(prefix="hyp_")
        atexit.register(shutil.rmtree, d, True)
        for n in ("hypothesis-*cp312*", "sortedcontainers-*"):
            for w in glob.glob("/opt/veriftools/wheels/%s.whl" % n):
                zipfile.ZipFile(w).extractall(d)
        sys.meta_path.append(Finder([d]))
        import hypothesis  # noqa

import czone  # noqa: E402
CZ = os.path.realpath(os.path.dirname(czone.__file__))
assert CZ == os.path.realpath(os.path.join(REPO, "czone")), CZ
