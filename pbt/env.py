"""Import environment of a check process: the toolbox from /repo's working
tree, hypothesis from the offline tooling venv."""
import importlib.abc, importlib.machinery, importlib.util, os, sys
REPO = os.environ.get("VERIF_REPO", "/repo")


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):        # never from stale bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = "general_robotics_toolbox"
        if name != top and not name.startswith(top + "."):
            return None
        base = os.path.join(REPO, "src", *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(name, init, loader=_Loader(name, init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(name, base + ".py"))
        return None


def setup():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)
    v = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if v not in sys.path:
        sys.path.append(v)
    import logging
    logging.disable(logging.CRITICAL)
    import general_robotics_toolbox
    got = os.path.realpath(os.path.dirname(general_robotics_toolbox.__file__))
    want = os.path.realpath(os.path.join(src, "general_robotics_toolbox"))
    if got != want:
        raise RuntimeError("toolbox imported from %s, not %s" % (got, want))
