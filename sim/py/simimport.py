"""Imports the package under test afresh for every simulated process; its
source is compiled once per worker."""
import importlib, importlib.machinery, importlib.util, os, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src/Runtime/python/torch_onnxmlir/src"
_cache = {}
class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        c = _cache.get(fullname)
        if c is None:
            p = self.get_filename(fullname)
            import _io
            with _io.open(p, "rb") as f: c = _cache[fullname] = compile(f.read(), p, "exec", dont_inherit=True)
        return c
class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] != "torch_onnxmlir": return None
        b = SRC + "/" + name.replace(".", "/")
        if os.path.isdir(b): return importlib.util.spec_from_file_location(name, b + "/__init__.py", loader=Loader(name, b + "/__init__.py"), submodule_search_locations=[b])
        if os.path.isfile(b + ".py"): return importlib.util.spec_from_file_location(name, b + ".py", loader=Loader(name, b + ".py"))
        return None
sys.meta_path.insert(0, Finder)
def fresh(name, bare=False):
    """bare: without the package's __init__ (which registers the backend)."""
    for n in [n for n in sys.modules if n.split(".")[0] == "torch_onnxmlir"]: del sys.modules[n]
    if bare:
        import types
        m = types.ModuleType("torch_onnxmlir"); m.__path__ = [SRC + "/torch_onnxmlir"]; sys.modules["torch_onnxmlir"] = m
    return importlib.import_module(name)
def fresh_more(name): return importlib.import_module(name)
def warm():
    import logging; logging.disable(logging.CRITICAL)
    import torch, onnx, om_pyrt, json, tempfile, shutil, pickle
    for n in sorted(os.listdir(SRC + "/torch_onnxmlir")):
        if n.endswith(".py") and n != "__init__.py": fresh("torch_onnxmlir." + n[:-3])
    import importlib.metadata
    _m = importlib.metadata.version
    def version(n): raise importlib.metadata.PackageNotFoundError(n)
    importlib.metadata.version = version
    for n in [n for n in sys.modules if n.split(".")[0] == "torch_onnxmlir"]: del sys.modules[n]
