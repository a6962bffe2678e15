"""Simulated ONNX file access: a model is the JSON text written by the
simulated exporter."""
import json, os
import pysim
from pysim import Env, fault
class _Graph:
    node = (); output = ()
    def ClearField(self, n): pass
class _Model:
    def __init__(self, d): self.d = d; self.graph = _Graph()
def load(path, *a, **k):
    if pysim.FS.dead: raise pysim.Crash()
    with Env(): return _Model(json.loads(pysim._real_open(path).read()))
load_model = load
def save_model(model, path, *a, **k):
    if pysim.FS.dead: raise pysim.Crash()
    if fault("onnx-save-fails"):
        e = OSError(28, "No space left on device (injected)"); raise e
    with Env(): pysim._real_open(path, "w").write(json.dumps(model.d))
save = save_model
