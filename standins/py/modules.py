"""Stand-ins for the libraries visqol's training scripts import, installed into sys.modules.

Nothing is trained: what a script hands to TensorFlow (Lattice) is recorded in `seen`.
The few tensor operations the scripts make themselves are numpy's.
"""
import sys, types
import numpy as np
from . import frames
from .frames import StandInGap

seen = {}


def reset():
    seen.clear()
    seen.update(inputs=[], regressors=[], updates=[], feature_configs=[], model_configs=[], exported=[], logs=[], trained=[], evaluated=[])


class Flags:
    def __init__(self): self.__dict__["known"] = {}
    def __getattr__(self, n):
        if n in self.known: return self.known[n]
        raise AttributeError(n)
    def __setattr__(self, n, v): self.known[n] = v


class Record:
    """Anything built from keyword arguments."""
    def __init__(self, *a, **kw): self.args, self.kw = a, kw
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n in self.__dict__.get("kw", {}): return self.kw[n]
        raise StandInGap(type(self).__name__ + "." + n)


def module(name, lenient=None, **members):
    m = types.ModuleType(name)
    m.__dict__.update(members)
    def missing(n):
        if n.startswith("__"): raise AttributeError(n)
        if lenient is not None and hasattr(lenient, n): return getattr(lenient, n)
        raise StandInGap(name + "." + n)
    m.__getattr__ = missing
    sys.modules[name] = m
    parent, _, leaf = name.rpartition(".")
    if parent in sys.modules: setattr(sys.modules[parent], leaf, m)
    return m


def install():
    flags = Flags()
    def define(name, default=None, *a, **kw): flags.known[name] = default
    def define_list(name, default=None, *a, **kw): flags.known[name] = default.split(",") if default else []
    module("absl")
    module("absl.app", run=lambda main: None, UsageError=type("UsageError", (Exception,), {}))
    module("absl.flags", FLAGS=flags, DEFINE_list=define_list, mark_flag_as_required=lambda n: None, mark_flags_as_required=lambda n: None,
           **{"DEFINE_" + k: define for k in ("string", "integer", "float", "boolean", "bool")},
           DEFINE_enum=lambda name, default=None, *a, **kw: define(name, default))
    log = lambda *a, **kw: seen["logs"].append(a)
    module("absl.logging", **{k: log for k in ("info", "warn", "warning", "debug", "error", "vlog", "exception")})
    sys.modules["pandas"] = frames

    class Tensor: pass
    def uniform(shape=(), minval=0, maxval=1, **kw): return np.random.uniform(minval, maxval, size=tuple(int(s) for s in shape))
    def shapes(pairs, *a, **kw):
        sizes = {}
        for t, dims in dict(pairs).items() if isinstance(pairs, dict) else pairs:
            s = np.shape(t)
            if len(s) != len(dims): raise ValueError("rank %r against %r" % (s, dims))
            for n, d in zip(s, dims):
                if (n != d) if isinstance(d, int) else sizes.setdefault(d, n) != n: raise ValueError("shape %r against %r" % (s, dims))
    tf = module("tensorflow", lenient=np, Tensor=Tensor, newaxis=None, float32=np.float32, float64=np.float64, int32=np.int32,
                cast=lambda x, dtype=None, **kw: np.asarray(x).astype(dtype), shape=lambda x, **kw: np.array(np.shape(x)),
                clip_by_value=lambda x, lo, hi, **kw: np.clip(x, lo, hi), constant=lambda v, dtype=None, shape=None, name=None: Record(value=v, dtype=dtype, shape=shape, name=name),
                expand_dims=lambda x, axis, **kw: np.expand_dims(x, axis), subtract=np.subtract, multiply=np.multiply, add=np.add,
                reduce_mean=np.mean, reduce_sum=np.sum)
    module("tensorflow.random", uniform=uniform)
    module("tensorflow.debugging", assert_shapes=shapes)
    module("tensorflow.math", lenient=np)
    for n in ("keras", "keras.optimizers", "compat", "compat.v1"): module("tensorflow." + n)
    adam = type("Adam", (Record,), {})
    module("tensorflow.keras.optimizers.legacy", Adam=adam); sys.modules["tensorflow.keras.optimizers"].Adam = adam
    Estimator = type("Estimator", (), {})
    module("tensorflow.estimator", Estimator=Estimator)
    module("tensorflow.estimator.export", build_parsing_serving_input_receiver_fn=lambda *a, **kw: Record("parsing", *a, **kw), build_raw_serving_input_receiver_fn=lambda *a, **kw: Record("raw", *a, **kw))
    module("tensorflow.feature_column", numeric_column=lambda key, **kw: Record(key=key, **kw), make_parse_example_spec=lambda columns: {c.key: c for c in columns})
    module("tensorflow.compat.v1.estimator")
    def pandas_input_fn(x=None, y=None, batch_size=128, num_epochs=1, shuffle=None, **kw):
        r = Record(x=x, y=y, batch_size=batch_size, num_epochs=num_epochs, shuffle=shuffle)
        seen["inputs"].append(r)
        def fn():
            n = min(batch_size, len(y))
            return {k: np.array(list(x[k])[:n], dtype=np.float64) for k in x.columns}, np.array(list(y)[:n], dtype=np.float64)
        fn.record = r
        return fn
    module("tensorflow.compat.v1.estimator.inputs", pandas_input_fn=pandas_input_fn)

    def recorded(name, into):
        def init(self, *a, **kw): Record.__init__(self, *a, **kw); seen[into].append(self)
        return type(name, (Record,), {"__init__": init})
    class Regressor(Estimator):
        def __init__(self, **kw):
            self.kw = kw; self.model_dir = kw.get("model_dir") or "/tmp/none"; seen["regressors"].append(self)
        def train(self, input_fn, **kw): seen["trained"].append((self, input_fn, kw)); return self
        def evaluate(self, input_fn, **kw): seen["evaluated"].append((self, input_fn, kw)); return {"loss": 0.0}
        def export_saved_model(self, d, fn, **kw): seen["exported"].append((d, fn)); return str(d)
    module("tensorflow_lattice")
    module("tensorflow_lattice.configs", FeatureConfig=recorded("FeatureConfig", "feature_configs"), RegularizerConfig=type("RegularizerConfig", (Record,), {}),
           CalibratedLinearConfig=recorded("CalibratedLinearConfig", "model_configs"), CalibratedLatticeEnsembleConfig=recorded("CalibratedLatticeEnsembleConfig", "model_configs"),
           apply_updates=lambda model, updates: seen["updates"].append((model, list(updates))))
    module("tensorflow_lattice.estimators", CannedRegressor=Regressor)
    module("google3"); module("google3.pyglib")
    module("google3.pyglib.gfile", Open=open, GFile=open, FastGFile=open)
    reset()
    return flags
