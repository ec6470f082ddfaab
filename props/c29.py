#!/usr/bin/env python3
"""C29: the maintenance tools do what they say (hypothesis)."""
import hashlib, os, re, shutil, subprocess, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import hyp
from hyp import FLAGS, REPO, StandInGap, modules, need, path, run_main, script, st

# --- what create_conformance_scores.py imports
SCORES = None  # settings of a comparison -> score
ROOT = None    # where the resources are


class FilePath:
    def __init__(self, p):
        if not isinstance(p, str): raise TypeError("FilePath of %r" % (p,))
        self.p = os.path.normpath(p)


class StatusNotOk(Exception): pass
def effective(model, speech, unscaled, radius, lattice):
    """What of a manager's settings its scores depend on."""
    if not speech: return ("audio", model, radius)
    return ("lattice", model, radius) if lattice else ("exponential", unscaled, radius)


class VisqolManager:
    """As python/visqol_lib_py.cc defines it: positional arguments, converted or refused."""
    def __init__(self): self.made = None
    def Init(self, *a):
        kinds = (FilePath, bool, bool, int, bool, bool, bool)
        if len(a) != len(kinds) or not all(isinstance(x, k) for x, k in zip(a, kinds)): raise TypeError("Init(): incompatible function arguments: %d of them" % len(a))
        model, speech, unscaled, radius, lattice, no_global, no_realign = a
        if not os.path.isfile(model.p): raise StatusNotOk("no model " + model.p)
        if speech and lattice and not model.p.endswith(".tflite"): raise StatusNotOk("not a lattice model: " + model.p)
        if not speech and not model.p.endswith(".txt"): raise StatusNotOk("not a support vector model: " + model.p)
        self.made = effective(os.path.basename(model.p), speech, unscaled, radius, lattice) + (no_global, no_realign)
    def Run(self, ref, deg):
        if self.made is None: raise StatusNotOk("not initialised")
        if not isinstance(ref, FilePath) or not isinstance(deg, FilePath): raise TypeError("Run(): incompatible function arguments")
        rel = [os.path.relpath(f.p, os.path.join(ROOT, "google3/third_party/visqol")) for f in (ref, deg)]
        return types.SimpleNamespace(moslqo=SCORES(self.made + tuple(rel)))


modules.module("google3"); modules.module("google3.pyglib"); modules.module("google3.third_party"); modules.module("google3.third_party.visqol")
modules.module("google3.third_party.visqol.python"); modules.module("google3.third_party.visqol.src"); modules.module("google3.third_party.visqol.src.proto")
modules.module("google3.pyglib.resources", GetARootDirWithAllResources=lambda: ROOT)
modules.module("google3.third_party.visqol.python.visqol_lib_py", FilePath=FilePath, VisqolManager=VisqolManager,
               DefaultAudioModelFile=lambda: "model/libsvm_nu_svr_model.txt", DefaultSpeechModelFile=lambda: "model/" + lattice_model())
modules.module("google3.third_party.visqol.src.proto.similarity_result_pb2", SimilarityResultMsg=type("SimilarityResultMsg", (), {}))


def lattice_model(): return [f for f in sorted(os.listdir(os.path.join(REPO, "model"))) if f.startswith("lattice_") and f.endswith(".tflite")][0]


def tested():
    """What conformance_test compares: constant -> (files and settings)."""
    s = re.sub(r"//[^\n]*", "", open(os.path.join(REPO, "tests/conformance_test.cc")).read())
    s = re.sub(r'"\s*"', "", s[s.index("INSTANTIATE"):])
    out = {}
    for m in re.finditer(r'ConformanceTestData\(\s*"([^"]*)",\s*"([^"]*)",\s*(true|false),\s*(\w+),\s*(true|false)(?:,\s*(true|false))?\s*\)', s):
        ref, deg, speech, name, lattice, unscaled = m.groups()
        model = lattice_model() if lattice == "true" else "libsvm_nu_svr_model.txt"
        out[name] = effective(model, speech == "true", unscaled == "true", 60, lattice == "true") + (False, False, ref, deg)
    if len(out) < 10 or len(out) != s.count("ConformanceTestData("): raise StandInGap("how conformance_test.cc states its cases")
    return out


@st.composite
def conformance(draw):
    """Scores before and after: the digits matter, so they come in many shapes."""
    score = st.one_of(st.floats(1, 5), st.floats(1, 5, width=32), st.sampled_from([1.0, 5.0, 2.0, 4.5, 1.0000000000000002, 4.999999999999999, 3.3333333333333335]), st.integers(1000, 5000).map(lambda i: i / 1000))
    return {"before": draw(st.lists(score, min_size=1, max_size=8)), "after": draw(st.lists(score, min_size=1, max_size=12)), "keep": draw(st.booleans()), "salt": draw(st.integers(0, 2**20))}


def check_conformance(c, label):
    global SCORES, ROOT
    test = tested()
    salt = lambda what: int(hashlib.sha1(("%d %s" % (c["salt"], what)).encode()).hexdigest()[:8], 16)
    # Near-unique scores: a comparison's is picked by its settings, then moved a little by them.
    def score(key):
        v = c["after"][salt(key) % len(c["after"])]
        return v if salt((key, 1)) % 4 == 0 else min(5.0, max(1.0, round(v, 2) + (salt((key, 2)) % 1000000) / 1e8 * (1 if v < 3 else -1)))
    SCORES = score
    ROOT = path("root")
    header = os.path.join(ROOT, "google3/third_party/visqol/src/include/conformance.h")
    shutil.rmtree(ROOT, ignore_errors=True)
    base = os.path.join(ROOT, "google3/third_party/visqol")
    os.makedirs(os.path.dirname(header))
    for d in ("model", "testdata"): os.symlink(os.path.join(REPO, d), os.path.join(base, d))
    text = open(os.path.join(REPO, "src/include/conformance.h")).read()
    macro = re.compile(r"^(#define\s+(k\w+)\s+\()([0-9.]+)(\))", re.M)
    if not c["keep"]:
        i = iter(range(10**6))
        text = macro.sub(lambda m: m.group(0) if m.group(2) not in test else m.group(1) + repr(float(c["before"][next(i) % len(c["before"])])) + m.group(4), text)
    open(header, "w").write(text)
    m = script("create_conformance_scores")
    commands = [l for l in run_main(m).splitlines() if l.strip()]
    for l in commands:
        if not l.startswith("sed -i "): raise StandInGap("commands other than sed")
    p = subprocess.run(["/bin/sh", "-e", "-c", "\n".join(commands)], cwd=os.path.join(ROOT, "google3"), capture_output=True, text=True, timeout=60)
    need(p.returncode == 0, "the commands fail: %s", p.stderr[:300])
    after = open(header).read()
    was, now = ({k: v for _, k, v, _ in macro.findall(t)} for t in (text, after))
    need(macro.sub(r"\2", text) == macro.sub(r"\2", after), "more than scores has changed")
    for name, key in test.items():
        need(name in was, "conformance.h has no %s", name)
        need(abs(float(now[name]) - score(key)) <= 1e-4, "%s is now %s, and conformance_test will measure %r", name, now[name], score(key))
    for name in was:
        if name not in test: need(was[name] == now[name], "%s is not the test's, and went from %s to %s", name, was[name], now[name])
    label("scores kept" if c["keep"] else "scores of the case's")
    return any(was[n] != now[n] for n in test)


# --- the batch file of the TCD-VoIP dataset
name = st.text("abcXYZ019_-.", min_size=1, max_size=8).filter(lambda s: s.strip(".") and not s.startswith("-"))
@st.composite
def dataset(draw):
    conditions = draw(st.lists(st.sampled_from(["chop", "clip", "echo", "noise", "compspkr", "ref_tests", "preref", "R_x"]), min_size=1, max_size=4, unique=True))
    recordings = [[k, "%02d_%s_%s" % (i, k.upper(), draw(st.sampled_from(["FA", "FG", "MK", "ML", "R_1", "wav", "ref"])))] for k in conditions for i in range(1, 1 + draw(st.integers(0, 6)))]
    return {"root": draw(st.lists(st.one_of(st.sampled_from(["ref", "data", "TCD-VOIP", "R_1", "Test_Set", "a.wav"]), name), min_size=1, max_size=3)),
            "recordings": recordings, "clutter": draw(st.lists(st.sampled_from(["README", "C_notes.txt", "ref/list.txt", "ref/R_01.wav.bak"]), max_size=2, unique=True))}


def check_dataset(c, label):
    top = path("tcd"); shutil.rmtree(top, ignore_errors=True)
    root = os.path.join(top, *c["root"])
    for k, r in c["recordings"]:
        d = os.path.join(root, "Test_Set", k); os.makedirs(os.path.join(d, "ref"), exist_ok=True)
        for f in ("ref/R_" + r, "C_" + r): open(os.path.join(d, f + ".wav"), "w").close()
    for k in {k for k, _ in c["recordings"]}:
        for f in c["clutter"]: open(os.path.join(root, "Test_Set", k, f), "w").close()
    if not c["recordings"]: os.makedirs(os.path.join(root, "Test_Set"))
    shutil.copy(os.path.join(REPO, "scripts/make_tcd_voip_batch_csv.sh"), root)
    p = subprocess.run(["/bin/sh", "make_tcd_voip_batch_csv.sh"], cwd=root, capture_output=True, text=True, timeout=60)
    real = os.path.realpath(root)
    want = sorted("%s/Test_Set/%s/ref/R_%s.wav,%s/Test_Set/%s/C_%s.wav" % (real, k, r, real, k, r) for k, r in c["recordings"])
    lines = p.stdout.splitlines()
    need(lines and [x.strip() for x in lines[0].split(",")] == ["reference", "degraded"], "the first line is %r", lines[:1])
    need(sorted(lines[1:]) == want, "the rows are not the dataset's recordings: %s", sorted(set(lines[1:]) ^ set(want))[:2])
    label("%s recordings" % ("no" if not want else "one" if len(want) == 1 else "several"))
    if "ref" in c["root"]: label("below a directory named ref")
    return len(want) > 1


# --- the TFLite conversion
@st.composite
def conversion(draw):
    return {"dir": draw(st.lists(name, min_size=1, max_size=3)), "slash": draw(st.integers(0, 3)) == 0, "out": draw(st.lists(name, min_size=0, max_size=2)), "out_slash": draw(st.booleans()), "bytes": draw(st.binary(max_size=300)).hex(), "old": draw(st.booleans())}


def check_conversion(c, label):
    m = script("convert_saved_model_to_tflite")
    seen = []
    class Converter:
        def __init__(self, d): self.d, self.target_spec = d, types.SimpleNamespace(supported_ops=[])
        @classmethod
        def from_saved_model(cls, d, *a, **kw): return cls(d)
        def convert(self): seen.append((os.path.normpath(self.d), set(self.target_spec.supported_ops))); return bytes.fromhex(c["bytes"])
    lite = types.SimpleNamespace(TFLiteConverter=Converter, OpsSet=types.SimpleNamespace(TFLITE_BUILTINS="builtins", SELECT_TF_OPS="select"))
    m.tf = types.SimpleNamespace(lite=lite)
    shutil.rmtree(path("conv"), ignore_errors=True)
    src, out = os.path.join(path("conv"), "in", *c["dir"]), os.path.join(path("conv"), "out", *c["out"])
    os.makedirs(src); os.makedirs(out)
    target = c["dir"][-1] + ".tflite"
    if c["old"]: open(os.path.join(out, target), "wb").write(b"x" * 400)
    FLAGS.known.update(saved_model_dir=src + ("/" if c["slash"] else ""), output_dir=out + ("/" if c["out_slash"] else ""))
    run_main(m)
    need(len(seen) == 1 and seen[0][0] == src, "converted %s, not %s", seen, src)
    need(seen[0][1] >= {"builtins", "select"}, "the operations allowed are %s", sorted(seen[0][1]))
    need(os.listdir(out) == [target], "%s was written, not %s", os.listdir(out), target)
    need(open(os.path.join(out, target), "rb").read() == bytes.fromhex(c["bytes"]), "the file does not hold the converted model")
    label("trailing slash" if c["slash"] else "plain")
    return len(c["bytes"]) > 0


hyp.FACETS = {  # name: (strategy, check, quick, thorough)
    "conformance": (conformance, check_conformance, 600, 12000),
    "dataset": (dataset, check_dataset, 1600, 40000),
    "conversion": (conversion, check_conversion, 1600, 40000),
}
hyp.ID = "C29"
hyp.RULE = "conformance: old and new scores of many shapes, a comparison's new score picked by its settings, non-trivial when the commands change a recorded score; dataset: directory trees of 0 to 24 recordings below any directory, non-trivial with two or more; conversion: names of directories and contents of a model, non-trivial when it is not empty"
hyp.ASSUMPTIONS = ["the Python binding, absl and TensorFlow are stand-ins; the manager's takes the arguments python/visqol_lib_py.cc declares", "file names hold no white space", "which settings belong to which recorded score is read from tests/conformance_test.cc"]

if __name__ == "__main__": sys.exit(hyp.main())
