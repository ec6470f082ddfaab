#!/usr/bin/env python3
"""C28: the training tools turn measurements into training data faithfully (hypothesis)."""
import contextlib, csv, io, json, math, os, random, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import hyp
from hyp import FLAGS, REPO, StandInGap, modules, need, path, run_main, script, st
import numpy as np

def near(a, b, tol=1e-9): return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def write(name, header, rows):
    with open(path(name), "w", newline="") as f:
        w = csv.writer(f, lineterminator="\n"); w.writerow(header); w.writerows(rows)
    return path(name)


NAMES = ("fvnsim%d", "fvnsim10_%d", "fstdnsim%d", "fvdegenergy%d")
def features(bands): return [n % i for i in range(bands) for n in NAMES]
def writer_order(bands): return [n % i for n in NAMES for i in range(bands)]
word = st.text("abcdefghijklmnopqrstuvwxyzABC0123456789_-.", min_size=1, max_size=6)


@st.composite
def table(draw, least=1, most=24, bands=None):
    """Result rows and scores, as their two files would hold them."""
    if bands is None: bands = draw(st.sampled_from([1, 2, 3, 5, 21, 32]))
    n = draw(st.integers(least, most))
    files = draw(st.lists(word, min_size=n, max_size=n, unique=True))
    rng = random.Random(draw(st.integers(0, 2**32)))
    rows = []
    for f in files:
        genspeech = draw(st.integers(0, 7)) == 0
        d = "/".join(rng.choice(["x", "set", "a b", "DE"]) for _ in range(rng.randint(0, 4)))
        deg = "/data/Speech_Databases/Genspeech/%s/%s/r%d/%s.wav" % (rng.choice("ab"), rng.choice("cd"), rng.randint(0, 3), f) if genspeech else (d + "/" if d else "") + f + ".wav"
        vals = [float("%.9g" % rng.uniform(0, 1)) for _ in features(bands)]
        if rows and draw(st.integers(0, 5)) == 0: vals = [v for v in rng.choice(rows)["vals"]]
        bad = draw(st.integers(0, 9)) == 0
        if bad: vals[rng.randrange(len(vals))] = None
        rows.append({"deg": deg, "key": "_".join(deg.split("/")[-4:]) if genspeech else os.path.basename(deg), "vals": vals,
                     "mos": None if draw(st.integers(0, 7)) == 0 else round(rng.uniform(1, 5), rng.choice([0, 1, 3]))})
    order = draw(st.sampled_from(["writer", "interleaved", "shuffled"]))
    return {"bands": bands, "rows": rows, "order": order, "shuffle": rng.randint(0, 2**30), "extra_mos": draw(st.integers(0, 2)), "dirs": draw(st.booleans())}


def write_table(t, mos_header=("Filename", "MOS")):
    b, rng = t["bands"], random.Random(t["shuffle"])
    cols = ["reference", "degraded", "moslqo"] + (features(b) if t["order"] == "interleaved" else writer_order(b))
    if t["order"] == "shuffled": rng.shuffle(cols)
    def cell(r, c):
        if c == "reference": return "ref.wav"
        if c == "degraded": return r["deg"]
        if c == "moslqo": return "3.5"
        v = r["vals"][features(b).index(c)]
        return "nan" if v is None else "%.9g" % v
    index = {c: i for i, c in enumerate(features(b))}
    rows = [[("ref.wav" if c == "reference" else r["deg"] if c == "degraded" else "3.5" if c == "moslqo" else "nan" if r["vals"][index[c]] is None else "%.9g" % r["vals"][index[c]]) for c in cols] for r in t["rows"]]
    res = write("results.csv", cols, rows)
    scored = [(("/some/dir/" if t["dirs"] else "") + r["key"], r["mos"]) for r in t["rows"] if r["mos"] is not None] + [("unheard%d.wav" % i, 1 + i) for i in range(t["extra_mos"])]
    rng.shuffle(scored)
    return res, write("mos.csv", mos_header, scored)


def usable(t): return [r for r in t["rows"] if r["mos"] is not None and None not in r["vals"]]
def f32(v): return float(np.float32(v))


# --- training: the whole of train_lattice.py, what it hands to the library observed
@st.composite
def training(draw):
    t = draw(table(least=2))
    return {"table": t, "ratio": draw(st.sampled_from([0.0, 0.25, 0.5, 0.8, 0.9, 1.0])), "model": draw(st.sampled_from(["linear", "random_ensemble", "tau_ensemble", "tau_ensemble"])),
            "batch": draw(st.integers(1, 40)), "epochs": draw(st.integers(1, 9)), "rate": draw(st.sampled_from([0.001, 0.005, 0.1])), "keypoints": draw(st.integers(2, 20)),
            "lattice_size": draw(st.integers(2, 4)), "lattices": draw(st.integers(1, 30)), "rank": draw(st.integers(2, 16)), "per_fvnsim": draw(st.integers(0, 4)), "per_rest": draw(st.integers(0, 8)),
            "calibrate": draw(st.booleans()), "updates": draw(st.sampled_from([[], ["a=1"], ["output_min=2", "b=xyz"]])), "seed": draw(st.integers(0, 2**31))}


def check_training(c, label):
    t = c["table"]; good = usable(t)
    res, mos = write_table(t)
    if not good: return None
    sets = []
    for attempt in range(2):
        m = script("train_lattice"); np.random.seed((c["seed"] + attempt) % 2**32); random.seed(c["seed"] * 3 + attempt)
        FLAGS.known.update(mos_csv=mos, fvnsim_csv=res, num_fvnsim_bands=t["bands"], train_set_ratio=c["ratio"], model=c["model"], batch_size=c["batch"], num_epochs=c["epochs"], learning_rate=c["rate"],
                           num_keypoints=c["keypoints"], lattice_size=c["lattice_size"], num_lattices=c["lattices"], lattice_rank=c["rank"], target_fvnsim_per_lattice=c["per_fvnsim"],
                           target_features_per_lattice=c["per_fvnsim"] + c["per_rest"], use_output_calibration=c["calibrate"], config_updates=c["updates"], model_dir=path("model"))
        run_main(m)
        S = dict(modules.seen)
        need(len(S["regressors"]) == 1 and len(S["trained"]) == 1, "%d models made and %d trained", len(S["regressors"]), len(S["trained"]))
        trained = S["trained"][0][1]
        tested = S["evaluated"][0][1] if S["evaluated"] else None
        records = {id(r): r for r in S["inputs"]}
        # What an input function feeds is found by calling it.
        def frame_of(fn):
            for k in fn.__closure__ or (): 
                if hasattr(k.cell_contents, "record"): return k.cell_contents.record
            raise StandInGap("where an input function's data come from")
        def rows_of(r):
            names = list(r.x.columns)
            need(sorted(n for n in names) == sorted(features(t["bands"])), "the columns trained on are %s", names)
            ys = list(r.y)
            need(all(len(list(r.x[n])) == len(ys) for n in names), "columns of different lengths")
            cols = {n: list(r.x[n]) for n in names}
            return [(float(ys[i]), tuple(f32(cols[n][i]) for n in features(t["bands"]))) for i in range(len(ys))]
        rec = frame_of(trained)
        got = rows_of(rec)
        test = rows_of(frame_of(tested)) if tested else []
        want = sorted((float(r["mos"]), tuple(f32(v) for v in r["vals"])) for r in good)
        need(sorted(got + test) == want, "the data trained and tested on are not the %d rows that have a score and values, but %d + %d rows", len(want), len(got), len(test))
        need(len(got) == int(len(good) * c["ratio"]), "%d of %d rows to train on at ratio %g", len(got), len(good), c["ratio"])
        need((tested is None) == (len(test) == 0), "tested on nothing")
        need(rec.num_epochs == c["epochs"] and rec.batch_size == c["batch"], "epochs %r, batch %r", rec.num_epochs, rec.batch_size)
        if tested: need(frame_of(tested).num_epochs == 1 and frame_of(tested).batch_size == c["batch"], "the test runs %r epochs of %r", frame_of(tested).num_epochs, frame_of(tested).batch_size)
        analysed = S["regressors"][0].kw.get("feature_analysis_input_fn")
        need(analysed is not None and sorted(rows_of(frame_of(analysed))) == sorted(got) and frame_of(analysed).num_epochs == 1, "the features are not analysed over one pass of the training data")
        sets.append(sorted(got))
    need(sets[0] == sets[1], "two runs over the same files train on different rows")
    label("trained and tested" if test else "nothing to test on"); label(c["model"])
    if len(good) < len(t["rows"]): label("rows left out")
    # The input function: every batch has a quantile for each of its rows.
    if got:
        lo = hi = False
        for _ in range(3):
            fx, fy = trained()
            tau = np.asarray(fx["tau"])
            need(tau.shape == (len(fy),), "%s quantiles for %d rows", tau.shape, len(fy))
            need(bool((tau >= 0).all() and (tau <= 1).all()), "a quantile of %g", float(tau.min() if tau.min() < 0 else tau.max()))
            need(sorted(fx) == sorted(features(t["bands"]) + ["tau"]), "fed %s", sorted(fx))
    # The model.
    reg = S["regressors"][0].kw; model = reg["model_config"].kw
    need(model.get("output_min") == 1 and model.get("output_max") == 5, "the output runs from %r to %r", model.get("output_min"), model.get("output_max"))
    need(model.get("output_calibration") == c["calibrate"], "output calibration %r", model.get("output_calibration"))
    need(near(reg["optimizer"].args[0] if reg["optimizer"].args else reg["optimizer"].kw["learning_rate"], c["rate"]), "learning rate")
    need(str(reg.get("model_dir")) == path("model"), "model directory %r", reg.get("model_dir"))
    ups = [u for _, l in S["updates"] for u in l]
    need([tuple(u) for u in ups] == [tuple(u.split("=")) for u in c["updates"]], "updates %s became %s", c["updates"], ups)
    fcs = {f.kw["name"]: f.kw for f in model["feature_configs"]}
    need(len(fcs) == len(model["feature_configs"]) and sorted(fcs) == sorted(features(t["bands"]) + ["tau"]), "features configured: %s", sorted(fcs))
    for n, f in fcs.items():
        mono = n == "tau" or n.startswith("fvnsim")
        need(f.get("monotonicity", "none") == ("increasing" if mono else "none"), "%s is %r", n, f.get("monotonicity"))
        size = c["lattice_size"] if n.startswith("fvnsim") else 2
        need(f.get("lattice_size", 2) == size, "%s has lattice size %r, not %d", n, f.get("lattice_size"), size)
        if n == "tau":
            k = np.asarray(f["pwl_calibration_input_keypoints"], dtype=float)
            need(len(k) == c["keypoints"] and k[0] == 0 and k[-1] == 1 and bool((np.diff(k) > 0).all()), "keypoints %s", k)
        else: need(f["pwl_calibration_num_keypoints"] == c["keypoints"], "%s has %r keypoints", n, f["pwl_calibration_num_keypoints"])
    need(sorted(x.kw["key"] for x in reg["feature_columns"]) == sorted(fcs), "the feature columns are %s", sorted(x.kw["key"] for x in reg["feature_columns"]))
    for _, fn in S["exported"]:
        if fn.args[0] == "raw": need(sorted(fn.kw.get("features") or fn.args[1]) == sorted(fcs), "the exported inputs are others")
        else: need(sorted(fn.kw.get("feature_spec") or fn.args[1]) == sorted(fcs), "the exported inputs are others")
    need(len(S["exported"]) == 2, "%d models exported", len(S["exported"]))
    if c["model"] == "random_ensemble": need(model.get("num_lattices") == c["lattices"] and model.get("lattice_rank") == c["rank"], "lattices %r of rank %r", model.get("num_lattices"), model.get("lattice_rank"))
    if c["model"] == "tau_ensemble":
        ls = [list(l) for l in model["lattices"]]
        used = {str(n) for l in ls for n in l}
        need(used == set(fcs), "features in no lattice: %s; unknown ones: %s", sorted(set(fcs) - used), sorted(used - set(fcs)))
        need(all("tau" in l for l in ls), "a lattice without the quantile")
        need(len(ls) in (c["lattices"], c["lattices"] + 1), "%d lattices, not %d", len(ls), c["lattices"])
        limit = c["lattice_size"] ** c["per_fvnsim"] * 2 ** c["per_rest"]
        for l in ls[:c["lattices"]]:
            need(len(l) <= c["rank"], "a lattice of %d features at rank %d", len(l), c["rank"])
            p = 1
            for n in l:
                if n != "tau": p *= c["lattice_size"] if n.startswith("fvnsim") else 2
            need(p <= limit, "a lattice of %d parameters, over %d", p, limit)
        label("one more lattice" if len(ls) > c["lattices"] else "no further lattice")
    # The quantile loss.
    r = np.random.RandomState(c["seed"] % 2**32); n = 1 + c["batch"]
    y, z, tau = r.uniform(1, 5, (n, 1)), r.uniform(1, 5, (n, 1)), r.uniform(0, 1, n)
    loss = np.asarray(reg["loss_fn"](labels=y, logits=z, features={"tau": tau}), dtype=float)
    d = (y - z)[:, 0]; want = np.where(d > 0, tau * d, (tau - 1) * d)
    need(loss.shape == (n, 1) and bool(np.allclose(loss[:, 0], want, rtol=1e-5, atol=1e-6)), "the loss is not the quantile loss: %s for %s", loss[:1], want[:1])
    return len(good) >= 2


# --- libsvm files
@st.composite
def svm(draw):
    n, bands = draw(st.integers(1, 12)), draw(st.sampled_from([1, 2, 9, 10, 11, 12, 21, 32]))
    rng = random.Random(draw(st.integers(0, 2**32)))
    kind = draw(st.sampled_from(["fvnsim only", "fvnsim only", "with score", "all columns"]))
    return {"bands": bands, "kind": kind, "extra": draw(st.integers(0, 2)), "mos": [round(rng.uniform(1, 5), rng.choice([0, 1, 4])) for _ in range(n)],
            "rows": [[float("%.9g" % rng.uniform(-0.1, 1)) for _ in range(4 * bands)] for _ in range(n)]}


def check_svm(c, label):
    b = c["bands"]
    cols = ["reference", "degraded"] + ([] if c["kind"] == "fvnsim only" else ["moslqo"]) + ([n % i for n in NAMES for i in range(b)] if c["kind"] == "all columns" else ["fvnsim%d" % i for i in range(b)])
    res = write("results.csv", cols, [["r%d.wav" % i, "d%d.wav" % i] + ([] if c["kind"] == "fvnsim only" else ["3.25"]) + ["%.9g" % v for v in (r if c["kind"] == "all columns" else r[:b])] for i, r in enumerate(c["rows"])])
    mos = write("mos.csv", ["file", "listeners"][:c["extra"]] + ["moslqs"], [["f%d.wav" % i, 7][:c["extra"]] + [v] for i, v in enumerate(c["mos"])])
    label(c["kind"]); label("%d further columns" % c["extra"])
    m = script("make_svm_train_file")
    FLAGS.known.update(results_csv_path=res, moslqs_csv_path=mos)
    lines = run_main(m).splitlines()
    check_svm_lines(lines, c["mos"], [r[:b] for r in c["rows"]])
    return len(lines) > 1


def check_svm_lines(lines, scores, rows):
    need(len(lines) == len(rows), "%d lines for %d rows", len(lines), len(rows))
    for i, (line, y, r) in enumerate(zip(lines, scores, rows)):
        label_, *rest = line.split(" ")
        need(near(float(label_), y), "line %d has score %s, not %r", i, label_, y)
        need(len(rest) == len(r), "line %d has %d values, not %d", i, len(rest), len(r))
        for k, (item, v) in enumerate(zip(rest, r)):
            no, _, x = item.partition(":")
            need(no == str(k + 1) and near(float(x), v), "line %d has %s where %d:%r belongs", i, item, k + 1, v)


# --- the polynomial
@st.composite
def poly(draw):
    t = draw(table(least=6, most=40, bands=1))
    return {"table": t, "ratio": draw(st.sampled_from([0.5, 0.7, 1.0])), "coefs": [draw(st.floats(-50, 50)) for _ in range(4)], "seed": draw(st.integers(0, 2**31))}


def sse(x, y, p): return float(np.sum((np.polyval(p, x) - y) ** 2))


def check_poly(c, label):
    t = c["table"]
    for r in t["rows"]:
        r["key"] = os.path.basename(r["deg"])
    if len({r["key"] for r in t["rows"]}) < len(t["rows"]): return None
    good = [r for r in t["rows"] if r["mos"] is not None and r["vals"][0] is not None]
    t = dict(t, dirs=False)
    _, mos = write_table(t)
    nsim = write("nsim.csv", ["reference", "degraded", "vnsim"], [["/x/ref.wav", r["deg"], "nan" if r["vals"][0] is None else "%.9g" % r["vals"][0]] for r in t["rows"]])
    n_train = int(len(good) * c["ratio"])
    if n_train < 5: return None
    m = script("fit_nsim_to_mos_poly"); random.seed(c["seed"])
    FLAGS.known.update(mos_csv=mos, nsim_csv=nsim, train_set_ratio=c["ratio"])
    np.seterr(all="ignore")
    with contextlib.redirect_stderr(io.StringIO()):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); run_main(m)
    logs = " ".join(str(a[0]) % tuple(a[1:]) if len(a) > 1 else str(a[0]) for a in modules.seen["logs"])
    sizes = re.search(r"train size (\d+), test size (\d+), total size (\d+)", logs)
    if sizes: need(tuple(map(int, sizes.groups())) == (n_train, len(good) - n_train, len(good)), "sizes %s, not %s", sizes.groups(), (n_train, len(good) - n_train, len(good)))
    merged = {k: (float(v[0]), float(v[1])) for k, v in dict(m.MergeVNSIMAndMOS(m.LoadMOS(mos), m.LoadVNSIM(nsim))).items()}
    want = {r["key"]: (float("%.9g" % r["vals"][0]), float(r["mos"])) for r in good}
    need(merged == want, "the files merged are not those with both values: %s", sorted(set(merged.items()) ^ set(want.items()))[:2])
    pairs = sorted(want.items())
    fitted = m.PolyFitTrain(pairs)
    x, y = np.array([p[1][0] for p in pairs]), np.array([p[1][1] for p in pairs])
    if len(set(x)) >= 4:
        best = float(np.polynomial.Polynomial.fit(x, y, 3).linspace(2)[1][0] * 0 + np.sum((np.polynomial.Polynomial.fit(x, y, 3)(x) - y) ** 2))
        need(len(fitted) == 4 and sse(x, y, fitted) <= best * (1 + 1e-6) + 1e-9, "the fit's squared error is %g, the least is %g", sse(x, y, fitted), best)
    for p in (list(map(float, fitted)), c["coefs"]):
        err = float(m.PolyFitError(pairs, p))
        ref = float(np.mean([(yy - min(5.0, max(1.0, ((p[0] * xx + p[1]) * xx + p[2]) * xx + p[3]))) ** 2 for xx, yy in zip(x, y)]))
        need(near(err, ref, 1e-6), "the error is %r, not %r", err, ref)
        top = sum(p); s = float(m.ScaleForPerfectRef(p))
        if abs(top) > 1e-6 and abs(top - 5) > 1e-9: need(near(s, 1.0) if top > 5 else near(s * top, 5.0, 1e-6), "scale %r where perfect similarity is %r", s, top)
    label("rows left out" if len(good) < len(t["rows"]) else "all rows used")
    return True


# --- what the program writes is what the tools read
@st.composite
def program(draw):
    return {"speech": draw(st.booleans()), "pairs": [[draw(st.sampled_from(["noise", "gain", "same", "drop"])), draw(st.integers(0, 2**31))] for _ in range(draw(st.integers(1, 3)))], "mos": [draw(st.floats(1, 5)) for _ in range(3)]}


def check_program(c, label):
    import wave
    sr = 16000 if c["speech"] else 48000
    for f in ("out.csv", "out.json"):
        if os.path.exists(path(f)): os.remove(path(f))
    batch = []
    for i, (kind, s) in enumerate(c["pairs"]):
        r = np.random.RandomState(s); n = int(sr * 1.6)
        x = r.normal(0, 1, n) * np.repeat(r.uniform(0.05, 1, 16), n // 16 + 1)[:n]; x = 0.2 * x / np.abs(x).max()
        y = x * 0.5 if kind == "gain" else x + r.normal(0, 0.01, n) if kind == "noise" else np.where((np.arange(n) // 3000) % 5 == 0, 0, x) if kind == "drop" else x
        for name, v in (("r%d.wav" % i, x), ("d%d.wav" % i, y)):
            with wave.open(path(name), "wb") as w:
                w.setnchannels(1); w.setsampwidth(2); w.setframerate(sr); w.writeframes((np.clip(v, -1, 1) * 32767).astype("<i2").tobytes())
        batch.append([path("r%d.wav" % i), path("d%d.wav" % i)])
    b = write("batch.csv", ["reference", "degraded"], batch)
    models = os.path.join(REPO, "model")
    model = [f for f in os.listdir(models) if f.endswith("_raw.tflite")][0] if c["speech"] else "libsvm_nu_svr_model.txt"
    p = subprocess.run([os.path.join(os.environ["VERIF_BUILD"], "visqol_cli"), "--batch_input_csv", b, "--results_csv", path("out.csv"), "--output_debug", path("out.json"), "--similarity_to_quality_model", os.path.join(models, model)] + (["--use_speech_mode"] if c["speech"] else []),
                       capture_output=True, timeout=120)
    need(p.returncode == 0 and os.path.exists(path("out.csv")), "the program failed: %s", p.stderr[-200:])
    text, msgs = open(path("out.json")).read(), []
    while text.strip():
        v, k = json.JSONDecoder().raw_decode(text.lstrip()); msgs.append(v); text = text.lstrip()[k:]
    need(len(msgs) == len(batch), "%d results for %d pairs", len(msgs), len(batch))
    bands = 21 if c["speech"] else 32
    values = [[m_[k][i] for i in range(bands) for k in ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy")] for m_ in msgs]
    m = script("train_lattice")
    mos = write("mos.csv", ["Filename", "MOS"], [["d%d.wav" % i, c["mos"][i]] for i in range(len(batch))])
    FLAGS.known.update(mos_csv=mos, fvnsim_csv=path("out.csv"), num_fvnsim_bands=bands, train_set_ratio=1.0, model="linear", model_dir=path("model"), batch_size=10, num_epochs=1, config_updates=[])
    run_main(m)
    r = modules.seen["inputs"][0]
    cols = {n: list(r.x[n]) for n in r.x.columns}
    got = sorted([float(list(r.y)[i])] + [float(cols[n][i]) for n in features(bands)] for i in range(len(list(r.y))))
    want = sorted([c["mos"][i]] + values[i] for i in range(len(batch)))
    need(len(got) == len(want), "%d rows to train on from %d results", len(got), len(want))
    for g, w in zip(got, want):
        for k, (a, e) in enumerate(zip(g, w)): need(near(a, e, 1e-6), "%s is %r in the training data and %r in the result", (["mos"] + features(bands))[k], a, e)
    m = script("make_svm_train_file")
    lq = write("lqs.csv", ["moslqs"], [[v] for v in c["mos"][:len(batch)]])
    FLAGS.known.update(results_csv_path=path("out.csv"), moslqs_csv_path=lq)
    lines = run_main(m).splitlines()
    check_svm_lines(lines, c["mos"], [[float("%.9g" % v) for v in m_["fvnsim"]] for m_ in msgs])
    label("speech" if c["speech"] else "audio")
    return any(k != "same" for k, _ in c["pairs"])


hyp.FACETS = {  # name: (strategy, check, quick, thorough)
    "training": (training, check_training, 1600, 40000),
    "libsvm files": (svm, check_svm, 2400, 80000),
    "polynomial": (poly, check_poly, 1600, 60000),
    "program": (program, check_program, 160, 4000),
}
hyp.ID = "C28"
hyp.RULE = "hypothesis-generated tables of results and scores in any column order, with rows missing and not-a-number values; every choice of model and its parameters; non-trivial when at least two rows (training, libsvm files) or five (polynomial) are usable, or a pair is not identical (program)"
hyp.ASSUMPTIONS = ["pandas, absl, TensorFlow and TensorFlow Lattice are stand-ins that record what they are given (standins/py)", "file names are unique and hold no comma"]

if __name__ == "__main__": sys.exit(hyp.main())
