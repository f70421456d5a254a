"""Simulated Python processes using the py-forust package: seeded histories, restarts and file faults.

Each run is a plan (plain data) derived from one seed. A run's processes are forked one after the
other from an interpreter that has only imported the package; what passes between them is the
simulated disk (a scratch directory below which sim_fs.c, preloaded, decides what each file call
does) and the recorded expectations. Replaying a plan repeats the run exactly.
"""
import ctypes, copy, hashlib, json, logging, math, os, pickle, random, resource, shutil, signal, subprocess, sys, time, traceback, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
JOBS = 8
OP_READ, OP_OPEN_R, OP_OPEN_W, OP_WRITE = 3, 1, 2, 4
ACT_ERR, ACT_SHORT, ACT_CRASH, ACT_EINTR, ACT_STICKY = 1, 2, 3, 4, 5
ERRNOS = [5, 28, 13, 30, 24, 23, 122, 27, 116, 6, 12]


# ------------------------------------------------------------------ plans
DEFAULTS = dict(objective_type="SquaredLoss", iterations=4, learning_rate=0.3, max_depth=3, max_leaves=sys.maxsize, l1=0.0, l2=1.0, gamma=0.0,
                max_delta_step=0.0, min_leaf_weight=1.0, base_score=0.5, nbins=256, parallel=False, allow_missing_splits=True,
                monotone_constraints=None, subsample=1.0, top_rate=0.1, other_rate=0.2, colsample_bytree=1.0, seed=0, missing="nan",
                create_missing_branch=False, sample_method=None, grow_policy="DepthWise", evaluation_metric=None, early_stopping_rounds=None,
                initialize_base_score=True, terminate_missing_features=None, missing_node_treatment="AssignToParent", log_iterations=0,
                feature_importance_method="Gain", force_children_to_bound_parent=False)
NAMES = ["a", "b b", "ünï", "quote\"'", "x\\y", "", "null", "漢字", "tab\t", "Z", "k1", "k2"]


def gen_names(r, n):
    k = r.randrange(6)
    if k == 0:
        return list(range(n))
    if k == 1:
        x = list(range(n))
        r.shuffle(x)
        return x
    if k == 2:
        return [10 * (n - i) for i in range(n)]
    if k == 3:
        return [f"f{i}" for i in range(n)]
    if k == 4:
        return [str(n - 1 - i) for i in range(n)]
    return r.sample(NAMES, min(n, len(NAMES))) + [f"more {i}" for i in range(n - len(NAMES))]


def gen_data(r, names, binary):
    return dict(seed=r.randrange(1 << 40), rows=r.choice([3, 8, 13, 20, 25, 40, 70]), names=names, binary=binary, nan=r.choice([0, 0, 0.1, 0.4]),
                levels=r.choice([2, 3, 8, 1000, 10 ** 9]), dtype=r.choice(["f8", "f8", "f4", "mixed"]), order=r.choice(["C", "F", "strided"]),
                w=r.random() < 0.4)


def gen_params(r, names, form, binary):
    p = {}
    def maybe(k, f, pr=0.35):
        if r.random() < pr:
            p[k] = f()
    p["objective_type"] = "LogLoss" if binary else "SquaredLoss"
    p["iterations"] = r.choice([1, 2, 3, 5, 9])
    maybe("learning_rate", lambda: r.choice([0.1, 1 / 3, 0.7, 1e-3]))
    maybe("max_depth", lambda: r.choice([1, 2, 5]))
    maybe("max_leaves", lambda: r.choice([2, 3, 6]))
    maybe("l1", lambda: r.choice([0.1, 0.5]))
    maybe("l2", lambda: r.choice([0.1, 3.3]))
    maybe("gamma", lambda: r.choice([0.01, 0.3]))
    maybe("max_delta_step", lambda: r.choice([0.1, 0.7]))
    maybe("min_leaf_weight", lambda: r.choice([0.1, 0.6, 2.0]))
    if r.random() < 0.3:
        p["base_score"] = r.choice([0.0, 0.1, 1 / 3, -2.5])
        p["initialize_base_score"] = False
    maybe("nbins", lambda: r.choice([2, 5, 20]))
    maybe("parallel", lambda: True)
    maybe("allow_missing_splits", lambda: False)
    keys = names if form == "df" else list(range(len(names)))
    def some(pr):
        return [k for k in keys if r.random() < pr]
    maybe("monotone_constraints", lambda: [[k, r.choice([1, -1, 0])] for k in some(r.choice([0.4, 1.0]))], 0.5)
    s = r.randrange(5)
    if s == 0:
        p["subsample"] = r.choice([0.5, 0.8])
        p["sample_method"] = r.choice([None, "random", "Random"])
    elif s == 1:
        p["sample_method"] = r.choice(["goss", "Goss"])
        p["top_rate"], p["other_rate"] = r.choice([(0.3, 0.4), (0.2, 0.5)])
    maybe("colsample_bytree", lambda: r.choice([0.6, 0.8]), 0.2)
    maybe("seed", lambda: r.randrange(1 << 60))
    maybe("missing", lambda: -99.0, 0.2)
    maybe("create_missing_branch", lambda: True)
    maybe("grow_policy", lambda: "LossGuide")
    maybe("evaluation_metric", lambda: r.choice(["RootMeanSquaredError", "LogLoss", "AUC"] if binary else ["RootMeanSquaredError"]))
    maybe("early_stopping_rounds", lambda: r.choice([1, 2, 3]))
    maybe("terminate_missing_features", lambda: some(0.5), 0.4)
    maybe("missing_node_treatment", lambda: r.choice(["AverageLeafWeight", "AverageNodeWeight", "None"]))
    maybe("log_iterations", lambda: r.choice([1, 2]))
    maybe("feature_importance_method", lambda: r.choice(["Weight", "Cover", "TotalGain", "TotalCover"]))
    maybe("force_children_to_bound_parent", lambda: True)
    return p


def gen_faults(r):
    return [r.choice([0, 300000, 800000]), r.choice([0, 300000]), r.randrange(1 << 40)]


def gen_fit(r, plan, form, same_names=True):
    cand = [i for i, d in enumerate(plan["data"]) if (d["names"] == plan["data"][0]["names"]) or not same_names]
    d = r.choice(cand)
    ev = []
    if r.random() < 0.5:
        same = [i for i, x in enumerate(plan["data"]) if x["names"] == plan["data"][d]["names"]]
        ev = [r.choice(same) for _ in range(r.choice([1, 1, 2, 3]))]
    return ["fit", dict(d=d, form=form, evals=ev, ew=r.random() < 0.5)]


BADFIT = ["y_nan", "w_neg", "w_nan", "eval_y_nan", "eval_w_neg", "eval_cols", "str_col", "constraint_col", "y_none", "names"]


def gen_bad_fit(r, plan, form):
    op = gen_fit(r, plan, form, same_names=False)[1]
    op["bad"] = r.choice(BADFIT)
    op["pos"] = r.random()
    if op["bad"].startswith("eval") and not op["evals"]:
        op["evals"] = [op["d"]]
    return ["fit", op]


CONTRIBS = ["Average", "Weight", "Shapley", "BranchDifference", "ModeDifference", "MidpointDifference"]
IMPS = ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"]


def gen_call(r, plan, form, n, binary):
    """one call of a thread on the shared booster, or on boosters of its own"""
    same = [i for i, d in enumerate(plan["data"]) if d["names"] == plan["data"][0]["names"]]
    d, f, par = r.choice(same), r.choice([form, form, "np"]), r.choice([None, True, False])
    k = r.randrange(13)
    if k <= 2:
        return ["predict", d, f, par]
    if k <= 4:
        return ["contrib", d, f, r.choice(CONTRIBS + (["ProbabilityChange"] if binary else [])), par]
    if k == 5:
        return ["leaf", d, f]
    if k == 6:
        return ["pd", d, r.randrange(n), r.choice([None, 3])]
    if k == 7:
        return ["imp", r.choice(IMPS), r.random() < 0.5]
    if k == 8:
        return ["dump", r.choice(["json", "nodes", "frame", "text", "attrs", "params"])]
    if k == 9:
        return ["persist", r.choice(["save", "pickle"])]
    if k == 10:
        return ["load", d]
    o = gen_fit(r, plan, form)[1]
    return ["own", o, r.choice([0, 1, 2])]


# entries of the model file (and attributes of the pickled booster) that came in after the first
# release, with the value a model from before behaves as if it had
LATER = {
    "l1": 0.0, "max_delta_step": 0.0, "top_rate": 0.1, "other_rate": 0.2, "colsample_bytree": 1.0, "sample_method": None,
    "grow_policy": "DepthWise", "evaluation_metric": None, "early_stopping_rounds": None, "initialize_base_score": False,
    "terminate_missing_features": None, "missing_node_treatment": "AssignToParent", "log_iterations": 0,
    "force_children_to_bound_parent": False,
    "evaluation_history": None, "best_iteration": None, "prediction_iteration": None,
}
HISTORY = ("evaluation_history", "best_iteration", "prediction_iteration")


def make_plan(prop, seed, hashseed):
    r = random.Random(seed)
    binary = r.random() < 0.5
    form = r.choice(["df", "df", "np"])
    n = r.choice([1, 2, 3, 4, 5]) if r.random() < 0.97 else r.choice([11, 33])
    names = gen_names(r, n)
    plan = dict(prop=prop, seed=seed, hashseed=hashseed, threads=r.choice([1, 1, 2]))
    plan["data"] = [gen_data(r, names, binary) for _ in range(3)]
    other = gen_names(r, r.choice([1, 2, 3, 4, 5]))
    plan["data"].append(gen_data(r, other, binary))
    if r.random() < 0.03:
        plan["data"][0]["rows"] = r.choice([257, 1100, 2600])
    plan["params"] = gen_params(r, names, form, binary)
    if plan["params"].get("missing") is not None:
        for d in plan["data"]:
            d["miss"] = True
    h = []
    def hist(k):
        for _ in range(k):
            c = r.randrange(14)
            if c <= 2:
                h.append(gen_fit(r, plan, form))
            elif c == 3:
                h.append(["setpi", r.random()])
            elif c == 4:
                h.append(["meta", r.choice(NAMES), r.choice(NAMES) * 3])
            elif c == 5:
                h.append(["reload", r.choice(["save", "pickle", "pickle_file", "deepcopy"]), gen_faults(r)])
            elif c == 6:
                h.append(["setparams", {k: v for k, v in [("learning_rate", r.choice([0.2, 0.25])), ("max_depth", r.choice([2, 4])), ("seed", r.randrange(9)), ("l2", r.choice([0.5, 2.0]))] if r.random() < 0.5}])
            elif prop in ("C17", "C19") and c in (7, 8):
                h.append(gen_bad_fit(r, plan, form))
            elif prop in ("C17", "C19") and c == 9:
                h.append(["save_fail", r.choice(["call", "call", "quota", "dir"]), r.random(), r.choice(ERRNOS), r.random() < 0.5])
            elif prop in ("C17", "C19") and c == 10:
                h.append(["load_fail", r.choice(["read", "open", "trunc", "trunc", "zero", "absent", "utf8", "dir"]), r.random(), r.choice(ERRNOS)])
            elif prop == "C17" and c == 11:
                h.append(["bad_call", r.choice(["predict_cols", "contrib_cols", "leaf_cols", "importance_name", "contrib_name", "setparams", "get_metadata", "pd_name"])])
            elif prop == "C17" and c == 12:
                o = gen_fit(r, plan, form)
                o[1]["logfail"] = r.randrange(6)
                plan["params"].setdefault("log_iterations", 1)
                h.append(o)
            elif prop in ("C17", "C19") and c == 13:
                h.append(gen_fit(r, plan, r.choice(["df", "np"]), same_names=False))
    hist(r.choice([0, 1, 1, 2, 4, 7]))
    if prop == "C23":
        c = r.randrange(4)
        q = r.choice([0.2, 0.5, 0.8])
        plan["lacks"] = list(LATER) if c == 0 else [r.choice(list(LATER))] if c == 1 else [k for k in LATER if r.random() < q]
    if prop in ("C16", "C23"):
        if r.random() < 0.1 and not any(x[0] == "reload" for x in h):
            how = r.choice(["pickle", "pickle_file"])  # an unfitted booster
        else:
            h.append(gen_fit(r, plan, form))
            if r.random() < 0.5:
                h.append(["setpi", r.random()])
            how = r.choice(["save", "save", "pickle_file"])
        refit = gen_fit(r, plan, form)
        plan["procs"] = [h + [["persist", how, gen_faults(r)]] + ([["age", how]] if prop == "C23" else []) + [["expect_refit", refit[1]]],
                         [["restore", how, gen_faults(r)], ["view"], ["persist", r.choice(["save", "pickle_file"]) if how == "save" else how, gen_faults(r)], ["verify_refit", refit[1]]]]
        # a third process: the chain once more
        plan["procs"].append([["restore", plan["procs"][1][2][1], gen_faults(r)], ["view"], ["verify_refit", refit[1]]])
    elif prop == "C20":
        h.append(gen_fit(r, plan, form))
        if r.random() < 0.4:
            h.append(["setpi", r.random()])
        nthr = r.choice([2, 2, 3, 4])
        ops = [[gen_call(r, plan, form, n, binary) for _ in range(r.choice([1, 2, 3, 5]))] for _ in range(nthr)]
        h.append(["threads", dict(ops=ops, seed=r.randrange(1 << 40), gap=r.choice([1, 2, 5, 20]), opcodes=r.random() < 0.3, first=r.random() < 0.5)])
        plan["procs"] = [h]
    else:
        h.insert(0, gen_fit(r, plan, form))
        hist(r.choice([1, 2, 4]))
        h.append(gen_fit(r, plan, form))
        plan["procs"] = [h]
    return plan


# ------------------------------------------------------------------ in a simulated process
class Viol(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class OldPickle:
    """pickles like a booster of a release without some parameters"""

    def __init__(self, cls, older, lacks, b):
        self.state = dict(b.__getstate__())
        js = [k for k, v in self.state.items() if isinstance(v, str) and v.startswith("{") and '"trees"' in v]
        for k in js:
            self.state[k] = older(self.state[k])
        for l in lacks:
            self.state.pop(l, None)
        self.cls = cls

    def __reduce__(self):
        return object.__new__, (self.cls,), self.state


class Outside(Exception):
    """a (minimised) plan that leaves what is claimed: saving a booster that was never fitted"""


class Sim:
    """what an op needs: the package, numpy, pandas, the simulated disk"""

    def __init__(self, plan, lib, rundir):
        import numpy as np, pandas as pd
        import forust
        self.np, self.pd, self.forust, self.lib = np, pd, forust, lib
        self.plan, self.dir = plan, rundir
        self.cnt = {}
        self.h = hashlib.blake2b(digest_size=8)
        self.frames = {}

    def c(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def note(self, *a):
        self.h.update(repr(a).encode())

    # -- data
    def data(self, i):
        if i in self.frames:
            return self.frames[i]
        np, pd = self.np, self.pd
        d = self.plan["data"][i]
        r = random.Random(d["seed"])
        rows, names = d["rows"], d["names"]
        X = [[math.floor(r.random() * d["levels"]) - d["levels"] // 3 + (0.5 if d["dtype"] != "mixed" else 0) for _ in names] for _ in range(rows)]
        y = [sum(x) * 0.3 + r.gauss(0, 1) for x in X]
        if d["binary"]:
            m = sorted(y)[rows // 2]
            y = [float(v >= m) for v in y]
            if rows > 2 and len(set(y)) < 2:
                y[0] = 1.0 - y[0]
        miss = -99.0 if d.get("miss") else float("nan")
        for row in X:
            for j in range(len(names)):
                if r.random() < d["nan"]:
                    row[j] = miss
        X = np.array(X, dtype="float64").reshape(rows, len(names))
        w = np.array([r.choice([1.0, 2.0, 0.5]) for _ in range(rows)]) if d["w"] else None
        df = pd.DataFrame(X, columns=names)
        if d["dtype"] == "f4":
            df = df.astype("float32")
            X = np.ascontiguousarray(df.to_numpy(), dtype="float64")
        elif d["dtype"] == "mixed":
            # columns without missing values become integers
            df = pd.DataFrame({k: (df[k].astype("int64") if not df[k].isna().any() and j % 2 else df[k]) for j, k in enumerate(names)}, columns=names)
        if d["order"] == "F":
            X = np.asfortranarray(X)
        elif d["order"] == "strided":
            big = np.zeros((rows * 2, len(names)))
            big[::2] = X
            X = big[::2]
        self.frames[i] = (df, X, np.array(y), w)
        return self.frames[i]

    def frame(self, i, form):
        return self.data(i)[0 if form == "df" else 1]

    def params(self, p):
        q = {k: v for k, v in DEFAULTS.items()}
        q.update(p)
        if q["missing"] == "nan":
            q["missing"] = self.np.nan
        if q["monotone_constraints"] is not None:
            q["monotone_constraints"] = {k: v for k, v in q["monotone_constraints"]}
        if q["terminate_missing_features"] is not None:
            q["terminate_missing_features"] = set(q["terminate_missing_features"])
        return q

    def new(self, p):
        return self.forust.GradientBooster(**self.params(p))

    # -- faults
    def clear(self):
        self.lib.sim_fs_clear()

    def transient(self, f):
        self.lib.sim_fs_clear()
        self.lib.sim_fs_transient(ctypes.c_uint64(f[2]), ctypes.c_uint64(f[0]), ctypes.c_uint64(f[1]))

    # -- everything observable
    def view(self, m, params=True, meta=None):
        np, pd = self.np, self.pd
        v = {}

        def put(k, f):
            try:
                x = f()
                if isinstance(x, np.ndarray):
                    if x.dtype.kind == "f":
                        x = np.where(np.isnan(x), np.nan, x)  # one kind of NaN
                    x = (str(x.dtype), x.shape, x.tobytes())
                v[k] = repr(x)
            except Exception as e:
                v[k] = "raises " + type(e).__name__
            except BaseException as e:
                v[k] = "panics " + type(e).__name__
        d0 = self.plan["data"][0]
        for i in (0, len(self.plan["data"]) - 1):
            for form in ("df", "np"):
                X = self.frame(i, form)
                ok = getattr(m, "n_features_", -1) == X.shape[1]
                if form == "np" and not ok:
                    continue  # outside the contract
                put(f"predict {i} {form}", lambda: m.predict(X))
                if ok:
                    put(f"leaf {i} {form}", lambda: m.predict_leaf_indices(X))
                    for c in ["Average", "weight", "Shapley", "branch-difference", "ModeDifference", "MidpointDifference"] + (["ProbabilityChange"] if d0["binary"] else []):
                        put(f"contrib {c} {i} {form}", lambda: m.predict_contributions(X, method=c))
        df = self.frame(0, "df")
        if getattr(m, "n_features_", -1) == df.shape[1]:
            perm = df[[c for c in reversed(list(df.columns))]]
            put("frame permuted", lambda: m.predict(perm))
            ren = df.copy()
            ren.columns = ["other"] + list(df.columns[1:])
            put("frame renamed", lambda: m.predict(ren))
            for j, name in enumerate(df.columns):
                put(f"pd {j}", lambda: m.partial_dependence(df, feature=j, samples=4, exclude_missing=False))
                if isinstance(name, str):
                    put(f"pd name {j}", lambda: m.partial_dependence(df, feature=name, samples=None))
        for c in ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"]:
            for nz in (True, False):
                put(f"importance {c} {nz}", lambda: sorted(m.calculate_feature_importance(method=c, normalize=nz).items(), key=str))
        put("feature_importances_", lambda: m.feature_importances_)
        put("history", m.get_evaluation_history)
        put("best", lambda: (m.best_iteration, m.get_best_iteration()))
        put("prediction_iteration", lambda: m.prediction_iteration)
        put("trees", lambda: m.number_of_trees)
        put("names", lambda: m.feature_names_in_)
        put("n_features", lambda: m.n_features_)
        put("text", m.text_dump)
        put("nodes", m.get_node_lists)
        put("nodes plain", lambda: m.get_node_lists(map_features_names=False))
        put("frame", lambda: m.trees_to_dataframe().to_csv())
        for k in sorted(meta or []):
            put("meta " + k, lambda: m.get_metadata(k))
        if params:
            v.update(self.pview(m))

            def js():
                j = json.loads(m.json_dump())
                # a set: its order in the document means nothing
                if isinstance(j.get("terminate_missing_features"), list):
                    j["terminate_missing_features"].sort()
                return json.dumps(j, sort_keys=True)
            put("json", js)
        put("base_score", lambda: m.base_score)
        return v

    def pview(self, m):
        np = self.np
        v = {}
        try:
            g = m.get_params()
        except Exception as e:
            return {"params": "raises " + type(e).__name__}
        for k, x in g.items():
            if k in ("learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample"):
                x = float(np.float32(x))
            if k == "sample_method":
                x = {None: "Random" if g["subsample"] < 1 else None, "None": "Random" if g["subsample"] < 1 else None, "random": "Random", "goss": "Goss"}.get(x, x)
            if k == "terminate_missing_features":
                x = sorted(x or [], key=str)
            if k == "monotone_constraints":
                x = sorted((x or {}).items(), key=str)
            v["param " + k] = repr(x)
        return v


def diff(a, b):
    for k in a:
        if k not in b:
            return f"{k} is gone (was {a[k][:200]})"
        if a[k] != b[k]:
            return f"{k}: {a[k][:300]} became {b[k][:300]}"
    for k in b:
        if k not in a:
            return f"{k} appeared: {b[k][:200]}"
    return None


class FailingHandler(logging.Handler):
    def __init__(self, at):
        super().__init__()
        self.at, self.n, self.hit = at, 0, 0

    def emit(self, record):
        self.n += 1
        if self.n > self.at:
            self.hit += 1
            raise OSError("log sink failed")


# ------------------------------------------------------------------ the reference model (C19)
def close(a, b, tol=1e-5):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (math.isnan(a) and math.isnan(b))


class Ref:
    """the model as dumped, evaluated by the definition"""

    def __init__(self, S, m):
        j = json.loads(m.json_dump())
        self.trees = [t["nodes"] for t in j["trees"]]
        self.base = j["base_score"]
        self.missing = float(S.params({})["missing"]) if m.missing is None else float(m.missing)
        self.pi = j["prediction_iteration"]
        self.best = j["best_iteration"]
        self.avg = {}
        self.used = self.trees if self.pi is None else self.trees[:self.pi]

    def miss(self, v):
        return math.isnan(v) if math.isnan(self.missing) else v == self.missing

    def leaf(self, t, row):
        n = t[0]
        while not n["is_leaf"]:
            v = row[n["split_feature"]]
            n = t[n["missing_node"] if self.miss(v) else n["left_child"] if v < n["split_value"] else n["right_child"]]
        return n

    def path(self, t, row):
        p = [t[0]]
        while not p[-1]["is_leaf"]:
            n = p[-1]
            v = row[n["split_feature"]]
            p.append(t[n["missing_node"] if self.miss(v) else n["left_child"] if v < n["split_value"] else n["right_child"]])
        return p

    def average(self, t, i=0, out=None):
        n = t[i]
        w = n["weight_value"]
        if not n["is_leaf"]:
            kids = {n["left_child"], n["right_child"], n["missing_node"]}
            w = sum(self.average(t, k, out) * t[k]["hessian_sum"] for k in kids) / n["hessian_sum"]
        out[i] = w
        return w

    def contributions(self, c, row, cols):
        if c == "Shapley":
            return None
        sig = lambda q: 1 / (1 + math.exp(-q))
        e = [0.0] * cols + [sig(self.base) if c == "ProbabilityChange" else self.base]
        lo = self.base
        for ti, t in enumerate(self.used):
            p = self.path(t, row)
            if c == "Average" and ti not in self.avg:
                self.avg[ti] = {}
                self.average(t, 0, self.avg[ti])
            val = (lambda n: self.avg[ti][n["num"]]) if c == "Average" else (lambda n: n["weight_value"])
            if c == "ProbabilityChange":
                val = lambda n: sig(lo + n["weight_value"])
                e[cols] += val(p[0]) - sig(lo)
            elif c in ("Average", "Weight"):
                e[cols] += val(p[0])
            for a, b in zip(p, p[1:]):
                l, r = t[a["left_child"]], t[a["right_child"]]
                if c in ("Average", "Weight", "ProbabilityChange"):
                    d = val(b) - val(a)
                elif b is t[a["missing_node"]] and b is not l and b is not r:
                    d = 0.0
                elif c == "BranchDifference":
                    d = val(b) - val(r if b is l else l)
                elif c == "MidpointDifference":
                    d = val(b) - (val(l) * l["hessian_sum"] + val(r) * r["hessian_sum"]) / (l["hessian_sum"] + r["hessian_sum"])
                else:
                    d = 0.0 if l["hessian_sum"] == r["hessian_sum"] else val(b) - val(l if l["hessian_sum"] > r["hessian_sum"] else r)
                e[a["split_feature"]] += d
            lo += p[-1]["weight_value"]
        return e

    def pd(self, t, i, f, v):
        n = t[i]
        if n["is_leaf"]:
            return n["weight_value"]
        l, r, ms = n["left_child"], n["right_child"], n["missing_node"]
        if n["split_feature"] == f:
            return self.pd(t, ms if self.miss(v) else l if v < n["split_value"] else r, f, v)
        kids = [l, r] + ([ms] if ms not in (l, r) else [])
        tot = sum(t[k]["hessian_sum"] for k in kids)
        return sum(self.pd(t, k, f, v) * t[k]["hessian_sum"] / tot for k in kids) if tot else float("nan")


def layouts(S, i):
    """the rows of a data set in every container, order and exact type a user may pass"""
    np, pd = S.np, S.pd
    df, X, y, w = S.data(i)
    X = np.ascontiguousarray(df.to_numpy(), dtype="float64")
    rows, cols = X.shape
    big = np.full((rows * 2, cols * 3), 7.25)
    big[::2, 1::3] = X
    out = [("frame", df), ("C array", X), ("F array", np.asfortranarray(X)), ("strided array", big[::2, 1::3]), ("reversed array", np.ascontiguousarray(X[::-1])[::-1]),
           ("transposed array", np.ascontiguousarray(X.T).T), ("frame of one block", pd.DataFrame(X, columns=list(df.columns))), ("frame with other index", df.set_axis([f"r{k % 3}" for k in range(rows)], axis=0)),
           ("read-only array", X.copy())]
    out[-1][1].setflags(write=False)
    with np.errstate(all="ignore"):
        X4 = X.astype("float32")
        if ((X4.astype("float64") == X) | np.isnan(X)).all():
            out += [("float32 array", X4), ("float32 F array", np.asfortranarray(X4)), ("float32 frame", pd.DataFrame(X4, columns=list(df.columns)))]
        if not np.isnan(X).any() and (X == X.astype("int64")).all():
            if (X >= 0).all() and (X < 2).all():
                out.append(("bool array", X.astype("bool")))
            out += [("int64 array", X.astype("int64")), ("int frame", pd.DataFrame(X.astype("int32"), columns=list(df.columns)))]
    return out


def same_bytes(np, a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(np.ascontiguousarray(a).view("u1"), np.ascontiguousarray(b).view("u1"))


def strided(np, v):
    a = np.full((len(v), 3), 9, dtype=v.dtype)
    a[:, 1] = v
    return a[:, 1]


def prints(np, xs):
    """what is in these arrays and frames, and how it is labelled"""
    h = hashlib.blake2b(digest_size=8)
    for x in xs:
        if x is not None:
            h.update(repr([list(getattr(x, k, [])) for k in ("columns", "index") if hasattr(x, k)]).encode())
            h.update(repr([str(t) for t in x.dtypes] if hasattr(x, "dtypes") and hasattr(x, "columns") else str(x.dtype)).encode())
            h.update(np.ascontiguousarray(x.to_numpy() if hasattr(x, "to_numpy") else x).tobytes())
    return h.hexdigest()


def layout_fit(S, par, o, m, do_fit):
    """the same training data in another layout trains the same model"""
    np, pd = S.np, S.pd
    r = random.Random(S.plan["seed"] + o["d"])
    df, X, y, w = S.data(o["d"])
    named = o["form"] == "df"
    ls = [(n, x) for n, x in layouts(S, o["d"]) if ("frame" in n) == named]
    evs = lambda ci: [tuple([ci(e)] + [S.data(e)[2].copy()] + ([np.ones(len(S.data(e)[2])) if S.data(e)[3] is None else S.data(e)[3].copy()] if o["ew"] else [])) for e in o["evals"]] or None
    want = json.loads(m.json_dump())
    for n, x in r.sample(ls, min(2, len(ls))):
        yk, wk = r.randrange(7), r.randrange(6)
        ones = np.ones(len(y)) if w is None else w
        y2 = [y, pd.Series(y, index=range(5, 5 + len(y))), y.astype("int64") if (y == y.astype("int64")).all() else y, y.astype("float32") if (y.astype("float32") == y).all() else y,
              strided(np, y), y[::-1].copy()[::-1], pd.DataFrame(np.column_stack([y * 3, y]), columns=["o", "y"])["y"]][yk]
        w2 = [w, pd.Series(ones), ones.astype("float32"), strided(np, ones), ones[::-1].copy()[::-1], strided(np, ones.astype("float32"))][wk]
        b = S.new(par)
        pick = lambda e: r.choice([a for k, a in layouts(S, e) if ("frame" in k) == named])
        try:
            ev = evs(pick)
            if ev and r.random() < 0.5:
                ev = [tuple([e[0]] + [strided(np, q) for q in e[1:]]) for e in ev]
            was = prints(np, [x, y2, w2] + [q for e in ev or [] for q in e])
            b.fit(x, y2, sample_weight=w2, evaluation_data=ev)
            if was != prints(np, [x, y2, w2] + [q for e in ev or [] for q in e]):
                raise Viol("inputs", f"fit changed the data it was given ({n}, y {yk}, weights {wk})")
        except Viol:
            raise
        except BaseException as e:
            raise Viol("layout-fit", f"the same data as {n} (y {yk}, weights {wk}) does not fit: {type(e).__name__} {e}")
        got = json.loads(b.json_dump())
        for k in ("trees", "base_score", "evaluation_history", "best_iteration", "prediction_iteration"):
            if json.dumps(want.get(k)) != json.dumps(got.get(k)):
                raise Viol("layout-fit", f"training on the same data as {n} (y {yk}, weights {wk}) gives another {k}")
        S.c("layout_fits")


def ref_check(S, m, plan, last, fresh=False):
    """everything the booster shows agrees with the model it dumps"""
    np, pd = S.np, S.pd
    R = Ref(S, m)
    r = random.Random(plan["seed"] ^ len(R.trees))

    def bad(cls, msg):
        raise Viol(cls, msg)
    if m.number_of_trees != len(R.trees) or m.prediction_iteration != R.pi or m.best_iteration != R.best or m.get_best_iteration() != R.best:
        bad("counts", f"{m.number_of_trees} trees, prediction iteration {m.prediction_iteration}, best {m.best_iteration}; dumped {len(R.trees)}, {R.pi}, {R.best}")
    fit_d = plan["data"][last["d"]]
    names = fit_d["names"] if last["form"] == "df" else None
    if m.n_features_ != len(fit_d["names"]) or getattr(m, "feature_names_in_", None) != names:
        bad("names", f"{m.n_features_} features named {getattr(m, 'feature_names_in_', None)}, fit on {len(fit_d['names'])} named {names}")
    if not close(m.base_score, R.base, 0):
        bad("base-score", f"base_score {m.base_score}, dumped {R.base}")
    cand = [i for i, d in enumerate(plan["data"]) if d["names"] == fit_d["names"]]
    i = r.choice(cand)
    df, X, y, w = S.data(i)
    ls = [(n, x) for n, x in layouts(S, i) if names is None or "frame" not in n or list(df.columns) == names]
    first = None
    rows, cols = df.shape
    Xd = np.ascontiguousarray(df.to_numpy(), dtype="float64")
    meth = r.sample(CONTRIBS, 2) + ["Weight"] + (["ProbabilityChange"] if plan["data"][0]["binary"] else [])
    for n, x in r.sample(ls, min(4, len(ls))):
        was = prints(np, [x])
        v = dict(predict=m.predict(x), leaf=m.predict_leaf_indices(x))
        for c in meth:
            v["contrib " + c] = m.predict_contributions(x, method=c)
        for par in (True, False):
            if not same_bytes(np, v["predict"], m.predict(x, parallel=par)):
                bad("parallel", f"predict(parallel={par}) on {n} differs from parallel={m.parallel}")
        if first is None:
            first = (n, v)
        for k in v:
            if not same_bytes(np, first[1][k], v[k]):
                bad("layout", f"{k} on {n} differs from {first[0]}")
        # some of the rows
        sub = r.sample(range(rows), min(rows, r.choice([1, 2, 5])))
        xs = x.iloc[sub] if isinstance(x, pd.DataFrame) else x[sub]
        if not same_bytes(np, m.predict(xs), v["predict"][sub]) or not np.array_equal(m.predict_leaf_indices(xs), v["leaf"][sub]) or not same_bytes(np, m.predict_contributions(xs, method=meth[0]), v["contrib " + meth[0]][sub]):
            bad("rows", f"rows {sub} of {n} alone give other results than in the batch")
        if was != prints(np, [x]):
            bad("inputs", f"reading calls changed the data they were given ({n})")
    v = first[1]
    if v["predict"].shape != (rows,) or v["leaf"].shape != (rows, len(R.used)) or any(v["contrib " + c].shape != (rows, cols + 1) for c in meth):
        bad("shape", f"shapes {[(k, a.shape) for k, a in v.items()]} for {rows} rows, {cols} columns, {len(R.used)} trees")
    scale = 1 + abs(R.base) + sum(max(abs(n["weight_value"]) for n in t) for t in R.used)
    used_f = {n["split_feature"] for t in R.used for n in t if not n["is_leaf"]}
    for k in range(rows) if rows < 150 else sorted({0, 1, rows - 1, rows - 2} | {r.randrange(rows) for _ in range(80)}):
        lv = [R.leaf(t, Xd[k]) for t in R.used]
        if [n["num"] for n in lv] != [int(q) for q in v["leaf"][k]]:
            bad("leaf", f"row {k}: predict_leaf_indices {list(v['leaf'][k])}, by the dumped trees {[n['num'] for n in lv]}")
        p = R.base + sum(n["weight_value"] for n in lv)
        if not close(p, float(v["predict"][k])):
            bad("predict", f"row {k}: predict {v['predict'][k]}, base score plus leaf weights {p}")
        for c in meth:
            t = float(v["contrib " + c][k].sum())
            if c in ("Average", "Weight", "Shapley") and not (last_average(m) and c == "Weight") and not close(t, p, 1e-4):
                bad("contrib", f"row {k}: {c} contributions add up to {t}, prediction {p}")
            if c == "ProbabilityChange" and not close(t, 1 / (1 + math.exp(-p)), 1e-4):
                bad("contrib", f"row {k}: {c} contributions add up to {t}, probability {1 / (1 + math.exp(-p))}")
            e = R.contributions(c, Xd[k], cols)
            if e is not None:
                x = [float(q) for q in v["contrib " + c][k]]
                if any(abs(a - b) > 1e-5 * scale for a, b in zip(x, e)):
                    bad("contrib", f"row {k}: {c} contributions {x}, by the dumped trees {e}")
            for f in range(cols):
                if f not in used_f and v["contrib " + c][k][f] != 0:
                    bad("contrib", f"row {k}: {c} gives feature {f} {v['contrib ' + c][k][f]} though no tree uses it")
    # importances
    tot = {}
    for t in R.trees:
        for n in t:
            if not n["is_leaf"]:
                a = tot.setdefault(n["split_feature"], [0, 0.0, 0.0])
                a[0] += 1
                a[1] += n["split_gain"]
                a[2] += n["hessian_sum"]
    for c in IMPS:
        want = {f: {"Weight": a[0], "Gain": a[1] / a[0], "Cover": a[2] / a[0], "TotalGain": a[1], "TotalCover": a[2]}[c] for f, a in tot.items()}
        for nz in (False, True):
            got = m.calculate_feature_importance(method=c, normalize=nz)
            z = sum(want.values()) if nz else 1.0
            exp = {(f if names is None else names[f]): q / z for f, q in want.items()}
            if set(exp) != set(got) or any(not close(exp[f], got[f], 1e-4) for f in exp):
                bad("importance", f"{c} (normalize {nz}): {got}, by the dumped trees {exp}")
            if nz and c == m.feature_importance_method:
                a = list(m.feature_importances_)
                if len(a) != m.n_features_ or any(not close(q, exp.get(f if names is None else names[f], 0.0), 1e-4) for f, q in enumerate(a)):
                    bad("importance", f"feature_importances_ {a}, {c} {exp}")
    # the trees as objects and as a frame
    ns = m.get_node_lists(map_features_names=False)
    nm = m.get_node_lists()
    fr = m.trees_to_dataframe() if R.trees else None
    if [len(t) for t in ns] != [len(t) for t in R.trees] or len(nm) != len(ns) or (fr is not None and len(fr) != sum(map(len, ns))):
        bad("nodes", "get_node_lists or trees_to_dataframe has other trees or nodes than the dumped model")
    at = 0
    cols_ = {k: list(fr[k]) for k in fr.columns} if fr is not None else {}
    for ti, t in enumerate(R.trees):
        for k, n in enumerate(t):
            a, b = ns[ti][k], nm[ti][k]
            ok = all(getattr(a, q) == n[q] for q in ("num", "weight_value", "left_child", "right_child", "missing_node", "is_leaf", "split_value", "split_gain", "hessian_sum"))
            f = n["split_feature"]
            ok = ok and (n["is_leaf"] or (a.split_feature == f and b.split_feature == (f if names is None else names[f])))
            g = {q: cols_[q][at] for q in cols_}
            ok = ok and g["Tree"] == ti and g["Node"] == n["num"] and g["ID"] == f"{ti}-{n['num']}" and g["Cover"] == n["hessian_sum"]
            if n["is_leaf"]:
                ok = ok and g["Feature"] == "Leaf" and g["Gain"] == n["weight_value"]
            else:
                ok = ok and g["Feature"] == str(f if names is None else names[f]) and g["Split"] == n["split_value"] and g["Gain"] == n["split_gain"]
                ok = ok and (g["Yes"], g["No"], g["Missing"]) == tuple(f"{ti}-{n[q]}" for q in ("left_child", "right_child", "missing_node"))
            if not ok:
                bad("nodes", f"tree {ti} node {k}: dumped {n}, as object {a} / {b}, as row {g}")
            at += 1
    # the trees as text
    td = m.text_dump()
    if len(td) != len(R.trees):
        bad("text", f"text_dump has {len(td)} trees, the dumped model {len(R.trees)}")
    f4 = lambda a: float(np.float32(a))
    for ti, (t, txt) in enumerate(zip(R.trees, td)):
        lines = {}
        for l in txt.splitlines():
            if l.strip():
                a, b = l.strip().split(":", 1)
                lines.setdefault(int(a), []).append(b)
        for k, n in enumerate(t):
            got = lines.pop(k, [])
            ok = len(got) == 1
            if ok:
                b = got[0]
                if not n["is_leaf"]:
                    head, b = b.split("]", 1)
                    a, z = head.strip("[ ").split("<")
                    ok = int(a) == n["split_feature"] and float(z) == n["split_value"]
                kv = dict(q.split("=") for q in b.strip().split(","))
                want = {"leaf": "weight_value", "cover": "hessian_sum"} if n["is_leaf"] else {"yes": "left_child", "no": "right_child", "missing": "missing_node", "gain": "split_gain", "cover": "hessian_sum"}
                ok = ok and all(f4(kv[q]) == f4(n[w]) for q, w in want.items())
            if not ok:
                bad("text", f"tree {ti} node {k}: dumped {n}, as text {got}")
        if lines:
            bad("text", f"tree {ti}: text_dump lists nodes {sorted(lines)} the model does not have")
    # partial dependence
    f = r.randrange(cols)
    if names is None or list(df.columns) == names:
        keys = [("index", f)] + ([("name", df.columns[f])] if isinstance(df.columns[f], str) else [])
        for how, key in keys:
            ok = Xd[:, f][~(np.isnan(Xd[:, f]) | (Xd[:, f] == R.missing))]
            if len(ok) == 0:
                continue
            for ex, smp in ((True, None), (False, None), (r.random() < 0.5, r.choice([1, 2, 5]))):
                lo, hi = r.choice([(0.2, 0.98), (0.0, 1.0), (0.1, 0.5)])
                g = m.partial_dependence(df, feature=key, samples=smp, exclude_missing=ex, percentile_bounds=(lo, hi))
                vals = ([] if ex else [R.missing]) + (sorted(set(ok.tolist())) if smp is None else np.quantile(ok, np.linspace(lo, hi, num=smp)).tolist())
                if g.shape != (len(vals), 2) or any(not close(float(a), float(b), 1e-5 if smp else 0) for a, b in zip(g[:, 0], vals)):
                    bad("pd", f"partial_dependence by {how} lists {g[:, 0].tolist()} instead of {vals}")
                for a, b in g:
                    p = R.base + sum(R.pd(t, 0, f, float(a)) for t in R.used)
                    if not close(float(b), p, 1e-4):
                        bad("pd", f"partial dependence of feature {f} at {a} is {b}, by the dumped trees {p}")
    # history
    h = m.get_evaluation_history()
    if last["evals"]:
        if h is None or h.shape != (len(R.trees), len(last["evals"])):
            bad("history", f"evaluation history {None if h is None else h.shape} for {len(R.trees)} trees and {len(last['evals'])} sets")
        metric = m.evaluation_metric or ("LogLoss" if m.objective_type == "LogLoss" else "RootMeanSquaredLogError")
        for e, di in enumerate(last["evals"]):
            ed, eX, ey, ew = S.data(di)
            ew = np.ones(len(ey)) if ew is None or not last["ew"] else ew
            E = np.ascontiguousarray(ed.to_numpy(), dtype="float64")
            p = [R.base] * len(ey)
            for ti, t in enumerate(R.trees):
                p = [q + R.leaf(t, row)["weight_value"] for q, row in zip(p, E)]
                if metric == "RootMeanSquaredError":
                    x = math.sqrt(sum(a * (b - q) ** 2 for a, b, q in zip(ew, ey, p)) / sum(ew))
                elif metric == "RootMeanSquaredLogError":
                    if min(p) < -0.99 or min(ey) < -0.99:
                        break
                    x = math.sqrt(sum(a * (math.log1p(b) - math.log1p(q)) ** 2 for a, b, q in zip(ew, ey, p)) / sum(ew))
                elif metric == "LogLoss":
                    x = sum(a * (math.log1p(math.exp(-q)) if b else math.log1p(math.exp(q))) for a, b, q in zip(ew, ey, p)) / sum(ew)
                else:
                    break
                if max(map(abs, p)) < 15 and not close(float(h[ti][e]), x, 1e-4):
                    bad("history", f"evaluation history [{ti}][{e}] is {h[ti][e]}, {metric} of the first {ti + 1} trees is {x}")
    elif h is not None:
        bad("history", f"an evaluation history of shape {h.shape} though no evaluation data was given")
    S.c("view_checks")


def last_average(m):
    # with these, leaf and node weights of missing branches are not what was trained: Saabas contributions start elsewhere
    return False


# ------------------------------------------------------------------ simulated Python threads (C20)
class Sched:
    """exactly one thread runs; the baton moves at lines (or opcodes) of the package, as the seed says"""

    def __init__(self, seed, gap, pkg, opcodes, S):
        import threading
        self.real = threading
        self.r = random.Random(seed)
        self.gap, self.pkg, self.opcodes, self.S = gap, pkg, opcodes, S
        self.sem, self.live, self.cur, self.switches, self.points = {}, [], None, 0, 0
        self.ids = set()

    def add(self, k):
        self.sem[k] = REAL_LOCK()
        self.sem[k].acquire()
        self.live.append(k)

    def hand(self, k):
        self.cur = k
        self.sem[k].release()

    def point(self, force=False):
        me = self.cur
        self.points += 1
        if len(self.live) > 1 and (force or self.r.randrange(self.gap) == 0):
            k = self.r.choice([x for x in self.live if x != me] if force else self.live)
            if k != me:
                self.switches += 1
                self.S.note("switch", me, k, self.points)
                self.hand(k)
                self.sem[me].acquire()

    def done(self):
        me = self.cur
        self.live.remove(me)
        if self.live:
            k = self.r.choice(self.live)
            self.S.note("end", me, k)
            self.hand(k)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.pkg):
            return None
        frame.f_trace_opcodes = self.opcodes
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.point()
        return self.local


SCHED = None
REAL_LOCK = None


def cooperative_locks():
    """locks the package creates hand the baton on instead of blocking the only running thread"""
    global REAL_LOCK
    import threading
    REAL_LOCK = threading.Lock
    real_r = threading.RLock

    class Coop:
        def __init__(self, lock):
            self._l = lock

        def acquire(self, blocking=True, timeout=-1):
            if SCHED is None or threading.get_ident() not in SCHED.ids:
                # not one of the simulated threads (the interpreter starting or joining one, say)
                return self._l.acquire(blocking, timeout)
            n = 0
            while not self._l.acquire(False):
                if not blocking or (timeout >= 0 and n > 50):
                    return False
                n += 1
                if n > 20000:
                    os._exit(93)
                SCHED.point(force=True)
            return True

        def release(self):
            self._l.release()

        def locked(self):
            return self._l.locked()

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *a):
            self.release()
    threading.Lock = lambda: Coop(REAL_LOCK())
    threading.RLock = lambda: Coop(real_r())


def run_threads(S, plan, par, m, o, do_fit, path):
    global SCHED
    import threading
    np = S.np
    before = S.view(m)
    if plan["procs"][0] and m is None:
        return

    def norm(x):
        if isinstance(x, np.ndarray):
            return (str(x.dtype), x.shape, x.tobytes())
        return x

    def call(c, tid):
        k = c[0]
        X = lambda d, f: S.frame(d, f) if (f == "np" or not hasattr(m, "feature_names_in_") or list(S.frame(d, "df").columns) == m.feature_names_in_) else S.frame(d, "np")
        if k == "predict":
            return norm(m.predict(X(c[1], c[2]), parallel=c[3]))
        if k == "contrib":
            return norm(m.predict_contributions(X(c[1], c[2]), method=c[3], parallel=c[4]))
        if k == "leaf":
            return norm(m.predict_leaf_indices(X(c[1], c[2])))
        if k == "pd":
            return norm(m.partial_dependence(X(c[1], "df"), feature=c[2], samples=c[3]))
        if k == "imp":
            return sorted(m.calculate_feature_importance(method=c[1], normalize=c[2]).items(), key=str)
        if k == "dump":
            return {"json": lambda: json.dumps(json.loads(m.json_dump()), sort_keys=True), "nodes": m.get_node_lists, "frame": lambda: m.trees_to_dataframe().to_csv(), "text": m.text_dump,
                    "attrs": lambda: (m.best_iteration, m.prediction_iteration, m.number_of_trees, norm(m.get_evaluation_history()), norm(m.feature_importances_)), "params": lambda: sorted(m.get_params().items())}[c[1]]()
        if k == "persist":
            if c[1] == "pickle":
                n = pickle.loads(pickle.dumps(m))
            else:
                p = path(f"own{tid}")
                m.save_booster(p)
                n = S.forust.GradientBooster.load_booster(p)
            return sorted(S.pview(n).items()), norm(n.predict(S.frame(0, "np")))
        if k == "load":
            n = S.forust.GradientBooster.load_booster(path("shared"))
            return norm(n.predict(X(c[1], "df")))
        b = S.new(par)
        do_fit(b, c[1])
        if c[2]:
            b.set_prediction_iteration(1)
        else:
            b.save_booster(path(f"fit{tid}"))
            b = S.forust.GradientBooster.load_booster(path(f"fit{tid}"))
        return norm(b.predict(S.frame(c[1]["d"], c[1]["form"]))), sorted(b.calculate_feature_importance().items(), key=str), sorted(S.pview(b).items())

    def safe(c, tid):
        try:
            return repr(call(c, tid))
        except Exception as e:
            return f"raises {type(e).__name__}: {e}"
        except BaseException as e:
            return f"panics {type(e).__name__}: {e}"
    for i in range(len(plan["data"])):
        S.data(i)
    m.save_booster(path("shared"))
    alone = lambda: [[safe(c, 100 + t) for c in ops] for t, ops in enumerate(o["ops"])]
    exp = alone() if o["first"] else None
    got = [[None] * len(ops) for ops in o["ops"]]
    sc = Sched(o["seed"], o["gap"], os.path.dirname(S.forust.__file__), o["opcodes"], S)

    def body(t):
        sc.sem[t].acquire()
        sc.ids.add(threading.get_ident())
        sys.settrace(sc.trace)
        for j, c in enumerate(o["ops"][t]):
            got[t][j] = safe(c, t)
            sc.point()
        sys.settrace(None)
        sc.ids.discard(threading.get_ident())
        sc.done()
    th = []
    for t in range(len(o["ops"])):
        sc.add(t)
        th.append(threading.Thread(target=body, args=(t,), daemon=True))
    SCHED = sc
    [t.start() for t in th]
    sc.hand(0)
    [t.join() for t in th]
    SCHED = None
    S.c("thread_switches", sc.switches)
    S.c("thread_points", sc.points)
    S.c("threads", len(th))
    if exp is None:
        exp = alone()
    for t, ops in enumerate(o["ops"]):
        for j, c in enumerate(ops):
            S.note(hashlib.blake2b(str(exp[t][j]).encode(), digest_size=8).hexdigest())
            if exp[t][j].startswith("panics"):
                raise Viol("panic", f"{c}: {exp[t][j][:300]}")
            if got[t][j] != exp[t][j]:
                raise Viol("thread-differs", f"thread {t} call {j} {c}: {str(got[t][j])[:300]} instead of {exp[t][j][:300]} when alone")
    d = diff(before, S.view(m))
    if d:
        raise Viol("shared-changed", f"the shared booster changed: {d}")


def run_ops(S, ops, board):
    np = S.np
    plan = S.plan
    par = dict(plan["params"])
    meta = {}
    lacks = plan.get("lacks", [])
    for l in lacks:
        if l not in HISTORY:
            par[l] = LATER[l]
        if l == "sample_method":
            par.pop("subsample", None)
        if l == "initialize_base_score":
            par.setdefault("base_score", 0.25)
    noevals = any(l in HISTORY for l in lacks)
    if noevals:
        par.pop("early_stopping_rounds", None)
    if "m" in board:
        par, meta = board["m"]
    warnings.simplefilter("ignore")
    logging.getLogger().setLevel(logging.INFO)
    logging.getLogger().addHandler(logging.NullHandler())
    m = None
    fitted = False
    last = None

    def mk():
        nonlocal m
        if m is None:
            m = S.new(par)
        return m

    def do_fit(b, o):
        df, X, y, w = S.data(o["d"])
        X = df if o["form"] == "df" else X
        y = y.copy()
        w = None if w is None else w.copy()
        evs = []
        for e in [] if noevals else o["evals"]:
            ed, eX, ey, ew = S.data(e)
            eX = ed if o["form"] == "df" else eX
            evs.append([eX, ey.copy()] + ([np.ones(len(ey)) if ew is None else ew.copy()] if o["ew"] else []))
        bad = o.get("bad")
        at = lambda a: int(o["pos"] * len(a)) % len(a)
        if bad == "y_nan":
            y[at(y)] = np.nan
        elif bad in ("w_neg", "w_nan"):
            w = np.ones(len(y)) if w is None else w
            w[at(w)] = -1.0 if bad == "w_neg" else np.nan
        elif bad == "eval_y_nan":
            ey = evs[int(o["pos"] * len(evs))][1]
            ey[at(ey)] = np.nan
        elif bad == "eval_w_neg":
            e = evs[int(o["pos"] * len(evs))]
            if len(e) == 2:
                e.append(np.ones(len(e[1])))
            e[2][at(e[2])] = -2.0
        elif bad == "eval_cols":
            if o["form"] == "df":
                e = evs[-1]
                e[0] = e[0].rename(columns={e[0].columns[0]: "somethingelse"})
            else:
                y[at(y)] = np.nan
        elif bad == "str_col":
            if o["form"] == "df":
                X = X.copy()
                X["text"] = "hello"
            else:
                X = X.astype(object).copy()
                X[at(X), 0] = "hello"
        elif bad == "constraint_col":
            if o["form"] == "df":
                X = X.rename(columns=lambda c: f"{c} renamed")
                y[at(y)] = np.nan
            else:
                y[at(y)] = np.nan
        elif bad == "y_none":
            y = None
        elif bad == "names":
            # names the metadata cannot hold
            if o["form"] == "df":
                X = X.copy()
                X.columns = S.pd.date_range("2020-01-01", periods=X.shape[1])
            else:
                y[at(y)] = np.nan
        b.fit(X, y, sample_weight=w, evaluation_data=[tuple(e) for e in evs] if evs else None)

    def outcome(f):
        try:
            f()
            return "ok", None
        except Exception as e:
            return "raises " + type(e).__name__, e
        except BaseException as e:
            return "panics " + type(e).__name__, e

    def checked_fit(o):
        """a fit must do to this booster what it does to a new one with the same parameters"""
        nonlocal fitted
        b = mk()
        before = S.view(b, meta=meta)
        fresh = S.new(par)
        hs = None
        if o.get("logfail") is not None:
            hs = FailingHandler(o["logfail"])
            lg = logging.getLogger()
            lg.addHandler(hs)
        got, ex = outcome(lambda: do_fit(b, o))
        if hs:
            S.c("fault_log_sink", hs.hit)
            lg.removeHandler(hs)
        want, fx = outcome(lambda: do_fit(fresh, o))
        S.note("fit", got)
        if want != got:
            raise Viol("refit-outcome", f"fit on the used booster: {got} ({ex}), on a new one: {want} ({fx})")
        if got.startswith("panics"):
            raise Viol("panic", f"fit panicked: {ex}")
        if o.get("bad") and got == "ok":
            raise Viol("accepted", f"a fit with {o['bad']} was accepted")
        if got == "ok":
            fitted = True
            a, bb = S.view(fresh, params=False), S.view(b, params=False)
            d = diff(a, bb) or diff(S.pview(fresh), S.pview(b))
            if d:
                raise Viol("refit-differs", f"after a refit, compared with a new booster: {d}")
            S.c("fits")
            S.c("trees", b.number_of_trees)
        else:
            S.c("fault_rejected_fit")
            if o.get("bad"):
                S.c("rejected_" + o["bad"])
            d = diff(before, S.view(b, meta=meta))
            if d:
                raise Viol("rejected-fit-changed", f"after a rejected fit ({got}: {ex}): {d}")

    def path(n):
        return os.path.join(S.dir, n)

    def persist(b, how, n, faults):
        S.transient(faults)
        try:
            if how == "save":
                b.save_booster(path(n))
            elif how == "pickle_file":
                with open(path(n), "wb") as f:
                    pickle.dump(b, f)
            elif how == "pickle":
                with open(path(n), "wb") as f:
                    f.write(pickle.dumps(b, protocol=2))
        finally:
            S.clear()

    def restore(how, n, faults):
        S.transient(faults)
        try:
            if how == "save":
                return S.forust.GradientBooster.load_booster(path(n))
            with open(path(n), "rb") as f:
                return pickle.load(f) if how == "pickle_file" else pickle.loads(f.read())
        finally:
            S.clear()

    def guarded(cls, what, f):
        try:
            return f()
        except Viol:
            raise
        except BaseException as e:
            raise Viol(cls, f"{what} failed: {type(e).__name__}: {e}")

    def same(a, b, cls, what):
        d = diff(a, b)
        if d:
            raise Viol(cls, f"{what}: {d}")

    for k, op in enumerate(ops):
        S.note(k, op[0])
        kind = op[0]
        if kind == "fit":
            if plan["prop"] == "C17":
                checked_fit(op[1])
            elif plan["prop"] == "C19" and op[1].get("bad"):
                b = mk()
                was = fitted and ref_check(S, b, plan, last)
                o, e = outcome(lambda: do_fit(b, op[1]))
                S.note(o)
                if o.startswith("panics"):
                    raise Viol("panic", f"fit panicked: {e}")
                S.c("fault_rejected_fit")
                if fitted:
                    ref_check(S, b, plan, last)
            else:
                o, e = outcome(lambda: do_fit(mk(), op[1]))
                S.note(o)
                if o.startswith("panics"):
                    raise Viol("panic", f"fit panicked: {e}")
                if o != "ok" and plan["prop"] == "C19" and outcome(lambda: do_fit(S.new(par), op[1]))[0] == o:
                    S.c("fault_rejected_fit")  # names the constraints do not know
                    if fitted:
                        ref_check(S, m, plan, last)
                    continue
                if o != "ok":
                    raise Viol("fit-failed", f"a valid fit failed: {o} {e}")
                fitted = True
                last = op[1]
                S.c("fits")
                if plan["prop"] == "C19":
                    layout_fit(S, par, op[1], m, do_fit)
                    ref_check(S, m, plan, last, fresh=True)
        elif kind == "setpi":
            if fitted and m is not None and m.number_of_trees > 0 and "prediction_iteration" not in lacks:
                k_ = 1 + int(op[1] * m.number_of_trees) % m.number_of_trees
                m.set_prediction_iteration(k_)
                if m.prediction_iteration != k_:
                    raise Viol("prediction-iteration", f"set to {k_}, reads {m.prediction_iteration}")
                if plan["prop"] == "C19":
                    ref_check(S, m, plan, last)
        elif kind == "threads":
            run_threads(S, plan, par, m, op[1], do_fit, path)
        elif kind == "meta":
            mk().insert_metadata("user " + op[1], op[2])
            meta["user " + op[1]] = op[2]
        elif kind == "setparams":
            par.update(op[1])
            guarded("set-params", "set_params", lambda: mk().set_params(**op[1]))
            fitted = False
            meta = {}
        elif kind == "reload":
            how = op[1]
            b = mk()
            if how == "save" and not fitted:
                how = "pickle"
            before = S.view(b, meta=meta)
            if how == "deepcopy":
                n = guarded("reload", "deepcopy", lambda: copy.deepcopy(b))
            else:
                guarded("reload", how, lambda: persist(b, how, f"r{k}", op[2]))
                same(before, S.view(b, meta=meta), "save-changed", f"{how} changed the booster")
                n = guarded("reload", how + " restore", lambda: restore(how, f"r{k}", op[2]))
            same(before, S.view(n, meta=meta), "reload-differs", f"after {how} and reading back")
            S.c("reload_" + how)
            m = n
            if plan["prop"] == "C19" and fitted:
                ref_check(S, m, plan, last)
        elif kind == "persist":
            b = mk()
            if op[1] == "save" and not fitted:
                raise Outside()
            v = S.view(b, meta=meta)
            guarded("persist", op[1], lambda: persist(b, op[1], "model", op[2]))
            same(v, S.view(b, meta=meta), "save-changed", f"{op[1]} changed the booster")
            board["view"], board["m"], board["fitted"] = v, (par, meta), fitted
            S.c("persist_" + op[1])
        elif kind == "age":
            # what an earlier release would have written
            def older(j):
                d = json.loads(j)
                for l in lacks:
                    d.pop(l, None)
                return json.dumps(d)
            if op[1] == "save":
                with open(path("model")) as f:
                    j = f.read()
                with open(path("model"), "w") as f:
                    f.write(older(j))
            else:
                with open(path("model"), "wb") as f:
                    pickle.dump(OldPickle(S.forust.GradientBooster, older, lacks, b), f)
            S.c("entries_missing", len(lacks))
        elif kind == "restore":
            m = guarded("restore", op[1] + " restore", lambda: restore(op[1], "model", op[2]))
            fitted = board["fitted"]
            S.c("restarts")
        elif kind == "view":
            same(board["view"], S.view(m, meta=meta), "restored-differs", "restored in a new process")
        elif kind in ("expect_refit", "verify_refit"):
            o, e = outcome(lambda: do_fit(m, op[1]))
            v = S.view(m, meta=meta)
            v["outcome"] = o
            if kind == "expect_refit":
                if o != "ok":
                    raise Viol("fit-failed", f"a valid fit failed: {o} {e}")
                board["refit"] = v
            else:
                if o != "ok":
                    raise Viol("refit-after-restore", f"the original refits, the restored booster does not: {o}: {e}")
                same(board["refit"], v, "refit-after-restore", "refit after restoring, compared with the original's refit")
            S.c("fits")
        elif kind == "save_fail":
            b = mk()
            before = S.view(b, meta=meta)
            p = path("keep")
            ok = outcome(lambda: b.save_booster(p))
            if ok[0] != "ok":
                raise Viol("save", f"a save without faults failed: {ok[0]} {ok[1]}")
            size = os.path.getsize(p)
            S.clear()
            target = path("victim")
            if op[1] == "call":
                S.lib.sim_fs_plan(0, ctypes.c_uint64(1 + int(op[2] * 3)), ACT_STICKY if op[4] else ACT_ERR, ctypes.c_int64(op[3]))
                if op[2] * 3 % 1 > 0.5:
                    S.lib.sim_fs_transient(ctypes.c_uint64(7), ctypes.c_uint64(900000), ctypes.c_uint64(0))
            elif op[1] == "quota":
                S.lib.sim_fs_quota(ctypes.c_int64(int(op[2] * size)))
            else:
                target = path("no/such/dir")
            e0 = S.lib.sim_fs_stat(4) + S.lib.sim_fs_stat(5)
            got, ex = outcome(lambda: b.save_booster(target))
            fired = S.lib.sim_fs_stat(4) + S.lib.sim_fs_stat(5) - e0
            S.clear()
            S.note("save_fail", got, fired)
            if got.startswith("panics"):
                raise Viol("panic", f"a failing save did not raise an ordinary exception: {got} {ex}")
            if got == "ok":
                n = guarded("silent-save", f"save reported success ({fired} faults fired) but loading", lambda: S.forust.GradientBooster.load_booster(target))
                if fitted:
                    same(before, S.view(n, meta=meta), "silent-save", f"save reported success ({fired} faults fired) but the file holds another model")
            else:
                S.c("fault_failed_save")
            same(before, S.view(b, meta=meta), "save-changed", "a failing save changed the booster")
            guarded("save", "saving after the fault is gone", lambda: b.save_booster(path("victim")))
            n = guarded("save", "loading after the fault is gone", lambda: S.forust.GradientBooster.load_booster(path("victim")))
            if fitted:
                same(before, S.view(n, meta=meta), "save", "saved and loaded after a failing save")
        elif kind == "load_fail":
            b = mk()
            p = path("src")
            before = S.view(b, meta=meta)
            guarded("save", "saving", lambda: b.save_booster(p))
            size = os.path.getsize(p)
            raw = None
            S.clear()
            target, damaged = p, False
            if op[1] == "read":
                S.lib.sim_fs_plan(OP_READ, ctypes.c_uint64(1 + int(op[2] * 2)), ACT_ERR, ctypes.c_int64(op[3]))
            elif op[1] == "open":
                S.lib.sim_fs_plan(OP_OPEN_R, ctypes.c_uint64(1), ACT_ERR, ctypes.c_int64(op[3]))
            else:
                with open(p, "rb") as f:
                    raw = f.read()
                S.clear()
                target, damaged = path("damaged"), True
                cut = int(op[2] * len(raw))
                if op[1] == "trunc":
                    raw = raw[:cut]
                elif op[1] == "zero":
                    e = min(len(raw), cut + 512)
                    raw = raw[:cut] + b"\0" * (e - cut) + raw[e:]
                elif op[1] == "utf8":
                    raw = raw[:cut] + b"\xff\xfe" + raw[cut + 2:]
                if op[1] == "absent":
                    if os.path.exists(target):
                        os.unlink(target)
                elif op[1] == "dir":
                    target = S.dir
                else:
                    with open(target, "wb") as f:
                        f.write(raw)
                S.clear()
            n = None

            def ld():
                nonlocal n
                n = S.forust.GradientBooster.load_booster(target)
            got, ex = outcome(ld)
            S.clear()
            S.note("load_fail", got)
            if got.startswith("panics"):
                raise Viol("panic", f"a failing load did not raise an ordinary exception: {got} {ex}")
            if got == "ok":
                if damaged:
                    raise Viol("damaged-load", f"a damaged file ({op[1]}) was loaded")
                if fitted:
                    same(before, S.view(n, meta=meta), "load", "a load under faults returned another model")
            else:
                S.c("fault_failed_load")
            same(before, S.view(b, meta=meta), "load-changed", "a failing load changed another booster")
            n = guarded("load", "loading after the fault is gone", lambda: S.forust.GradientBooster.load_booster(p))
            if fitted:
                same(before, S.view(n, meta=meta), "load", "loaded after a failing load")
        elif kind == "bad_call":
            b = mk()
            before = S.view(b, meta=meta)
            df = S.frame(0, "df")
            ren = df.copy()
            ren.columns = [f"{c}?" for c in df.columns]
            named = hasattr(b, "feature_names_in_")
            f = {"predict_cols": lambda: b.predict(ren), "contrib_cols": lambda: b.predict_contributions(ren), "leaf_cols": lambda: b.predict_leaf_indices(ren),
                 "importance_name": lambda: b.calculate_feature_importance(method="nonsense"), "contrib_name": lambda: b.predict_contributions(S.frame(0, "np"), method="nonsense"),
                 "setparams": lambda: b.set_params(objective_type="nonsense"), "get_metadata": lambda: b.get_metadata("no such key"),
                 "pd_name": lambda: b.partial_dependence(S.frame(0, "np"), feature="a")}[op[1]]
            if op[1].endswith("_cols") and not named:
                continue
            if op[1] == "contrib_name" and getattr(b, "n_features_", -1) != df.shape[1]:
                continue
            got, ex = outcome(f)
            S.note("bad_call", got)
            if got == "ok":
                raise Viol("accepted", f"{op[1]} was accepted")
            if got.startswith("panics"):
                raise Viol("panic", f"{op[1]}: {got} {ex}")
            S.c("fault_rejected_call")
            same(before, S.view(b, meta=meta), "rejected-call-changed", f"{op[1]} changed the booster")
    if plan["prop"] == "C19" and fitted:
        ref_check(S, m, plan, last)
    if m is not None:
        S.note(sorted(S.view(m, params=False, meta=meta).items()))
        try:
            if m.number_of_trees > 0 and any(len(t) > 1 for t in m.get_node_lists()):
                S.c("models_with_splits")
        except Exception:
            pass
    return board


# ------------------------------------------------------------------ runs
class Engine:
    def __init__(self):
        self.lib = ctypes.CDLL(None)
        try:
            self.lib.sim_fs_stat.restype = ctypes.c_uint64
            self.lib.sim_fs_entropy_bytes.restype = ctypes.c_uint64
        except AttributeError:
            raise SystemExit("sim_fs is not preloaded")
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.scratch = f"{base}/forust-pysim-{os.getpid()}"
        os.makedirs(self.scratch, exist_ok=True)
        import numpy, pandas  # noqa: imported once, before any fork
        cooperative_locks()
        import forust  # noqa

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def run(self, plan):
        d = os.path.join(self.scratch, "run")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        board = {}
        out = dict(viol=None, harness=None, cnt={}, trace="")
        for k, ops in enumerate(plan["procs"]):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_CPU, (100, 100))
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    signal.alarm(120)
                    if not os.environ.get("SIM_PANICS"):
                        dn = os.open("/dev/null", os.O_WRONLY)
                        os.dup2(dn, 2)
                    os.environ["RAYON_NUM_THREADS"] = str(plan["threads"])
                    self.lib.sim_fs_root(d.encode())
                    self.lib.sim_fs_clear()
                    S = Sim(plan, self.lib, d)
                    res = {}
                    try:
                        res["board"] = run_ops(S, ops, board)
                        res["viol"] = None
                    except Viol as v:
                        res["viol"] = [v.cls, f"process {k}: {v.msg}"]
                    except Outside:
                        res["harness"] = "outside the claim"
                    except (MemoryError, KeyboardInterrupt):
                        res["harness"] = traceback.format_exc()
                    except BaseException as e:
                        # no plan makes the unchanged package raise here, or return what the comparison cannot read
                        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
                        if isinstance(e, OSError) and not any("/forust/" in f for f in files):
                            res["harness"] = traceback.format_exc()
                        else:
                            last = traceback.extract_tb(e.__traceback__)[-1]
                            res["viol"] = ["unexpected-exception", f"process {k}: {type(e).__name__}: {e} (in {os.path.basename(last.filename)} {last.name})"]
                    self.lib.sim_fs_clear()
                    self.lib.sim_fs_root(None)
                    for i, n in [(1, "fault_short_read"), (2, "fault_short_write"), (3, "fault_eintr"), (4, "fault_io_error"), (5, "fault_disk_full"), (0, "_file_calls")]:
                        S.c(n, int(self.lib.sim_fs_stat(i)))
                    S.note(int(self.lib.sim_fs_stat(7)))
                    S.c("_entropy_bytes", int(self.lib.sim_fs_entropy_bytes()))
                    res["cnt"], res["trace"] = S.cnt, S.h.hexdigest()
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(res))
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                raw = f.read()
            _, st = os.waitpid(pid, 0)
            if os.WIFSIGNALED(st):
                s = os.WTERMSIG(st)
                if s in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
                    out["harness"] = f"killed by {s}"
                elif s in (signal.SIGXCPU, signal.SIGALRM):
                    out["viol"] = ["hang", f"process {k}: no progress"]
                else:
                    out["viol"] = ["interpreter-died", f"process {k}: the interpreter died with signal {s}"]
                break
            if os.WEXITSTATUS(st) != 0:
                # the code under test ended the process, or the harness failed
                if os.WEXITSTATUS(st) == 70:
                    out["harness"] = "simulated process failed"
                else:
                    out["viol"] = ["interpreter-died", f"process {k}: the interpreter exited with {os.WEXITSTATUS(st)}"]
                break
            res = pickle.loads(raw)
            for kk, n in res["cnt"].items():
                out["cnt"][kk] = out["cnt"].get(kk, 0) + n
            out["trace"] += res["trace"]
            if res.get("harness"):
                out["harness"] = res["harness"]
                break
            if res["viol"]:
                out["viol"] = res["viol"]
                break
            board = res["board"]
        shutil.rmtree(d, ignore_errors=True)
        return out


def run_seed(prop, seed, i):
    return int.from_bytes(hashlib.blake2b(f"{prop}/{seed}/{i}".encode(), digest_size=7).digest(), "big")


def worker(a):
    e = Engine()
    until = time.time() + a["secs"]
    agg = dict(runs=0, cnt={}, traces=[], distinct=0, shapes=[], samples=[], viol=None, harness=None)
    i = a["w"]
    seen = set()
    try:
        while i < a["total"] and time.time() < until and not os.path.exists(a["stop"]):
            s = run_seed(a["prop"], a["seed"], i)
            plan = make_plan(a["prop"], s, a["hashseed"])
            o = e.run(plan)
            if o["viol"] and o["viol"][0] == "hang":
                # the only limit in real time: a run counts as hung when it hangs twice
                o = e.run(plan)
            agg["runs"] += 1
            for k, n in o["cnt"].items():
                agg["cnt"][k] = agg["cnt"].get(k, 0) + n
            if o["harness"]:
                agg["harness"] = f"run {i}: {o['harness']}"
                break
            if o["viol"]:
                agg["viol"] = [i, o["viol"][0], o["viol"][1], plan]
                open(a["stop"], "w").close()
                break
            agg["traces"].append(o["trace"])
            if o["cnt"].get("models_with_splits", 0) > 0:
                seen.add(o["trace"])
                if len(agg["samples"]) < 1:
                    agg["samples"].append(dict(run=i, plan=plan, counters=o["cnt"], trace=o["trace"]))
            i += JOBS
    finally:
        e.close()
    agg["distinct"] = sorted(seen)
    print("RESULT " + json.dumps(agg), flush=True)


def spawn(mode, a, env, capture=True):
    ev = dict(os.environ, **env)
    ev["LD_PRELOAD"] = a["preload"]
    ev["PYTHONPATH"] = a["pkg"]
    ev["PYTHONHASHSEED"] = str(a["hashseed"])
    ev["SIM_ENTROPY"] = str(a["hashseed"])
    ev["PYTHONDONTWRITEBYTECODE"] = "1"
    ev["RUST_BACKTRACE"] = "0"
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        ev[k] = "1"
    return subprocess.Popen([sys.executable, "-s", os.path.abspath(__file__), mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE if capture else None, env=ev, text=True)


def hashseed(w):
    return 11 + 7 * w


def ask(proc, a):
    out, _ = proc.communicate(json.dumps(a))
    r = [x for x in out.splitlines() if x.startswith("RESULT ")]
    if proc.returncode != 0 or not r:
        return None
    return json.loads(r[-1][7:])


# ------------------------------------------------------------------ minimisation (runs inside a worker interpreter)
def shrink(a):
    e = Engine()
    until = time.time() + a["secs"]
    plan, cls = a["plan"], a["cls"]
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        try:
            o = e.run(p)
        except Exception:
            return None
        return o if o["viol"] and o["viol"][0] == cls and not o["harness"] else None
    try:
        first = fails(plan)
        best = first
        progress = first is not None
        while progress and time.time() < until:
            progress = False
            cands = []
            for k in range(len(plan["procs"])):
                for j in range(len(plan["procs"][k])):
                    if plan["procs"][k][j][0] in ("persist", "restore", "expect_refit", "age"):
                        if plan["procs"][k][j][0] in ("persist", "restore") and plan["procs"][k][j][2][:2] != [0, 0]:
                            q = copy.deepcopy(plan)
                            q["procs"][k][j][2] = [0, 0, 0]
                            cands.append(q)
                        continue
                    q = copy.deepcopy(plan)
                    del q["procs"][k][j]
                    cands.append(q)
            if len(plan["procs"]) > 1:
                q = copy.deepcopy(plan)
                q["procs"].pop()
                cands.append(q)
            for l in plan.get("lacks", []):
                q = copy.deepcopy(plan)
                q["lacks"].remove(l)
                cands.append(q)
            for p in plan["params"]:
                if p == "objective_type":
                    continue
                q = copy.deepcopy(plan)
                del q["params"][p]
                if p == "missing":
                    for d in q["data"]:
                        d.pop("miss", None)
                cands.append(q)
            for i, d in enumerate(plan["data"]):
                for k, v in [("rows", 3), ("rows", d["rows"] // 2), ("nan", 0), ("dtype", "f8"), ("order", "C"), ("w", False), ("levels", 3)]:
                    if d[k] != v and (k != "rows" or 3 <= v < d["rows"]):
                        q = copy.deepcopy(plan)
                        q["data"][i][k] = v
                        cands.append(q)
            for q in cands:
                if time.time() > until:
                    break
                o = fails(q)
                if o:
                    plan, best, progress = q, o, True
                    break
        ok = first is not None
        print("RESULT " + json.dumps(dict(plan=plan, reproduced=ok, msg=best["viol"][1] if ok else a["msg"], trace=best["trace"] if ok else "", tries=tries)), flush=True)
    finally:
        e.close()


RULES = {
    "C16": "a run takes a booster through a random history, persists it under short writes and EINTR, restores it in a second and a third simulated process and compares everything observable, then refits; non-trivial if a model had a split",
    "C19": "a run takes a booster through a random history (fits, rejected fits, failing saves and loads, reloads) and after each step compares every view, for every input layout, with an evaluation of the dumped model; non-trivial if a model had a split",
    "C23": "a run persists a booster of a random history as a release before a drawn set of parameters existed, in a model file or a pickle, restores it in a second and a third simulated process under short reads and writes and EINTR, compares everything observable and refits; non-trivial if a model had a split",
    "C20": "a run lets 2-4 Python threads use one fitted booster and boosters of their own under a seeded interleaving at lines or opcodes of the package, and compares each call with the same call alone; non-trivial if a model had a split",
    "C17": "a run applies a random history of valid, rejected and log-failing fits, failing saves and loads, bad calls and reloads, comparing with a snapshot or with a new booster after each; non-trivial if a model had a split",
}
QUICK = {"C16": 1600, "C17": 2000, "C19": 2600, "C20": 3000, "C23": 1600}


def args_of(argv):
    a = {}
    i = 0
    while i < len(argv):
        a[argv[i].lstrip("-")] = argv[i + 1]
        i += 2
    return a


def check(prop, argv):
    t0 = time.time()
    o = args_of(argv)
    tier = o.get("tier", "quick")
    seed = int(o.get("seed", 1))
    total = int(o.get("runs", QUICK[prop] * (60 if tier == "thorough" else 1)))
    secs = int(o.get("secs", 2400 if tier == "thorough" else 300))
    out = o.get("out", ROOT)
    base = dict(preload=o["preload"], pkg=o["pkg"])
    stop = f"/tmp/forust-pysim-stop-{os.getpid()}"
    print(f"property {prop} seed {seed} runs {total} jobs {JOBS}", flush=True)
    procs = []
    import threading
    res = [None] * JOBS
    for w in range(JOBS):
        a = dict(base, prop=prop, seed=seed, w=w, total=total, secs=secs, stop=stop, hashseed=hashseed(w))
        procs.append((spawn("_worker", a, {}), a))

    def go(w):
        res[w] = ask(*procs[w])
    th = [threading.Thread(target=go, args=(w,)) for w in range(JOBS)]
    [t.start() for t in th]
    [t.join() for t in th]
    if os.path.exists(stop):
        os.unlink(stop)
    bad = None
    cnt, traces, distinct, samples, runs, viols = {}, set(), set(), [], 0, []
    for r in res:
        if r is None:
            bad = "a worker died"
            continue
        runs += r["runs"]
        for k, n in r["cnt"].items():
            cnt[k] = cnt.get(k, 0) + n
        traces |= set(r["traces"])
        distinct |= set(r["distinct"])
        if len(samples) < 2:
            samples += r["samples"]
        if r["harness"]:
            bad = r["harness"]
        if r["viol"]:
            viols.append(r["viol"])
    viols.sort(key=lambda v: v[0])
    st = max(time.time() - t0, 1e-3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(distinct), "rule": RULES[prop], "samples": samples,
            "simulated_runs_per_hour": int(runs / st * 3600), "seeds_per_hour": int(runs / st * 3600),
            "simulated_time_s": 0, "simulated_time_note": "the package has no clock or timer: time is counted in file calls",
            "faults_injected": {k: v for k, v in sorted(cnt.items()) if k.startswith("fault_")},
            "reached": {k: v for k, v in sorted(cnt.items()) if not k.startswith("fault_")},
            "distinct_histories": len(traces), "history_measure": "distinct hashes over all operations, outcomes, file calls and final outputs of a run",
            "components_real": ["forust Python package and extension module from /repo's working tree", "CPython, numpy, pandas, pyo3, rayon (1-2 workers; the order they run in is not explored here)"],
            "components_simulated": ["file calls below the scratch directory", "process restarts", "hash keys (PYTHONHASHSEED and getrandom)", "the logging sink", "the order of Python threads (C20)"],
        },
        "assumptions": ["column names are strings or integers", "frames passed as arrays have the number of columns of the fit", "a clean batch is evidence, not proof"],
        "violations": 0,
    }

    def write(n):
        ev["violations"], ev["wall_s"] = n, time.time() - t0
        os.makedirs(f"{out}/evidence", exist_ok=True)
        json.dump(ev, open(f"{out}/evidence/{prop}.json", "w"), indent=1)
    if viols:
        i, cls, msg, plan = viols[0]
        print(f"run {i} failed: [{cls}] {msg[:600]}", flush=True)
        a = dict(base, plan=plan, cls=cls, msg=msg, secs=200 if tier == "thorough" else 60, hashseed=plan["hashseed"])
        m = ask(spawn("_shrink", a, {}), a) or dict(plan=plan, reproduced=False, msg=msg, trace="", tries=0)
        os.makedirs(f"{out}/replays", exist_ok=True)
        path = f"{out}/replays/{prop}-{seed}-{i}.json"
        json.dump({"property": prop, "class": cls, "message": m["msg"], "run_index": i, "plan": m["plan"], "trace_hash": m["trace"], "reproduced": m["reproduced"], "minimisation_runs": m["tries"]}, open(path, "w"), indent=1)
        print(f"minimised: {m['msg'][:600]}")
        print(f"plan: {json.dumps(m['plan'])[:3000]}")
        write(1)
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    write(0)
    if bad:
        print("harness error: " + bad, file=sys.stderr)
        return 2
    print(f"ok: {runs} runs, {len(distinct)} distinct non-trivial, {time.time()-t0:.1f} s wall, {json.dumps({k: v for k, v in sorted(cnt.items())})}")
    return 0


def replay(path, argv):
    o = args_of(argv)
    v = json.load(open(path))
    a = dict(preload=o["preload"], pkg=o["pkg"], plan=v["plan"], hashseed=v["plan"]["hashseed"])
    r = ask(spawn("_one", a, {}), a)
    if r is None or r["harness"]:
        print("harness error: " + str(r and r["harness"]), file=sys.stderr)
        return 2
    print(f"trace hash: {r['trace']} (recorded {v['trace_hash']})")
    if r["viol"]:
        print(f"reproduced: [{r['viol'][0]}] {r['viol'][1][:2000]}")
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0


def one(a):
    e = Engine()
    try:
        print("RESULT " + json.dumps(e.run(a["plan"])), flush=True)
    finally:
        e.close()


def selftest(argv):
    """each plan twice, in different interpreters: same trace"""
    o = args_of(argv)
    n = int(o.get("runs", 80))
    bad = 0
    for prop in ("C16", "C17", "C19", "C20", "C23"):
        rs = []
        for rep in range(2):
            ps = []
            for w in range(JOBS):
                a = dict(preload=o["preload"], pkg=o["pkg"], prop=prop, seed=int(o.get("seed", 1)), w=w, total=n, secs=600, stop="/nonexistent", hashseed=hashseed(w))
                p = spawn("_worker", a, {})
                p.stdin.write(json.dumps(a)); p.stdin.close()
                ps.append(p)
            tr = []
            for p in ps:
                out = p.stdout.read(); p.wait()
                tr.append(json.loads([x for x in out.splitlines() if x.startswith("RESULT ")][-1][7:])["traces"])
            rs.append(tr)
        same = rs[0] == rs[1]
        print(prop, "deterministic" if same else "DIFFERS", sum(map(len, rs[0])), "runs")
        bad += not same
    return 1 if bad else 0


if __name__ == "__main__":
    mode = sys.argv[1]
    if mode in ("_worker", "_shrink", "_one"):
        a = json.loads(sys.stdin.read())
        {"_worker": worker, "_shrink": shrink, "_one": one}[mode](a)
        sys.exit(0)
    if mode == "replay":
        sys.exit(replay(sys.argv[2], sys.argv[3:]))
    if mode == "selftest":
        sys.exit(selftest(sys.argv[2:]))
    sys.exit(check(mode, sys.argv[2:]))
