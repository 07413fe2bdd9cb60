"""The four models under contract: construction from symbolic data, shared by C13 and C14."""
from fractions import Fraction
from pyvc import terms as T, tflib, lib
from pyvc.values import *

lib.KEYPOS["inverse_params"] = lambda t: t.args[1] if t.op == "app" and t.args[0] == "inverse_name" else None

KINDS = {"plain": ("model", "DenseModel"), "hard": ("model_hard", "DenseModel_Hard"), "inverse": ("model_inverse", "DenseModel_Inverse"), "domain": ("model_inverse_domain", "DenseModel_Inverse_Domain")}


class Model:
    def __init__(self, ck, kind, dt):
        self.ck, self.kind, self.dt = ck, kind, dt
        it = self.it = ck.interp()
        mod, name = KINDS[kind]
        self.func = name
        self.cls = it.module_frame(it.load_module("fastvpinns.model." + mod))[name]
        v = lambda n: T.var(n, "I", 1)
        self.L = T.var("n_layers", "I", 2)
        self.C, self.Q, self.NT, self.nd, self.ns, self.ni = v("cells"), v("points"), v("tests"), v("n_dirichlet"), v("n_sensor"), v("n_inverse")
        self.N = T.mul(self.C, self.Q)
        t = lambda name, sh: Arr(sh, lambda *I: T.rawapp(name, tuple(T.lift(i) for i in I), "R"), dt, "tf")
        self.V, self.GX, self.GY = (t(n, (self.C, self.NT, self.Q)) for n in ("tabV", "tabX", "tabY"))
        self.X = t("Xq", (self.N, 2))
        self.DX, self.DY = t("Xd", (self.nd, 2)), t("Yd", (self.nd, 1))
        self.SX, self.SY = t("Xs", (self.ns, 2)), t("Ys", (self.ns, 1))
        self.F = t("force", (self.NT, self.C))
        self.act = T.var("activation", "U")
        self.lr = {"initial_learning_rate": T.var("lr0", "R"), "use_lr_scheduler": T.var("use_sched", "B"), "decay_steps": T.var("decay_steps", "I", 1), "decay_rate": T.var("decay_rate", "R"),
                   "staircase": T.var("staircase", "B")}
        self.loss_calls = []

    def dims(self, i):
        return self.given_dims(T.lift(i)) if getattr(self, "given_dims", None) else T.rawapp("layer_dim", (T.lift(i),), "I")

    def new(self, dtype=None, constraint=None, act=True, loss=None, in_dim=None, out_dim=None):
        it = self.it
        D = lambda d: it.alloc(DictC(d))
        Ls = lambda *x: it.alloc(ListC.of(list(x)))
        segs = (Seg(self.L, lambda i: self.dims(i)),)
        kw = {"layer_dims": it.alloc(ListC(segs)), "learning_rate_dict": D(dict(self.lr)), "params_dict": D({"n_cells": self.C}), "loss_function": loss, "input_tensors_list": Ls(self.X, self.DX, self.DY),
              "orig_factor_matrices": Ls(self.V, self.GX, self.GY), "force_function_list": self.F, "tensor_dtype": None if dtype == "None!" else dtype if dtype is not None else it.libmod.VALUES["tensorflow." + self.dt]}
        if act:
            kw["activation"] = self.act
        if self.kind == "hard" and constraint is not NotImplemented:
            kw["hard_constraint_function"] = constraint
        if self.kind in ("inverse", "domain"):
            kw["sensor_list"] = Ls(self.SX, self.SY)
        if self.kind == "inverse":
            self.inv = it.alloc(SymDictC(self.ni, lambda j: T.rawapp("inverse_name", (T.lift(j),), "U"), lambda j: T.rawapp("inverse_value", (T.lift(j),), "R"), "inverse_params"))
            kw["inverse_params_dict"] = self.inv
        o = it.instantiate(self.cls, [], kw)
        self.other(kw)
        return o

    def other(self, kw):
        """Another model with other data, alive from now on: nothing asked of the first may depend on it."""
        it, dt = self.it, self.dt
        v = lambda n: T.var(n + "_other", "I", 1)
        t = lambda name, *sh: it.new_arr(Arr(sh, lambda *I: T.rawapp(name + "_other", tuple(T.lift(i) for i in I), "R"), dt, "tf"))
        Ls = lambda *x: it.alloc(ListC.of(list(x)))
        C, Q, NT, nd, ns = v("cells"), v("points"), v("tests"), v("n_dirichlet"), v("n_sensor")
        new = {"layer_dims": Ls(2, 5, 4, 1), "learning_rate_dict": it.alloc(DictC({**self.lr, "initial_learning_rate": T.var("lr_other", "R"), "use_lr_scheduler": False})),
               "params_dict": it.alloc(DictC({"n_cells": C})), "input_tensors_list": Ls(t("Xq", T.mul(C, Q), 2), t("Xd", nd, 2), t("Yd", nd, 1)),
               "orig_factor_matrices": Ls(t("tabV", C, NT, Q), t("tabX", C, NT, Q), t("tabY", C, NT, Q)), "force_function_list": t("force", NT, C),
               "loss_function": SymCallable("other_loss", lambda it, *a, **k: T.ZERO)}
        if "activation" in kw:
            new["activation"] = "relu"
        if kw.get("hard_constraint_function") is not None:
            new["hard_constraint_function"] = SymCallable("other_constraint", lambda it, x, y: y)
        if self.kind in ("inverse", "domain"):
            new["sensor_list"] = Ls(t("Xs", ns, 2), t("Ys", ns, 1))
        if self.kind == "inverse":
            new["inverse_params_dict"] = it.alloc(DictC({"other": T.var("inverse_other", "R")}))
        log = it.log
        it.instantiate(self.cls, [], {**kw, "tensor_dtype": it.libmod.VALUES["tensorflow." + dt], **new})
        it.log = log
