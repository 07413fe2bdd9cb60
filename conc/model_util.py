"""Models under test with random data, and the documented training step in eager tensorflow."""
import numpy as np
import tensorflow as tf
KINDS = ("plain", "hard", "inverse", "domain")


def cls(kind):
    if kind == "plain":
        from fastvpinns.model.model import DenseModel as M
    elif kind == "hard":
        from fastvpinns.model.model_hard import DenseModel_Hard as M
    elif kind == "inverse":
        from fastvpinns.model.model_inverse import DenseModel_Inverse as M
    else:
        from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain as M
    return M


def lr_dict(lr=1e-3, sched=False, steps=7, rate=.9, stair=True):
    d = {"initial_learning_rate": lr, "use_lr_scheduler": sched, "decay_steps": steps, "decay_rate": rate, "staircase": stair}
    if stair is None:
        del d["staircase"]
    return d


class Data:
    def __init__(self, rng, C, Q, T, nd, ns, dt):
        c = lambda *s: tf.constant(rng.uniform(-1, 1, s), dtype=dt)
        self.C, self.Q, self.T = C, Q, T
        self.V, self.GX, self.GY = c(C, T, Q), c(C, T, Q), c(C, T, Q)
        self.F, self.X = c(T, C), c(C * Q, 2)
        self.DX, self.DY, self.SX, self.SY = c(nd, 2), c(nd, 1), c(ns, 2), c(ns, 1)
        self.params = {"eps": tf.constant(rng.uniform(.2, 2), dtype=dt), "b_x": tf.constant(rng.uniform(-1, 1), dtype=dt)}


def constraint(x, y):
    """A hard constraint using every input."""
    x0, x1 = x[:, 0:1], x[:, 1:2]
    return y * x0 * (1. - x1) + x1 + .25 * x0 * x1


def loss(kind):
    def residual(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, eps, fx, fy):
        a = tf.linalg.matvec(test_grad_x_mat, pred_grad_x_nn * fx) + 2. * tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn * fy)
        b = tf.linalg.matvec(test_shape_val_mat, pred_nn * pred_nn + 3. * pred_nn)
        r = eps * a + bilinear_params["b_x"] * b - tf.transpose(forcing_function)
        return tf.reduce_mean(tf.square(r), axis=1) + .1 * tf.reduce_mean(r, axis=1)
    one = 1.
    if kind == "inverse":
        def f(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, inverse_params_dict):
            return residual(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, inverse_params_dict["eps"] * inverse_params_dict["eps"], one, one)
    elif kind == "domain":
        def f(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, inverse_params_list):
            k = inverse_params_list[0]
            return residual(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, bilinear_params["eps"], k, k * k)
    else:
        def f(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params):
            return residual(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, bilinear_params["eps"], one, one)
    return f


def build(kind, d, dims, dt, act="tanh", **kw):
    """A model, and after it another one with other data: objects of one class do not share their data."""
    m = build_(kind, d, dims, dt, act, **kw)
    rng = np.random.RandomState(3)
    o = Data(rng, 1, 3, 2, 2, 3, dt)
    build_(kind, o, [dims[0], 2, 2 if kind == "domain" else 1], dt, "relu", lr=lr_dict(.125, True, 3, .25, False), lossf=lambda **kw: tf.zeros(1, dt), hc=lambda x, y: 1e3 + 0. * y,
           inv={"eps": tf.constant(55., dtype=dt)} if kind == "inverse" else None)
    return m


def build_(kind, d, dims, dt, act="tanh", lr=None, lossf=None, hc=constraint, inv=None, **kw):
    a = dict(layer_dims=list(dims), learning_rate_dict=lr or lr_dict(), params_dict={"n_cells": d.C}, loss_function=lossf or loss(kind), input_tensors_list=[d.X, d.DX, d.DY],
             orig_factor_matrices=[d.V, d.GX, d.GY], force_function_list=d.F, tensor_dtype=dt, use_attention=False, activation=act, hessian=False)
    if act == "default":
        del a["activation"], a["use_attention"], a["hessian"]
    a.update(kw)
    if kind == "hard":
        a["hard_constraint_function"] = hc
    if kind in ("inverse", "domain"):
        a["sensor_list"] = [d.SX, d.SY]
    if kind == "inverse":
        a["inverse_params_dict"] = inv if inv is not None else {"eps": tf.constant(.7, dtype=dt)}
    return cls(kind)(**a)


def weights(m):
    """[(kernel, bias)] of the dense layers in creation order."""
    return [(l.kernel, l.bias) for l in m.layers if isinstance(l, tf.keras.layers.Dense)]


ACT = {"tanh": tf.tanh, "sigmoid": tf.sigmoid, "relu": tf.nn.relu, "swish": lambda z: z * tf.sigmoid(z), "linear": lambda z: z, None: lambda z: z, "softplus": tf.math.softplus, "sin": tf.sin,
       "elu": tf.nn.elu, "default": tf.tanh}


def net(kind, W, x, act, hc=constraint):
    y = x
    for i, (K, b) in enumerate(W):
        y = tf.matmul(y, K) + b
        if i < len(W) - 1:
            y = ACT[act](y) if not callable(act) else act(y)
    return hc(x, y) if kind == "hard" and hc is not None else y


def step(kind, d, W, inv, params, beta, act, lossf):
    """Losses and the gradient of the total with respect to every variable."""
    vs = [v for w in W for v in w] + list(inv.values())
    with tf.GradientTape() as t:
        with tf.GradientTape(persistent=True) as t1:
            t1.watch(d.X)
            y = net(kind, W, d.X, act)
            u = y[:, 0]
        g = t1.gradient(u, d.X)
        r = lambda z: tf.reshape(z, [d.C, d.Q])
        kw = dict(test_shape_val_mat=d.V, test_grad_x_mat=d.GX, test_grad_y_mat=d.GY, pred_nn=r(u), pred_grad_x_nn=r(g[:, 0]), pred_grad_y_nn=r(g[:, 1]), forcing_function=d.F, bilinear_params=params)
        if kind == "inverse":
            kw["inverse_params_dict"] = inv
        if kind == "domain":
            kw["inverse_params_list"] = [r(y[:, 1])]
        pde = tf.reduce_sum(lossf(**kw))
        out = {"loss_pde": pde, "loss_dirichlet": tf.zeros_like(pde)}
        total = pde
        if kind != "hard":
            out["loss_dirichlet"] = tf.reduce_mean(tf.square(net(kind, W, d.DX, act)[:, 0:1] - d.DY))
            total = total + (tf.cast(beta, pde.dtype) if tf.is_tensor(beta) else tf.constant(beta, dtype=pde.dtype)) * out["loss_dirichlet"]
        if kind in ("inverse", "domain"):
            out["sensor_loss"] = tf.reduce_mean(tf.square(net(kind, W, d.SX, act)[:, 0:1] - d.SY))
            total = total + 10. * out["sensor_loss"]
        out["loss"] = total
    return out, vs, t.gradient(total, vs)
