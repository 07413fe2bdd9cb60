From a8b33b415318a9b0b73522fe7b0053643f0c6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 01/10] fix: keep lhs boundary samples of an external mesh on
 their edge

---
 fastvpinns/Geometry/geometry_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e042ccf..a72c697 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -177,9 +177,9 @@ class Geometry_2D(Geometry):
                 new_points = np.linspace(p1, p2, pow(2, boundary_point_refinement_level) + 1)
             elif bd_sampling_method == "lhs":
                 # take the current point and next point and then perform a uniform sampling
-                new_points = lhs(2, pow(2, boundary_point_refinement_level) + 1)
-                new_points[:, 0] = new_points[:, 0] * (p2[0] - p1[0]) + p1[0]
-                new_points[:, 1] = new_points[:, 1] * (p2[1] - p1[1]) + p1[1]
+                # a single parameter per point, so that every sample lies on the edge p1-p2
+                new_points = lhs(1, pow(2, boundary_point_refinement_level) + 1)
+                new_points = new_points * (p2 - p1) + p1
             else:
                 print(
                     f"Invalid sampling method {bd_sampling_method} in {self.__class__.__name__} from {__name__}."
-- 
2.43.0


From 1f1bee973f631b631fd7e8f9ac370b7cea7f62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 02/10] fix: take the boundary tags from the line block of an
 external mesh

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index a72c697..29b943e 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -161,7 +161,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data["medit:ref"][0]
+        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
-- 
2.43.0


From 2ef8e272d73ab1024ef80aca78247b63928ec332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 03/10] fix: store point indices as connectivity of the
 internal mesh

---
 fastvpinns/Geometry/geometry_2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 29b943e..42b5f39 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -287,7 +287,9 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(points=cells.reshape(-1, 2), cells=[("quad", cells.reshape(-1, 4))])
+        self.mesh = meshio.Mesh(
+            points=cells.reshape(-1, 2), cells=[("quad", np.arange(4 * len(cells)).reshape(-1, 4))]
+        )
 
         # lets generate the boundary points, this function will return a dictionary of boundary points
         # the keys will be the boundary tags and values will be the list of boundary points
-- 
2.43.0


From 886233daa4e347da5ce165b9d6edeb8e2d8c544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 04/10] fix: name the cd2d inverse loss parameters as
 DenseModel_Inverse passes them

---
 fastvpinns/physics/cd2d_inverse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/physics/cd2d_inverse.py b/fastvpinns/physics/cd2d_inverse.py
index 073bdba..1da19d8 100644
--- a/fastvpinns/physics/cd2d_inverse.py
+++ b/fastvpinns/physics/cd2d_inverse.py
@@ -23,8 +23,8 @@ def pde_loss_cd2d(
     pred_grad_x_nn,
     pred_grad_y_nn,
     forcing_function,
-    bilinear_params_dict,
-    inverse_param_dict,
+    bilinear_params,
+    inverse_params_dict,
 ):  # pragma: no cover
     """
     Calculates and returns the loss for the  CD2D problem Inverse (constant)
@@ -43,10 +43,10 @@ def pde_loss_cd2d(
     :type pred_grad_y_nn: tf.Tensor
     :param forcing_function: The forcing function used in the PDE.
     :type forcing_function: function
-    :param bilinear_params_dict: The dictionary containing the bilinear parameters.
-    :type bilinear_params_dict: dict
-    :param inverse_param_dict: The dictionary containing the parameters for the inverse problem.
-    :type inverse_param_dict: dict
+    :param bilinear_params: The dictionary containing the bilinear parameters.
+    :type bilinear_params: dict
+    :param inverse_params_dict: The dictionary containing the parameters for the inverse problem.
+    :type inverse_params_dict: dict
 
     :return: The calculated loss.
     :rtype: tf.Tensor
@@ -61,7 +61,7 @@ def pde_loss_cd2d(
     pde_diffusion_y = tf.transpose(tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
 
     # eps * ∫ (du/dx. dv/dx + du/dy. dv/dy) dΩ
-    pde_diffusion = inverse_param_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
+    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
 
     # ∫du/dx. v dΩ
     conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))
@@ -70,11 +70,11 @@ def pde_loss_cd2d(
     conv_y = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_y_nn))
 
     # # b(x) * ∫du/dx. v dΩ + b(y) * ∫du/dy. v dΩ
-    conv = bilinear_params_dict["b_x"] * conv_x + bilinear_params_dict["b_y"] * conv_y
+    conv = bilinear_params["b_x"] * conv_x + bilinear_params["b_y"] * conv_y
 
     # reaction term
     # ∫c.u.v dΩ
-    reaction = bilinear_params_dict["c"] * tf.transpose(
+    reaction = bilinear_params["c"] * tf.transpose(
         tf.linalg.matvec(test_shape_val_mat, pred_nn)
     )
 
-- 
2.43.0


From 20e46360647e854b17e298a76f93934c62911055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 05/10] fix: return as many sensor points as requested

---
 fastvpinns/FE/fespace2d.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 53e3727..7a2d259 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -665,9 +665,7 @@ class Fespace2D(Fespace):
         # sample n random points within the bounds of the domain
         # Generate points in the unit square
 
-        num_internal_points = int(num_points * 0.9)
-
-        points = lhs(2, samples=num_internal_points)
+        points = lhs(2, samples=num_points)
         points[:, 0] = x_min + (x_max - x_min) * points[:, 0]
         points[:, 1] = y_min + (y_max - y_min) * points[:, 1]
         # get the exact solution at the points
-- 
2.43.0


From eeb2d50b100a0d241a9068248b43f833bb9d0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 06/10] fix: honour the staircase flag of the learning rate
 schedule

---
 fastvpinns/model/model.py                | 4 ++--
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index d3cb516..3cfc88e 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -132,11 +132,11 @@ class DenseModel(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 3af0338..94c094a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -157,7 +157,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 6309e46..40bd87c 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -148,7 +148,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 61e78d7..4e08886 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -129,11 +129,11 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
-- 
2.43.0


From 48a45e048368427c486ea09f2420191d60303c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 07/10] fix: read external meshes whose vertices have two
 coordinates

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 42b5f39..75d376f 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -157,7 +157,7 @@ class Geometry_2D(Geometry):
 
         # Number of Existing Boundary points
         print(
-            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1,3)).shape[0] * 0.5 + 1}"
+            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1, self.mesh.points.shape[1])).shape[0] * 0.5 + 1}"
         )
 
         # now Get the physical tag of the boundary edges
-- 
2.43.0


From 3cffe7b7ccb0beda347936468141a8689460e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 08/10] fix: keep keras from rounding the inputs of float64
 models to float32

---
 fastvpinns/model/model.py                | 3 ++-
 fastvpinns/model/model_hard.py           | 3 ++-
 fastvpinns/model/model_inverse.py        | 3 ++-
 fastvpinns/model/model_inverse_domain.py | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 3cfc88e..fe8cec5 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -60,7 +60,8 @@ class DenseModel(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel, self).__init__()
+        # keras would cast the inputs to float32 otherwise, the layers cast to their own dtype
+        super(DenseModel, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 94c094a..5e9ca2a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -75,7 +75,8 @@ class DenseModel_Hard(tf.keras.Model):
         hessian=False,
         hard_constraint_function=None,
     ):
-        super(DenseModel_Hard, self).__init__()
+        # keras would cast the inputs to float32 otherwise, the layers cast to their own dtype
+        super(DenseModel_Hard, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 40bd87c..4c049cc 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -54,7 +54,8 @@ class DenseModel_Inverse(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse, self).__init__()
+        # keras would cast the inputs to float32 otherwise, the layers cast to their own dtype
+        super(DenseModel_Inverse, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 4e08886..f73e153 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -52,7 +52,8 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse_Domain, self).__init__()
+        # keras would cast the inputs to float32 otherwise, the layers cast to their own dtype
+        super(DenseModel_Inverse_Domain, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
-- 
2.43.0


From cb6c802a3cae4021c641c4caecf5c89f27178a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 09/10] fix: let the hard constraint model be built in float64

---
 fastvpinns/model/model_hard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 5e9ca2a..4ad85b9 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -214,6 +214,7 @@ class DenseModel_Hard(tf.keras.Model):
         :return: Output tensor from the model
         :rtype: tf.Tensor
         """
+        inputs = tf.cast(inputs, self.tensor_dtype)
         x = inputs
 
         # Apply attention layer after input if flag is True
-- 
2.43.0


From feb8ecabfe8e7cf59db9e1f68ec64e76c727e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:41 +0000
Subject: [PATCH 10/10] fix: OptunaTuner on a machine without GPUs

objective_wrapper took the trial number modulo the number of GPUs, so every
trial of run() failed with ZeroDivisionError when there was none, and n_jobs
became 0 for a positive n_jobs.
---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index af4ebcb..d739980 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -38,7 +38,10 @@ class OptunaTuner:
     def objective_wrapper(self, trial):
         """
         Wrapper function to run the objective function on a specific GPU.
+        Without a GPU, the objective runs on the default device.
         """
+        if not self.gpus:
+            return objective(trial, self.n_epochs)
 
         gpu_id = trial.number % len(self.gpus)
         with tf.device(f'/device:GPU:{gpu_id}'):
@@ -52,7 +55,9 @@ class OptunaTuner:
             load_if_exists=True,
         )
         study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus), self.n_jobs)
+            self.objective_wrapper,
+            n_trials=self.n_trials,
+            n_jobs=min(max(len(self.gpus), 1), self.n_jobs),
         )
 
         print("Best trial:")
-- 
2.43.0

