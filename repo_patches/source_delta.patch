From e9afdb8a684c6569e1eb4b07c9809010686f42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 01/44] fix: evaluate rho for every state of the sampling model

build_o_matrix() looped over the vibronic model's states, so a sampling model with
more states lost components of its mixture and one with fewer raised IndexError.
---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 5873719..419c845 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1107,7 +1107,7 @@ def build_o_matrix(data, model, state_shift):
 
     np.exp(o_matrix, out=o_matrix)
 
-    for a in range(data.states):
+    for a in range(model.omatrix.shape[2]):
         model.omatrix[:, :, a, a] = o_matrix[:, :, a]
 
     temp_states = model.omatrix.shape[2]
-- 
2.43.0


From dc70bc4e4bfcc981c2a4cb20fbf4cdcb9b54b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:17 +0000
Subject: [PATCH 02/44] fix: use the shifted tau for the coupling part of g(R)
 at beta +/- delta_beta

build_numerator() always used the unshifted tau in the M matrices, so the plus/minus
numerators only shifted the harmonic part and were wrong for every coupled model.
---
 pibronic/pimc/pimc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 419c845..90b0008 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -59,6 +59,8 @@ np.random.seed()  # random
 class TemperatureDependentClass:
     """store temperature dependent constants here"""
     def __init__(self, model, tau):
+        self.tau = tau
+
         # construct the coth and csch tensors
         omega = np.broadcast_to(model.omega, model.size['AN'])
         self.cothAN = np.tanh(hbar*tau*omega)**(-1.)
@@ -1180,7 +1182,7 @@ def build_numerator(data, vib, outputArray, idx):
     # build the M matrix
     np.einsum('abcd, abd, abed->abce',
               data.coupling_eigvects,
-              np.exp(-data.tau*data.coupling_eigvals),  # replace this part to salis
+              np.exp(-vib.tau*data.coupling_eigvals),  # replace this part to salis
               data.coupling_eigvects,
               out=data.M_matrix,
               optimize='optimal'
-- 
2.43.0


From 48a297a72862789100fd93aae56dc0575fe2e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 03/44] fix: BoxDataPM.preprocess computes beta/tau +/- after
 beta is known

---
 pibronic/pimc/pimc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 90b0008..b9644fb 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -729,14 +729,14 @@ class BoxDataPM(BoxData):
 
     def preprocess(self):
         """"""
+        # do the usual work
+        super().preprocess()
+
         # compute extra constants
         self.beta_plus = self.beta + self.delta_beta
         self.beta_minus = self.beta - self.delta_beta
         self.tau_plus = self.beta_plus / self.beads
         self.tau_minus = self.beta_minus / self.beads
-
-        # do the usual work
-        super().preprocess()
         return
 
 
-- 
2.43.0


From c2d3eb575857146791a26a83c8bd7f53c1a4de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 04/44] fix: do not subtract the state displacements twice when
 g(R)/rho(R) is evaluated at given R

build_o_matrix() already shifts the co-ordinates, so the training data functions evaluated
g and rho at the wrong point (and g tripped the symmetry assertion for displaced states).
---
 pibronic/pimc/pimc.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index b9644fb..d93b30c 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -603,13 +603,11 @@ class BoxData:
 
     def generate_random_R_values(self, result, storage_array, sample_view):
         """Randomly generates R values that have no relation to the distribution rho or g
-        they only have the correct dimensions BANP and are shifted appropriately """
+        they only have the correct dimensions BANP """
         # generate sample points in dimensionless co-ordinates R
         storage_array[sample_view, :, :] = np.random.random(size=self.rho.size['BNP'])
+        # the surface dependent displacement (q = R - d) is applied by build_o_matrix()
         np.copyto(self.qTensor, storage_array[sample_view, NEW, ...])
-
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        self.qTensor -= self.vib.state_shift[NEW, :, :, NEW]
         return
 
     def transform_sampled_coordinates(self, sample_view):
@@ -1292,9 +1290,9 @@ def block_compute_rhoR_from_input_samples(data, result, input_R_values):
         sample_view = slice(start, end)
 
         # we copy in the data values that we read in from load_R_samples
+        # the surface dependent displacement (q = R - d) is applied by build_o_matrix()
         data.qTensor[:] = input_R_view[sample_view, NEW, ...]
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        data.qTensor -= data.vib.state_shift[NEW, :, :, NEW]
+        data.qTempTensor[:] = input_R_view[sample_view, NEW, ...]
 
         # build O matrices for system distribution
         build_o_matrix(data, rho.const, rho.state_shift)
-- 
2.43.0


From 30a12272f1fbcba3bb27e189396fc0a6afd29861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:21 +0000
Subject: [PATCH 05/44] fix: load_multiple_results stops at the desired number
 of samples

Files after the first were read with the full desired length, so the last
slice did not fit into the remaining rows.
---
 pibronic/pimc/pimc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index d93b30c..947467a 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -904,7 +904,7 @@ class BoxResult:
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
@@ -1030,7 +1030,7 @@ class BoxResultPM(BoxResult):
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
-- 
2.43.0


From b4c1ccaf70545c4b0f6138ed699e200266945a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:24 +0000
Subject: [PATCH 06/44] fix: load_results compares the number of samples by
 value

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 947467a..bbe4d98 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -842,7 +842,7 @@ class BoxResult:
             # BoxResult.verify_hashes_are_valid()
             if self.samples is 0:
                 self.samples = data["number_of_samples"]
-            elif data["number_of_samples"] is not self.samples:
+            elif data["number_of_samples"] != self.samples:
                 raise AssertionError("BoxResult has a different number of samples that the input file - this should not happen")
 
             self.initialize_arrays()
-- 
2.43.0


From 26ed9a529ec080e72d989cca7946651e630a974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:00 +0000
Subject: [PATCH 07/44] fix: load_pimc_data only uses results whose hashes
 match the models

The stored hashes were never compared, so samples of an older version of the
model were silently mixed into the statistical analysis.
---
 pibronic/data/postprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 85b53d7..9d4816d 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -304,6 +304,8 @@ def load_pimc_data(FS, P, T, pimc_results):
     """
     path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
     list_of_files = [file for file in glob.glob(path_data_points)]
+    # results which were generated from different models must not be mixed in
+    list_of_files = prune_results_using_hashes(FS, list_of_files)
     pimc_results.load_multiple_results(list_of_files)
 
     # TODO - add support for passing in the optional desired_number_of_samples paramter to the load_multiple_results method
-- 
2.43.0


From 3b352a3aa4ceb631b4601d9afe05e05dd46252e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 08/44] fix: _same_model compares the dimensions of both models

---
 pibronic/vibronic/vibronic_model_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 22fe2c1..23f57c4 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -210,7 +210,7 @@ def _same_model(d1, d2):
     verify_model_parameters(d2)
 
     A1, N1 = _extract_dimensions_from_dictionary(d1)
-    A2, N2 = _extract_dimensions_from_dictionary(d1)
+    A2, N2 = _extract_dimensions_from_dictionary(d2)
 
     if A1 != A2 or N1 != N2:
         return False
@@ -245,7 +245,7 @@ def _same_diagonal_model(d1, d2):
     verify_diagonal_model_parameters(d2)
 
     A1, N1 = _extract_dimensions_from_dictionary(d1)
-    A2, N2 = _extract_dimensions_from_dictionary(d1)
+    A2, N2 = _extract_dimensions_from_dictionary(d2)
 
     if A1 != A2 or N1 != N2:
         return False
-- 
2.43.0


From e1f04c79879583886359b00a4869f74ca20ea0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 09/44] fix: a diagonal model without energies is loaded with
 energies of dimension A

---
 pibronic/vibronic/vibronic_model_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 23f57c4..46ccc7d 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -572,7 +572,7 @@ def _load_inplace_from_JSON(path, dictionary):
     return
 
 
-def _load_from_JSON(path):
+def _load_from_JSON(path, shape_dict_function=model_shape_dict):
     """returns a dictionary filled with the values stored in the .json file located at path"""
 
     with open(path, mode='r', encoding='UTF8') as file:
@@ -588,7 +588,7 @@ def _load_from_JSON(path):
     # special case to always create an array of energies that are 0.0 if not provided in the .json file
     if VMK.E not in input_dictionary:
         A, N = _extract_dimensions_from_dictionary(input_dictionary)
-        shape = model_shape_dict(A, N)
+        shape = shape_dict_function(A, N)
         input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)
 
     # TODO - design decision about which arrays to fill with zeros by default?
@@ -633,7 +633,7 @@ def load_diagonal_model_from_JSON(path, dictionary=None):
 
     # no arrays were provided so return newly created arrays after filling them with the appropriate values
     if not bool(dictionary):
-        new_model_dict = _load_from_JSON(path)
+        new_model_dict = _load_from_JSON(path, diagonal_model_shape_dict)
 
         # TODO - we might want to make sure that none of the values in the dictionary have all zero values or are None
 
-- 
2.43.0


From dfcd32c17722fe0d9c289adf045ae83ad68c2cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 10/44] fix: refuse to load a model into arrays of other
 dimensions

---
 pibronic/vibronic/vibronic_model_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 46ccc7d..74d5e45 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -561,6 +561,10 @@ def _load_inplace_from_JSON(path, dictionary):
 
     VMK.change_dictionary_keys_from_strings_to_enum_members(input_dictionary)
 
+    # numpy would silently broadcast arrays of other dimensions
+    assert _extract_dimensions_from_dictionary(dictionary) == _extract_dimensions_from_dictionary(input_dictionary), \
+        f"the model {path:s} has different dimensions than the provided arrays"
+
     for key, value in dictionary.items():
         if isinstance(value, (np.ndarray, np.generic)):
             # this is a safer way of forcing the input arrays that have no corresponding key in the input_dictionary to have zero values
-- 
2.43.0


From c014fe55fc24ccb0d6932c2d5047403f57d69d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 11/44] fix: ModelClass can be loaded from a file without
 linear or quadratic terms

---
 pibronic/pimc/pimc.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index bbe4d98..bab5f54 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -113,9 +113,9 @@ class ModelClass:
     @classmethod
     def from_json_file(cls, path):
         """constructor wrapper"""
-        with open(path, mode='r', encoding='UTF8') as target_file:
-            file_data = target_file.read()
-        return cls.load_model(cls, file_data)
+        model = cls(*vIO.extract_dimensions_of_model(path=path))
+        model.load_model(path)
+        return model
 
     def load_model(self, path):
         """x"""
@@ -124,14 +124,10 @@ class ModelClass:
         # lazy way of assuming that if one array is empty this is the first time
         if type(None) in map(type, [self.omega, self.energy, self.linear, self.quadratic]):
             kwargs = vIO.load_model_from_JSON(path)
-            self.energy = kwargs[VMK.E]
-            self.omega = kwargs[VMK.w]
-            self.linear = kwargs[VMK.G1]
-            A = self.states
-            N = self.modes
-            shape = vIO.model_shape_dict(A, N)
-            self.linear = kwargs[VMK.G1] if VMK.G1 in kwargs else np.zeros(shape[VMK.G1], dtype=F64)
-            self.quadratic = kwargs[VMK.G2] if VMK.G2 in kwargs else np.zeros(shape[VMK.G2], dtype=F64)
+            # arrays which are not present in the file are all zero
+            shape = vIO.model_shape_dict(kwargs[VMK.A], kwargs[VMK.N])
+            for key in (VMK.w, VMK.G1, VMK.G2):
+                kwargs.setdefault(key, np.zeros(shape[key], dtype=F64))
         else:
             kwargs = {}
             kwargs[VMK.N] = self.modes
-- 
2.43.0


From ab8288185967709c192aefb2a141b8c380b325ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 12/44] fix: BoxData.from_json_file calls the classmethod with
 the file contents only

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index bab5f54..afda0ca 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -495,7 +495,7 @@ class BoxData:
         """constructor wrapper"""
         with open(path, mode='r', encoding='UTF8') as target_file:
             file_data = target_file.read()
-        return cls.from_json_string(cls, file_data)
+        return cls.from_json_string(file_data)
 
     @classmethod
     def from_json_string(cls, json_str):
-- 
2.43.0


From 03263ed255a3578efc6e0c41cc6790735465e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:58 +0000
Subject: [PATCH 13/44] fix: load_sequence uses a delimiter numpy accepts

---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index c54daea..9cb1338 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -114,7 +114,7 @@ def path_to_sequence_file(order):
     return path
 
 
-def load_sequence(order, delimiter=", "):
+def load_sequence(order, delimiter=","):
     """ returns a list of [y, x] pairs (which are length 2 lists)
     throws an assert error if the file does not exist
     takes a integer parameter which specifies which file to load"""
-- 
2.43.0


From 3489df7fdf808d42e7acaaffd93d68eae347723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:41 +0000
Subject: [PATCH 14/44] fix: directories with glob characters in their name can
 be searched for results

---
 pibronic/data/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 9d4816d..1ef4a3a 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -47,25 +47,25 @@ from ..data import file_name
 
 def retrive_pimc_file_list(FS):
     """return a list of the full path to each pimc file that might be used"""
-    globPath = FS.path_rho_results + file_name.pimc(P="*", T="*", J="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.pimc(P="*", T="*", J="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_jackknife_file_list(FS):
     """return a list of the full path to each jackknife file that might be used"""
-    globPath = FS.path_rho_results + file_name.jackknife(P="*", T="*", X="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.jackknife(P="*", T="*", X="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_coupled_file_list(FS, B="*"):
     """return a list of the full path to each sos(coupled) file that might be used"""
-    globPath = FS.path_vib_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_vib_params) + file_name.sos(B)
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_sampling_file_list(FS, B="*"):
     """return a list of the full path to each sos(sampling) file that might be used"""
-    globPath = FS.path_rho_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_rho_params) + file_name.sos(B)
     return [file for file in glob.glob(globPath)]
 
 
@@ -302,7 +302,7 @@ def load_pimc_data(FS, P, T, pimc_results):
     currently solved by:
         self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
     """
-    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
+    path_data_points = glob.escape(FS.path_rho_results) + file_name.pimc(J="*").format(P=P, T=T)
     list_of_files = [file for file in glob.glob(path_data_points)]
     # results which were generated from different models must not be mixed in
     list_of_files = prune_results_using_hashes(FS, list_of_files)
-- 
2.43.0


From 8ccced7a653713b5e57a0408b25dc5ac73e75089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:35 +0000
Subject: [PATCH 15/44] fix: parameters are read from the name of the result
 file, not from its directories

---
 pibronic/data/postprocessing.py | 41 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 1ef4a3a..85bc834 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -86,23 +86,22 @@ def retrive_all_file_paths(FS):
 
 def extract_bead_value_from_trotter_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("trotter_P")[1].split("_B"))
+    return int(os.path.basename(file_path).split("trotter_P")[1].split("_B")[0])
 
 
 def extract_trotter_paramater_list(list_trotter):
     """ takes a list of file-paths to results from trotter calculations and return a dictionary with integer keys representing possible basis sizes, whose corresponding values are lists of all possible bead values for that given basis size. """
-    tL = map(extract_bead_value_from_trotter_file_path, list_trotter)
-
     trotterDict = collections.defaultdict(list)
-    for path in tL:
-        trotterDict[int(path[1].split(".json")[0])].append(int(path[0]))
+    for path in list_trotter:
+        basis = extract_basis_value_from_sos_file_path(path)
+        trotterDict[basis].append(extract_bead_value_from_trotter_file_path(path))
 
     return trotterDict
 
 
 def extract_basis_value_from_sos_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("_B")[1].split(".json")[0])
+    return int(os.path.basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_sos_basis_paramater_list(list_vib, list_rho):
@@ -117,7 +116,7 @@ def extract_sos_basis_paramater_list(list_vib, list_rho):
 
 def extract_bead_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_bead_paramater_list(list_pimc):
@@ -130,7 +129,7 @@ def extract_bead_paramater_list(list_pimc):
 
 def extract_temperature_value_from_pimc_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_J")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_J")[0])
 
 
 def extract_temperature_paramater_list(list_pimc):
@@ -146,7 +145,7 @@ def extract_temperature_paramater_list(list_pimc):
 
 def extract_job_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_J")[1].split("_data_")[0])
+    return int(os.path.basename(file_path).split("_J")[1].split("_data_")[0])
 
 
 def extract_parameter_lists(list_pimc, list_vib, list_rho):
@@ -159,17 +158,17 @@ def extract_parameter_lists(list_pimc, list_vib, list_rho):
 
 def extract_bead_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_temperature_value_from_thermo_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_X")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_X")[0])
 
 
 def extract_sample_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_X")[1].split("_thermo")[0])
+    return int(os.path.basename(file_path).split("_X")[1].split("_thermo")[0])
 
 
 def prune_results_using_hashes(FS, list_pimc):
@@ -215,8 +214,8 @@ def extract_pimc_parameters(list_pimc, list_coupled, list_sampling):
     # note that the way these splits are coded will pose problems if the naming scheme for sos is changed in the future
     value_dict = {"pimc_beads": 0, "basis_fxns": 0, "temperatures": 0}
 
-    cL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_coupled)
-    sL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_sampling)
+    cL = map(extract_basis_value_from_sos_file_path, list_coupled)
+    sL = map(extract_basis_value_from_sos_file_path, list_sampling)
 
     # parse file paths to find shared #'s' of basis functions
     value_dict["basis_fxns"] = list(set(cL) & set(sL))
@@ -225,20 +224,20 @@ def extract_pimc_parameters(list_pimc, list_coupled, list_sampling):
 
     # parse file paths to find shared temperature values
     # for now we will leave this partially undeveloped
-    tempL = map(lambda path: float(path.split("_T")[1].split("_X")[0]), list_pimc)
+    tempL = map(extract_temperature_value_from_thermo_file_path, list_pimc)
     # need to add thing here that checks temperatures inside sos file
     value_dict["temperatures"] = list(set(tempL))
     value_dict["temperatures"].sort()
     log.debug(value_dict["temperatures"])
 
     # parse file paths to find shared sample values
-    xL = map(lambda path: int(path.split("_X")[1].split("_thermo")[0]), list_pimc)
+    xL = map(extract_sample_value_from_thermo_file_path, list_pimc)
     value_dict["samples"] = list(set(xL))
     value_dict["samples"].sort()
     log.debug(value_dict["samples"])
 
     # parse file paths to find pimc bead values
-    pL = map(lambda path: int(path.split("/P")[1].split("_T")[0]), list_pimc)
+    pL = map(extract_bead_value_from_thermo_file_path, list_pimc)
     value_dict["pimc_beads"] = []
     for p in pL:
         if p not in value_dict["pimc_beads"]:
@@ -257,8 +256,8 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
     # note that the way these splits are coded will pose problems if the naming scheme for sos is changed in the future
     value_dict = {"pimc_beads": 0, "basis_fxns": 0, "temperatures": 0}
 
-    cL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_coupled)
-    sL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_sampling)
+    cL = map(extract_basis_value_from_sos_file_path, list_coupled)
+    sL = map(extract_basis_value_from_sos_file_path, list_sampling)
 
     # parse file paths to find shared #'s' of basis functions
     value_dict["basis_fxns"] = list(set(cL) & set(sL))
@@ -267,7 +266,7 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
 
     # parse file paths to find shared temperature values
     # for now we will leave this partially undeveloped
-    tempL = map(lambda path: float(path.split("_T")[1].split("_J")[0]), list_pimc)
+    tempL = map(extract_temperature_value_from_pimc_file_path, list_pimc)
     # need to add thing here that checks temperatures inside sos file
     value_dict["temperatures"] = list(set(tempL))
     value_dict["temperatures"].sort()
@@ -280,7 +279,7 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
     # log.debug(value_dict["samples"])
 
     # parse file paths to find pimc bead values
-    pL = map(lambda path: int(path.split("results/P")[1].split("_T")[0]), list_pimc)
+    pL = map(extract_bead_value_from_pimc_file_path, list_pimc)
     value_dict["pimc_beads"] = []
     for p in pL:
         if p not in value_dict["pimc_beads"]:
-- 
2.43.0


From 6591d242d7e3a3b493b7366d8e22b70212cd7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:56 +0000
Subject: [PATCH 16/44] fix: change_rho updates id_rho, path_rho and discards
 the hash of the old rho

---
 pibronic/data/file_structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index bee2162..4b4c438 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -175,7 +175,12 @@ class FileStructure:
         calls make_rho_directories() to ensure the directories exist
         """
         self.make_rho_directories(id_rho)
+        self.id_rho = id_rho
+        # the hash belongs to the previous rho, it has to be generated again
+        if self._has_rho_hash():
+            del self.hash_rho
         # update all the rho paths
+        self.path_rho = join(self.path_root, self.template_rho.format(self.id_data, id_rho))
         self.path_rho_params = join(self.path_root,
                                     self.template_rho_params.format(self.id_data, id_rho))
         self.path_rho_results = join(self.path_root,
-- 
2.43.0


From 7294d4c4ff0697c2d727c9c25004ffeb2264855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:56 +0000
Subject: [PATCH 17/44] fix: directories_exist looks at the directories instead
 of the attribute names

---
 pibronic/data/file_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 4b4c438..24e865a 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -139,7 +139,7 @@ class FileStructure:
 
     def directories_exist(self):
         """x"""
-        if False in map(os.path.isdir, self.dir_list):
+        if False in map(os.path.isdir, [getattr(self, name) for name in self.dir_list]):
             return False
         return True
 
-- 
2.43.0


From d9b9ab2b9068c8b6d8466a93debb1d0fbfb4e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:00 +0000
Subject: [PATCH 18/44] fix: all paths of a FileStructure are absolute, also
 for a relative root

---
 pibronic/data/file_structure.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 24e865a..058d729 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -79,14 +79,14 @@ class FileStructure:
         # special
         self.path_es = join(self.path_data, "electronic_structure")
         # sub directories
-        self.path_vib_params = join(path_root, self.template_vib_params.format(id_data))
-        self.path_vib_results = join(path_root, self.template_vib_results.format(id_data))
-        self.path_vib_output = join(path_root, self.template_vib_output.format(id_data))
-        self.path_vib_plots = join(path_root, self.template_vib_plots.format(id_data))
-        self.path_rho_params = join(path_root, self.template_rho_params.format(id_data, id_rho))
-        self.path_rho_results = join(path_root, self.template_rho_results.format(id_data, id_rho))
-        self.path_rho_output = join(path_root, self.template_rho_output.format(id_data, id_rho))
-        self.path_rho_plots = join(path_root, self.template_rho_plots.format(id_data, id_rho))
+        self.path_vib_params = join(self.path_root, self.template_vib_params.format(id_data))
+        self.path_vib_results = join(self.path_root, self.template_vib_results.format(id_data))
+        self.path_vib_output = join(self.path_root, self.template_vib_output.format(id_data))
+        self.path_vib_plots = join(self.path_root, self.template_vib_plots.format(id_data))
+        self.path_rho_params = join(self.path_root, self.template_rho_params.format(id_data, id_rho))
+        self.path_rho_results = join(self.path_root, self.template_rho_results.format(id_data, id_rho))
+        self.path_rho_output = join(self.path_root, self.template_rho_output.format(id_data, id_rho))
+        self.path_rho_plots = join(self.path_root, self.template_rho_plots.format(id_data, id_rho))
 
         # root_suffix = "D{:d}_R{:d}_".format(id_data, id_rho)
         # self.pimc_suffix = root_suffix + "P{P:d}_T{T:.2f}_J*_data_points.npz"
-- 
2.43.0


From 5be88df2dabf80bf0e3164138549a891d1678cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:53 +0000
Subject: [PATCH 19/44] fix: the submitted jobs hold complete blocks and draw
 all requested samples

---
 pibronic/server/job_boss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 762bf3b..b9c0698 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -551,6 +551,8 @@ class PimcSubmissionClass(SubmissionClass):
 
         # calculate how many samples we need for each job
         samples_per_job = min(n_samples, self.MAX_SAMPLES_PER_JOB)
+        # only complete blocks are computed
+        samples_per_job -= samples_per_job % block_size
         self.param_dict["number_of_samples_per_job"] = samples_per_job
         self.param_dict["number_of_samples"] = samples_per_job
 
@@ -566,7 +568,8 @@ class PimcSubmissionClass(SubmissionClass):
             total_samples = n_samples
             self.param_dict["number_of_samples_overall"] = n_samples
 
-        self.n_jobs = max(1, total_samples // self.MAX_SAMPLES_PER_JOB)
+        # round up so that no requested samples are lost
+        self.n_jobs = max(1, -(-total_samples // samples_per_job))
         return
 
     def submit_jobs(self):
-- 
2.43.0


From a0e687ddd398f48cb312e4b4fb5738597fc9bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:53 +0000
Subject: [PATCH 20/44] fix: parameters of one submission no longer leak into
 the next

---
 pibronic/server/job_boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index b9c0698..e3fd0ec 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -2,6 +2,7 @@
 assumes the server uses SLURM"""
 
 # system imports
+import copy
 import subprocess
 import threading
 import socket
@@ -464,6 +465,9 @@ class SubmissionClass():
     def __init__(self, input_FS, input_param_dict=None):
         """ takes a FileStructure object and an optional parameter dictionary - no error checking at the moment """
 
+        # the parameters belong to this object, don't modify the defaults
+        self.param_dict = copy.deepcopy(self.param_dict)
+
         # set the default hostname when initialized
         self.param_dict['hostname'] = get_hostname()
 
-- 
2.43.0


From 4d9bfdc6f1f82474174f4f26be979e71a6786ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:53 +0000
Subject: [PATCH 21/44] fix: submitted jobs are given the python executable and
 existing scripts

---
 pibronic/server/job_boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index e3fd0ec..40f67c3 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -31,12 +31,12 @@ job_almost_done_flag = False
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
-    return os.path.abspath(os.__file__)
+    return os.path.abspath(sys.executable)
 
 
 def get_path_of_job_boss_directory():
     """returns the absolute path to the directory holding job_boss.py """
-    return os.path.abspath(__file__)
+    return os.path.dirname(os.path.abspath(__file__))
 
 
 def subprocess_submit_asynch_wrapper(cmd, **kwargs):
-- 
2.43.0


From 602fc477ec62c6bfa695053fb0690f8116ff55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:53 +0000
Subject: [PATCH 22/44] fix: encode_self uses the names of the parameters, enum
 members are not valid json keys

---
 pibronic/pimc/pimc.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index afda0ca..69b3f37 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -519,18 +519,18 @@ class BoxData:
         if params is None:
             log.flow("params was none")
             params = {
-                SEP.X: self.samples,
-                SEP.nBlk: self.blocks,
-                SEP.A: self.states,
-                SEP.P: self.beads,
-                SEP.N: self.modes,
-                SEP.T: self.temperature,
-                SEP.BlkS: self.block_size,
-                SEP.dB: self.delta_beta,
-                SEP.D: self.id_data,
-                SEP.R: self.id_rho,
-                SEP.beta: self.beta,
-                SEP.tau: self.tau,
+                SEP.X.value: self.samples,
+                SEP.nBlk.value: self.blocks,
+                SEP.A.value: self.states,
+                SEP.P.value: self.beads,
+                SEP.N.value: self.modes,
+                SEP.T.value: self.temperature,
+                SEP.BlkS.value: self.block_size,
+                SEP.dB.value: self.delta_beta,
+                SEP.D.value: self.id_data,
+                SEP.R.value: self.id_rho,
+                SEP.beta.value: self.beta,
+                SEP.tau.value: self.tau,
                 # "s": self.hash_vib,
                 # "x": self.hash_rho,
             }
-- 
2.43.0


From 2ccc2948396e6af08e3e4189aed28658b0abc605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:08 +0000
Subject: [PATCH 23/44] fix: diagonal quadratic, cubic and quartic couplings of
 .op files are no longer doubled

---
 pibronic/vibronic/model_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index cb01b42..5bdb09a 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -386,9 +386,9 @@ def read_model_op_file(path_file_op):
     # don't over count the diagonals
     for a in States:
         linear_couplings[:, a, a] /= 2.
-        quadratic_couplings[:, :, a, b] /= 2.
-        cubic_couplings[:, :, :, a, b] /= 2.
-        quartic_couplings[:, :, :, :, a, b] /= 2.
+        quadratic_couplings[:, :, a, a] /= 2.
+        cubic_couplings[:, :, :, a, a] /= 2.
+        quartic_couplings[:, :, :, :, a, a] /= 2.
 
     # check for symmetry in surfaces
     assert np.allclose(excitation_energies, excitation_energies.transpose(1, 0))
-- 
2.43.0


From 2bf5ddcacbf25d0a4d280216f1291d5f3a195c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:23 +0000
Subject: [PATCH 24/44] fix: the method and location of an analysis are
 compared by value

---
 pibronic/stats/stats.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index ef21d65..5d891bd 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -235,21 +235,21 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
                 ]
 
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_statistical_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_statistical_analysis
     else:
         raise Exception(f"Invalid value for parameter method:({method})")
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
 
         with mp.Pool(__number_of_processes) as p:
             p.starmap(basic_wrapper, arg_list)
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
@@ -351,18 +351,18 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
                 for T in args["temperatures"]
                 ]
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_jackknife_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_jackknife_analysis
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
         with mp.Pool(__number_of_processes) as p:
             p.starmap(jackknife_wrapper, arg_list)
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
-- 
2.43.0


From b116d0508453a877b06415d5ae0477df665d3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:20 +0000
Subject: [PATCH 25/44] fix: only analyse the pairs of beads and temperature
 there are results for

---
 pibronic/data/postprocessing.py | 7 +++++++
 pibronic/stats/stats.py         | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 85bc834..721b842 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -143,6 +143,13 @@ def extract_temperature_paramater_list(list_pimc):
     return list_temperature
 
 
+def extract_bead_temperature_pairs(list_pimc):
+    """ takes a list of file-paths to results from pimc calculations and return a set of the (bead, temperature) pairs they belong to"""
+    return {(extract_bead_value_from_pimc_file_path(path), extract_temperature_value_from_pimc_file_path(path))
+            for path in list_pimc
+            }
+
+
 def extract_job_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int"""
     return int(os.path.basename(file_path).split("_J")[1].split("_data_")[0])
diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index 5d891bd..c98dc67 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -246,6 +246,10 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
     if location == "local":
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
 
+        # there don't have to be results for every bead value at every temperature
+        available = pp.extract_bead_temperature_pairs(list_pimc)
+        arg_list = [(FS, P, T) for FS, P, T in arg_list if (P, T) in available]
+
         with mp.Pool(__number_of_processes) as p:
             p.starmap(basic_wrapper, arg_list)
 
@@ -359,6 +363,10 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
     # dispatch multiple processes to execute the analyze concurrently
     if location == "local":
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
+        # there don't have to be results for every bead value at every temperature
+        available = pp.extract_bead_temperature_pairs(list_pimc)
+        arg_list = [(FS, P, T) for FS, P, T in arg_list if (P, T) in available]
+
         with mp.Pool(__number_of_processes) as p:
             p.starmap(jackknife_wrapper, arg_list)
 
-- 
2.43.0


From ac23550458cee023269993e7f9b5358b4aeab251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 26/44] fix: an interrupted calculation continues after the
 last recorded step

---
 pibronic/vibronic/electronic_structure.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 842af2e..af0e5cf 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1520,24 +1520,23 @@ class VibronExecutionClass:
 
             old_state = str(line.strip())
 
-            if old_state == State(State.max()):
-                self.state = State(State.max())
-
-            elif old_state in State:
-                self.state = State(State(old_state).value + 1)
-
             for member in State:
-                if member.name == str(line.strip()):
-                    self.state = State(member.value + 1)
+                if member.name == old_state:
+                    # there is no step after the last one
+                    self.state = State(min(member.value + 1, State.max()))
                     break
             else:
                 s = ("State file {:s} contained an invalid state: {:s}"
                      "Defaulting to initial state"
                      )
-                log.debug(s.format(line, self.path_state))
+                log.debug(s.format(self.path_state, line))
                 self.state = State(State.min())
-                break
 
+            # only the last recorded state matters
+            return
+
+        # nothing but blank lines
+        self.state = State(State.min())
         return
 
     def parse_input_parameters(self, file_path=None):
-- 
2.43.0


From 4cb00238ec8164941d068d0f51eef92ea8f0aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 27/44] fix: every calculation has its own parameters

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index af0e5cf..12a88d7 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1441,6 +1441,7 @@ class VibronExecutionClass:
     def __init__(self, name, root, state=None):
         self.name = name
         self.path_root = root
+        self.parameter_dictionary = self.parameter_dictionary.copy()
         self.file_in = default_file_in.copy()
         self.file_out = default_file_out.copy()
         self.path_state = join(self.path_root, name_of_state_file)
-- 
2.43.0


From 45293f813b71d0f7990dea739ac724494b287da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 28/44] fix: _create_template returns the template

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 12a88d7..fcee6b9 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1040,7 +1040,7 @@ def _create_template(zmat, memory_size):
     template += "\n\t" + "heff_high=200"
     template += "\n" + "*end"
     template += "\n"
-    return
+    return template
 
 
 def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
-- 
2.43.0


From 217fcdf20fa0b75c3d8a6a4b6017d0d11b9e4355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 29/44] fix: the % singles of the states are read, not the end
 of the header line

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index fcee6b9..e286b44 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -965,7 +965,7 @@ def parse_ip_output(vibron):
 
                 # throw away the header lines
                 past_headers = skip_forward_n_lines(memmap_file, 5, memmap_file.tell())
-                memmap_file.seek(past_headers)
+                memmap_file.seek(past_headers + 1)
 
                 # store the lines with the relevant information
                 lines = []
-- 
2.43.0


From c201046a6510d4dd026e8c403b91e7bb9a49c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 30/44] fix: reading a table at the end of an output file
 terminates

---
 pibronic/vibronic/electronic_structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index e286b44..0751ea1 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -762,7 +762,7 @@ def parse_opt_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line in ["\n", "Frequencies of the updated Hessian at convergence"]:
+                    if line in ["", "\n", "Frequencies of the updated Hessian at convergence"]:
                         break
 
                     lines.append(line)
@@ -791,7 +791,7 @@ def parse_opt_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line in ["\n", "Frequencies of the updated Hessian at convergence"]:
+                    if line in ["", "\n", "Frequencies of the updated Hessian at convergence"]:
                         break
 
                     lines.append(line)
@@ -971,7 +971,7 @@ def parse_ip_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if(line is "\n" or "--------" in line):
+                    if(line in ["", "\n"] or "--------" in line):
                         break
 
                     lines.append(line)
-- 
2.43.0


From 28eff4b180a34b7519f1092c0774f983048cfb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 31/44] fix: the number of dropped orbitals can have more than
 one digit

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 0751ea1..b928270 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -617,7 +617,7 @@ def _estimate_NIP(vibron, path):
     lines = _extract_lines_for_estimating_NIP(path)
     # grab the guess_dropmo as a number
     string_dropmo = vibron.parameter_dictionary["DROPMO"]
-    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo[-1])
+    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo.replace("-", "=").split("=")[-1])
     print(guess_dropmo)
 
     guess_nip, list_ev = _guess_NIP_value(lines, guess_dropmo)
-- 
2.43.0


From 0bb4109070157fb810765aaccae5bbdd34a561cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 32/44] fix: check_slurm_output searches the text of the output
 file

---
 pibronic/server/job_boss.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 40f67c3..d92181b 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -150,15 +150,16 @@ def check_slurm_output(path_root, id_job):
     log.debug(f"Checking slurm output:\n{slurm_path:}\n")
 
     with open(slurm_path, "r") as source_file:
-        if not ("Finished" in source_file):
+        text = source_file.read()
+        if not ("Finished" in text):
             log.debug("We got here too early?")  # should this be an exception?
 
-        elif "SIGSEGV" in source_file:
+        elif "SIGSEGV" in text:
             raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
 
-        elif "Killed" in source_file:
+        elif "Killed" in text:
             # most likely cause is that it ran out of memory
-            if "Exceeded step memory limit" in source_file:
+            if "Exceeded step memory limit" in text:
                 raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
             raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
         else:
-- 
2.43.0


From ae9c2ea564a3942bf342e0dfd5701019b356a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 33/44] fix: read_model_h_file calls its helper functions with
 their arguments

---
 pibronic/vibronic/model_h.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/vibronic/model_h.py b/pibronic/vibronic/model_h.py
index f285ac5..2d932f7 100755
--- a/pibronic/vibronic/model_h.py
+++ b/pibronic/vibronic/model_h.py
@@ -260,9 +260,9 @@ def read_model_h_file(path_file_h):
         global numModes, numStates
         global Modes, States
 
-        numStates = get_number_of_electronic_states(source_file)
+        numStates = get_number_of_electronic_states(path_file_params, source_file)
         States = range(numStates)
-        numModes, numSymmetricModes = get_number_of_normal_modes(source_file)
+        numModes, numSymmetricModes = get_number_of_normal_modes(path_file_params, source_file)
         Modes = range(numModes)
 
         # for readability and clarity we use these letters
@@ -280,7 +280,7 @@ def read_model_h_file(path_file_h):
         linear_couplings = np.zeros(size['NAA'])
         quadratic_couplings = np.zeros(size['NNAA'])
 
-        extract_normal_mode_frequencies(source_file, frequencies, numSymmetricModes)
+        extract_normal_mode_frequencies(path_file_params, source_file, frequencies, numSymmetricModes)
 
         # convert to wavenumers up to 2 decimal places
         wavenumber_freq = np.around(frequencies * 8065.5, decimals=2)
@@ -290,8 +290,8 @@ def read_model_h_file(path_file_h):
     with open(path_file_h, "r+b") as source_file:
         # access the file using memory map for efficiency
         with mmap.mmap(source_file.fileno(), 0, prot=mmap.PROT_READ) as mm:
-            extract_energies(path_file_h, mm, excitation_energies, frequencies)
-            extract_linear_couplings(path_file_h, mm, wavenumber_freq, linear_couplings, frequencies)
+            extract_energies(path_file_h, mm, excitation_energies)
+            extract_linear_couplings(path_file_h, mm, linear_couplings, wavenumber_freq)
             # extract_quadratic_couplings(path_file_h, mm, wavenumber_freq, quadratic_couplings, frequencies)
             # extract_offdiag_quadratic_couplings(path_file_h, mm, wavenumber_freq, quadratic_couplings, frequencies)
             # extract_cubic_couplings(path_file_h, mm, wavenumber_freq, cubic_couplings, frequencies)
-- 
2.43.0


From aa9a073f52e9eef0c2754e371cc07e8561ec1dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:36 +0000
Subject: [PATCH 34/44] fix: a vibron calculation which did not complete is not
 recorded

---
 pibronic/vibronic/electronic_structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index b928270..913ec04 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1625,6 +1625,8 @@ class VibronExecutionClass:
         """wrapper method"""
         if self.state == State.VIBRON:
             vibron_calculation(self.path_root, self.name, self.zmat, self.parameter_dictionary)
+            # there is no later step which would notice that the calculation failed
+            parse_vibron_output(self)
             self.advance()
         return
 
-- 
2.43.0


From 83f28870d86c9b1acf46c715f08f91dad3450d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:52 +0000
Subject: [PATCH 35/44] fix: the linear couplings of a mode are read from its
 own block of the .h file

---
 pibronic/vibronic/model_h.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pibronic/vibronic/model_h.py b/pibronic/vibronic/model_h.py
index 2d932f7..0722b92 100755
--- a/pibronic/vibronic/model_h.py
+++ b/pibronic/vibronic/model_h.py
@@ -3,6 +3,7 @@
 # system imports
 import itertools as it
 import mmap
+import re
 
 # third party imports
 import numpy as np
@@ -124,9 +125,14 @@ def extract_linear_couplings(path, memmap, coupling_terms, frequencies):
     # go to the beginning of that region
     memmap.seek(begin)
 
+    blocks = set()
     for idx, w in enumerate(frequencies):
         # find the next block of linear coupling_terms terms
-        next_block = memmap.find(str(w).encode(encoding="utf-8"), begin, end)
+        # frequencies can be part of other numbers, and modes can be degenerate
+        pattern = rb'(?<![\d.])' + re.escape(str(w)).encode(encoding="utf-8") + rb'0*(?![\d.])'
+        matches = (begin + m.start() for m in re.finditer(pattern, memmap[begin:end]))
+        next_block = next((start for start in matches if start not in blocks), -1)
+        blocks.add(next_block)
         # error handling
         if next_block == -1:
             s = ("Frequency {:f} in wavenumber_freq did not match any "
-- 
2.43.0


From 9f2bf72a4e28fad88e26d0c58405301f808088f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 36/44] fix: load_sos does not use the values of another model
 if a file is missing

---
 pibronic/plotting/plotting.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 2d8d1d9..0103485 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -3,7 +3,6 @@
 
 # system imports
 import json
-import os
 from os.path import join
 
 # third party imports
@@ -66,9 +65,8 @@ def load_sos(self, basis_size=80):
     for idx_FS, FS in enumerate(self.FS_lst):
         path = FS.template_sos_vib.format(B=basis_size)
 
-        if os.path.isfile(path):
-            with open(path, 'r') as file:
-                data = json.loads(file.read())
+        with open(path, 'r') as file:
+            data = json.loads(file.read())
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
-- 
2.43.0


From 40e3c5cc518b1073082ae153b06c8ff6a490c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 37/44] fix: plot_Cv uses the function for the values of tau
 there is

---
 pibronic/plotting/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 0103485..d030074 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -1097,7 +1097,7 @@ class plot_Z_test(plotVirtual):
         # print Cv values
         for T in self.lst_T[idx_FS]:
             idx_T = self.lst_T[idx_FS].index(T)
-            tau_values = self.generate_tau_values(T)
+            tau_values = generate_tau_values(self, T, idx_FS)
             for X in self.lst_X[idx_FS]:
                 idx_X = self.lst_X[idx_FS].index(X)
 
-- 
2.43.0


From bda892f59211df87c7ebd9ae05549f0c4eb858b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 38/44] fix: results of more than one temperature can be
 plotted

---
 pibronic/plotting/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index d030074..59a4dee 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -356,7 +356,7 @@ class plot_original_Z_test(plotVirtual):
         return tau_arr
 
     def plot_Z(self):
-        fig, ax = plt.subplots(1, 1)
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1)
 
         # HACKY - this won't work anymore with the nested lists
         if len(self.lst_T[0]) is 1:
@@ -1020,7 +1020,7 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_Z(self):
-        fig, ax = plt.subplots(1, 1)
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1)
 
         # HACKY - this won't work anymore with the nested lists
         if len(self.lst_T[0]) is 1:
@@ -1053,7 +1053,7 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_E(self):
-        fig, ax = plt.subplots(1, 1)
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1)
 
         # HACKY - this won't work anymore with the nested lists
         if len(self.lst_T[0]) is 1:
@@ -1086,7 +1086,7 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_Cv(self):
-        fig, ax = plt.subplots(1, 1)
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1)
 
         # HACKY - this won't work anymore with the nested lists
         if len(self.lst_T[0]) is 1:
-- 
2.43.0


From d8bb4bf04f484d9fcf556a36745d603d456da744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 39/44] fix: integer parameters of the parameter file can be
 used in the input files

---
 pibronic/vibronic/electronic_structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 913ec04..c70a3ae 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1564,6 +1564,10 @@ class VibronExecutionClass:
                             s = "Header {:s} is not valid\n Check that your {:s} has the correct formatting"
                             raise ValueError(s.format(header, file_path))
 
+                        # the input files are formatted with integers
+                        if isinstance(self.parameter_dictionary[header], int):
+                            data = int(data)
+
                         self.parameter_dictionary[header] = data
 
         except ValueError as error_object:
-- 
2.43.0


From c89b79ae179ef3675ac4fb4fe70e76756c422b1d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 40/44] fix: the energies of a cp.auto file are read once

read_model_auto_file read them with an inline loop and then again with fill_in_excitation_energies,
which consumed the lines that follow (property C27).
---
 pibronic/vibronic/model_auto.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pibronic/vibronic/model_auto.py b/pibronic/vibronic/model_auto.py
index c16d31f..266c8d5 100755
--- a/pibronic/vibronic/model_auto.py
+++ b/pibronic/vibronic/model_auto.py
@@ -170,8 +170,6 @@ def read_model_auto_file(filename):
     # ========================
 
     title_header.read(next(f_iter))
-    for a in el_range:
-        excitation_energies[a, :] = coefficient_header.read(next(f_iter))
     fill_in_excitation_energies(f_iter, el_range, excitation_energies)
 
     # ===============================
-- 
2.43.0


From cdaa4853f387b450ebd6a569e104d48f90fc1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 41/44] fix: the plotting sequence of orthonormal matrices
 passes the order on

---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index 9cb1338..a3956a1 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -322,7 +322,7 @@ def generate_full_monotonic_sequence_for_plotting(order):
     p_list = list_of_turning_points(SKSM, identity)
 
     # first we generate the x pairs and save them to a file
-    x_pairs = generate_and_save_x_pairs(p_list)
+    x_pairs = generate_and_save_x_pairs(order, p_list)
     max_x = p_list[-1].x
 
     diff = difference_function(SKSM, identity)
-- 
2.43.0


From ea0be17f8b6a77d34e6500f1ad6bbad51e0d5f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 42/44] fix: turning points are plotted at their own x

---
 pibronic/vibronic/orthonormal/sequences.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index a3956a1..87d65fb 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -363,10 +363,12 @@ def generate_turning_point_sequence_for_plotting(order):
     turning_points = []
 
     for x in np.linspace(*linspace_dims):
-        if len(p_list) > 0 and np.isclose(x, p_list[0].x):
-            turning_points.append(p_list[0].y)
+        y = None
+        # one value of x can be the beginning and the end of a rise
+        while len(p_list) > 0 and np.isclose(x, p_list[0].x):
+            y = p_list[0].y
             del p_list[0]
-        turning_points.append(None)
+        turning_points.append(y)
 
     diff = difference_function(SKSM, identity)
     frobenius_norm = partial(norm, ord='fro')
-- 
2.43.0


From 1830a49eeb19bfc877bd69d16ae2a08466a11d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:53 +0000
Subject: [PATCH 43/44] fix: the LaTeX preamble is set in the form every
 matplotlib accepts

---
 pibronic/plotting/prepare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/prepare.py b/pibronic/plotting/prepare.py
index 0d90caa..1e7903b 100644
--- a/pibronic/plotting/prepare.py
+++ b/pibronic/plotting/prepare.py
@@ -26,7 +26,7 @@ def prepare_mpl_rc_file(pretty_but_slow=False):
         # mpl.rc('font', **{'family': 'serif', 'serif': ['Palatino']})
     mpl.rc('text', usetex=True)  # using LaTeX
     # we need to load the amsmath package to use the \text{} command
-    mpl.rcParams['text.latex.preamble'] = [r'\usepackage{amsmath}']
+    mpl.rcParams['text.latex.preamble'] = r'\usepackage{amsmath}'
     return
 
 
-- 
2.43.0


From d319fcba0ed28e4c74d23c205dfeb294b48eadef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:53 +0000
Subject: [PATCH 44/44] fix: the grids of a model have the size of that model

---
 pibronic/plotting/grid_plots.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/plotting/grid_plots.py b/pibronic/plotting/grid_plots.py
index 522d722..7de7d12 100755
--- a/pibronic/plotting/grid_plots.py
+++ b/pibronic/plotting/grid_plots.py
@@ -60,7 +60,7 @@ class plotGrids():
 
     def annotate_intensity_grid(self, fig, ax, data, title):
         """ commonly shared code for plotting"""
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
 
         # We want 1 tick for each square
         plt.locator_params(nbins=A)
@@ -154,7 +154,7 @@ class plotGrids():
 
     def plot_original_linear_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j in range(N):
             title = f"Original linear terms Grid (Mode {j+1:d})"
             filename = f"original_linear_grid_D{self.FS.id_data:d}_N{j+1:d}.pdf"
@@ -163,7 +163,7 @@ class plotGrids():
 
     def plot_coupled_linear_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j in range(N):
             title = f"Coupled linear terms Grid (Mode {j+1:d})"
             filename = f"coupled_linear_grid_D{self.FS.id_data:d}_N{j+1:d}.pdf"
@@ -202,7 +202,7 @@ class plotGrids():
 
     def plot_original_quadratic_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j1,  j2 in it.product(range(N), range(N)):
             title = f"Original quadratic terms Grid (Modes {j1+1:d}{j2+1:d})"
             filename = f"original_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
@@ -211,7 +211,7 @@ class plotGrids():
 
     def plot_coupled_quadratic_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j1,  j2 in it.product(range(N), range(N)):
             title = f"Coupled quadratic terms Grid (Modes {j1+1:d}{j2+1:d})"
             filename = f"coupled_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
-- 
2.43.0

