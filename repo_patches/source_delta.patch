From 3a43fdc1f5e2bab7e03f3ee95ab1a1ae91549c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 01/29] fix: HPELM.project writes row i of a range to row i of
 the result

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 43471b6..d8c8cd6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -282,7 +282,7 @@ class HPELM(ELM):
             # process data
             Hb = self.nnet._project(Xb)
             # write data
-            H[start:stop-istart] = Hb
+            H[start-istart:stop-istart] = Hb
 
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-- 
2.43.0


From ecf4ee40558d7f99e5061e2931c3e9b747035217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 02/29] fix: make_hdf5 opens text files with a mode that Python
 3.11+ accepts

---
 hpelm/modules/hdf5_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63152e..6258ee0 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -184,7 +184,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
         # check data dimensionality
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
@@ -211,7 +211,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
         h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-- 
2.43.0


From 80571f25780ebb35496d46e274000424c7275ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 03/29] fix: custom numpy.ufunc neurons are accepted by
 add_neurons, so project with them

---
 hpelm/nnets/slfn.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 176c2c4..507e397 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -116,7 +116,14 @@ class SLFN(object):
             H (matrix): an SLFN hidden layer representation, size (N * `L`) where 'L' is number of neurons
         """
         assert self.neurons is not None, "ELM has no neurons"
-        return np.hstack([self.func[ftype](X, W, B) for _, ftype, W, B in self.neurons])
+        return np.hstack([self._neuron_func(ftype)(X, W, B) for _, ftype, W, B in self.neurons])
+
+    def _neuron_func(self, ftype):
+        """Returns transformation function for a neuron type, either a standard one or a custom <numpy.ufunc>.
+        """
+        if isinstance(ftype, np.ufunc):
+            return lambda X, W, B: ftype(np.dot(X, W) + B)
+        return self.func[ftype]
 
     def _predict(self, X):
         """Predict a batch of data. Auxiliary function that implements a particular prediction.
-- 
2.43.0


From 6f7f5cc8b36cb39a4d6c1ed45552e577dda63f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 04/29] fix: do not double the lower triangle of a full HH
 matrix

---
 hpelm/nnets/slfn_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 8bfdcd0..2e3264e 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -61,7 +61,7 @@ class SLFNPython(SLFN):
         if info > 0:
             print("Covariance matrix is not full rank; solving with SVD (slow)")
             print("This happened because you have duplicated or too many neurons")
-            HH = HH + np.triu(HH, k=1).T
+            HH = np.triu(HH) + np.triu(HH, k=1).T
             B = np.linalg.lstsq(HH, HT)[0]
         return B
 
@@ -69,5 +69,5 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        HH = self.HH + np.triu(self.HH, k=1).T
+        HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From 1cc0244ee692c3888fcc100509b4b05e77b3caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 05/29] fix: writing HH, HT to disk does not remove the norm
 from matrices in memory

---
 hpelm/hp_elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d8c8cd6..c580b10 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -166,7 +166,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
-            HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
+            HH = HH - self.nnet.norm*np.eye(HH.shape[0], dtype=HH.dtype)  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
     def solve_corr(self, fHH, fHT):
@@ -553,7 +553,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
-            HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
+            HH = HH - self.nnet.norm*np.eye(HH.shape[0], dtype=HH.dtype)  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
-- 
2.43.0


From 337270875698efb716239cdecac007aaf8a41554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 06/29] fix: load creates a new solver of the object's own type
 for every accelerator, instead of merging into old neurons

---
 hpelm/elm.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 734df2d..c0711f5 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -72,15 +72,7 @@ class ELM(object):
 
         # create SLFN solver to do actual computations
         self.accelerator = accelerator
-        if accelerator is "GPU":
-            print("Using CUDA GPU acceleration with Scikit-CUDA")
-            from .nnets.slfn_skcuda import SLFNSkCUDA
-            self.nnet = SLFNSkCUDA(inputs, outputs, precision=self.precision, norm=norm)
-        elif accelerator is "basic":
-            print("Using slower basic Python solver")
-            self.nnet = SLFN(inputs, outputs, precision=self.precision, norm=norm)
-        else: # double precision Numpy solver
-            self.nnet = SLFNPython(inputs, outputs, precision=self.precision, norm=norm)
+        self.nnet = self._make_solver(inputs, outputs, norm)
 
         # init other stuff
         self.classification = None  # train ELM for classification
@@ -97,6 +89,19 @@ class ELM(object):
         self.tprint = tprint  # time intervals in seconds to report ETA
         self.flist = ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf")  # supported neuron types
 
+    def _make_solver(self, inputs, outputs, norm):
+        """Creates an empty SLFN solver of the type given by `accelerator`.
+        """
+        if self.accelerator == "GPU":
+            print("Using CUDA GPU acceleration with Scikit-CUDA")
+            from .nnets.slfn_skcuda import SLFNSkCUDA
+            return SLFNSkCUDA(inputs, outputs, precision=self.precision, norm=norm)
+        elif self.accelerator == "basic":
+            print("Using slower basic Python solver")
+            return SLFN(inputs, outputs, precision=self.precision, norm=norm)
+        else: # double precision Numpy solver
+            return SLFNPython(inputs, outputs, precision=self.precision, norm=norm)
+
     def __str__(self):
         s = "ELM with %d inputs and %d outputs\n" % (self.nnet.inputs, self.nnet.outputs)
         s += "Hidden layer neurons: "
@@ -459,11 +464,9 @@ class ELM(object):
         self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        if self.accelerator is None:
-            self.nnet = SLFN(inputs, outputs, precision=self.precision)
+        self.nnet = self._make_solver(inputs, outputs, m["norm"])
         for number, func, W, B in m["neurons"]:
             self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
-        self.nnet.norm = m["norm"]
         if m["Beta"] is not None:
             self.nnet.set_B(np.array(m["Beta"], dtype=self.precision))
 
-- 
2.43.0


From e68a99055f84bf2158f5b988eec48488856d3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 07/29] fix: HPELM weighted error is not NaN for a class
 without samples

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index c580b10..1364ed2 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -363,7 +363,7 @@ class HPELM(ELM):
                         err1 = np.not_equal(Yb[idx].argmax(1), i)
                         errc[i] += err1.sum()
                         countc[i] += len(idx)
-            errc = errc / countc  # get mean value
+            errc = errc / np.maximum(countc, 1)  # get mean value, zero for classes without samples
             err = np.sum(errc * self.wc) / np.sum(self.wc)
 
         elif self.classification == "ml":
-- 
2.43.0


From b946b448cf8ad642d2aa983fc116402032f51f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 08/29] fix: validation_corr computes class-weighted error over
 all batches together

---
 hpelm/hp_elm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 1364ed2..20a8caa 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -441,7 +441,8 @@ class HPELM(ELM):
             for i in xrange(k):
                 hb1 = Hb[:, :Ls[i]]
                 Yb = np.dot(hb1, Betas[i])
-                errs[i] += self._error(Tb, Yb) * float(stop-start)/N
+                if self.classification != "wc":
+                    errs[i] += self._error(Tb, Yb) * float(stop-start)/N
                 if classification: confs[i] += self.confusion(Tb, Yb)
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
@@ -449,6 +450,12 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+        if self.classification == "wc":  # class-weighted errors do not average over batches
+            for i in xrange(k):
+                countc = confs[i].sum(axis=1)
+                errc = (countc - np.diag(confs[i])) / np.maximum(countc, 1)
+                errs[i] = np.sum(errc * self.wc) / np.sum(self.wc)
+
         k_opt = np.argmin(errs)
         best_L = Ls[k_opt]
         self.nnet._prune(np.arange(best_L))
-- 
2.43.0


From e839535ac6e0bfdcf987b868b761b3f0ff278977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 09/29] fix: validation_corr uses 3 .. L neurons, not L+1, and
 accepts a vector of steps as documented

---
 hpelm/hp_elm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 20a8caa..2ef8b97 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -417,8 +417,11 @@ class HPELM(ELM):
         L = self.nnet.L
         classification = self.classification is not None
 
-        Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-        Ls = np.ceil(Ls).astype(int)
+        if np.ndim(steps) > 0:  # exact numbers of neurons are given
+            Ls = np.array(steps).astype(int)
+        else:
+            Ls = np.logspace(np.log(min(3, L)), np.log(L), steps, base=np.e, endpoint=True)
+            Ls = np.ceil(Ls - 1E-6).astype(int)  # rounding errors must not add a neuron
         Ls = np.unique(Ls)  # numbers of neurons to check
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
-- 
2.43.0


From 81a1f2d49c4be8ba6f5d929df1bf534bd464f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 10/29] fix: training options and classification types work in
 lower and upper case

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index c0711f5..aa2fe39 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -77,7 +77,7 @@ class ELM(object):
         # init other stuff
         self.classification = None  # train ELM for classification
         if classification.lower() in ("c", "wc", "ml", "mc"):  # allow 'mc'=='ml' for compatibility
-            self.classification = classification.replace("mc", "ml")
+            self.classification = classification.lower().replace("mc", "ml")
         self.wc = None  # weighted classification weights
         if w is not None:
             w = np.array(w)
@@ -186,8 +186,8 @@ class ELM(object):
         """
         X, T = self._checkdata(X, T)
         self._train_parse_args(args, kwargs)
+        args = [a.upper() for a in args]  # make all arguments upper case
 
-        # TODO: test upper case and lower case 'V', ...
         # train ELM with desired model structure selection
         if "V" in args:  # use validation set
             assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
-- 
2.43.0


From b86e421cecc4a938b512a76e578ce36c7339025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 11/29] fix: workers prepare HH and HT files under the file
 lock, so none sees a partially created file or creates it twice

---
 hpelm/modules/hdf5_tools.py | 66 +++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6258ee0..11ba7f3 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -33,40 +33,42 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
         outputs = nnet.outputs
         norm = nnet.norm
 
-        # process fHH
-        if os.path.isfile(fHH):
-            h5 = open_file(fHH, 'r')
-            node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
-            try:
-                assert node is not None, f"Matrix in {fHH} does not exist"
-                s0 = node.shape[0]
-                msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
-                assert node is not None and node.shape[0] == L and node.shape[1] == L, msg
-            except AssertionError:
-                raise  # re-raise same error
-            finally:
-                h5.close()
-        else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
+        # process fHH, with a lock because other processes may be creating or writing the same file
+        with fasteners.InterProcessLock(fHH + ".lock"):
+            if os.path.isfile(fHH):
+                h5 = open_file(fHH, 'r')
+                node = None
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                try:
+                    assert node is not None, f"Matrix in {fHH} does not exist"
+                    s0 = node.shape[0]
+                    msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
+                    assert node is not None and node.shape[0] == L and node.shape[1] == L, msg
+                except AssertionError:
+                    raise  # re-raise same error
+                finally:
+                    h5.close()
+            else:
+                make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
 
         # process fHT
-        if os.path.isfile(fHT):
-            h5 = open_file(fHT, 'r')
-            node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
-            try:
-                assert node is not None, f"Matrix in {fHT} does not exist"
-                msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
-                assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
-            except AssertionError:
-                raise  # re-raise same error
-            finally:
-                h5.close()
-        else:
-            make_hdf5((L, outputs), fHT, precision)
+        with fasteners.InterProcessLock(fHT + ".lock"):
+            if os.path.isfile(fHT):
+                h5 = open_file(fHT, 'r')
+                node = None
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                try:
+                    assert node is not None, f"Matrix in {fHT} does not exist"
+                    msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
+                    assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
+                except AssertionError:
+                    raise  # re-raise same error
+                finally:
+                    h5.close()
+            else:
+                make_hdf5((L, outputs), fHT, precision)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From fb3236827796bef66a161655225811d9b2cdaf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 12/29] fix: mrsr falls back to pseudo-inverse with NumPy 2

---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index ab3547b..77cc3a8 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -97,7 +97,7 @@ def mrsr(X, T, kmax):
         #v3 = XX[i1, :][:, i1]
         try:
             invXX = np.linalg.inv(v3)	   
-        except np.linalg.linalg.LinAlgError:
+        except np.linalg.LinAlgError:
             invXX = np.linalg.pinv(v3)
 
         Wols = np.dot(invXX, XT.take(i1,axis=0))
-- 
2.43.0


From 50b58d3ac0023c0a30c44b95302c6ddb3672fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 13/29] fix: mrsr does not fail with a single input or with
 targets already explained

---
 hpelm/modules/mrsr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 77cc3a8..e564c13 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -71,7 +71,8 @@ def mrsr(X, T, kmax):
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
-    g     = G[G>=0].min()
+    G     = G[G>=0]
+    g     = G.min() if G.size > 0 else 1  # no other inputs left, or zero correlation with all of them
     Y = g*Yols
 
     # Rest of the steps
@@ -113,7 +114,8 @@ def mrsr(X, T, kmax):
         if k == kmax:  # G[G>=0] is empty if k==kmax; empty.min() will give error
             Y = Yols
         else:
-            g = G[G>=0].min()
+            G = G[G>=0]
+            g = G.min() if G.size > 0 else 1
             Y = (1-g)*Y+g*Yols
 		
     return i1
-- 
2.43.0


From 719dfdb670e6045e936cc80332b0ab625cf9b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 14/29] fix: rbf_param works with NumPy that does not convert
 matrices to scalars

---
 hpelm/modules/rbf_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 2124194..c4148d3 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -39,7 +39,7 @@ def rbf_param(data, k, kind="sqeuclidean"):
         j = ix[i]
         if i == j:
             j += 1
-        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)
+        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     m = dist.mean()
     s = dist.std()
 
-- 
2.43.0


From 7904ce4bfb8c8f1f05e66586e3f4636fdfe62853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 15/29] fix: rbf_param does not loop forever if all sampled
 distances are zero

---
 hpelm/modules/rbf_param.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index c4148d3..9caa789 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -42,6 +42,7 @@ def rbf_param(data, k, kind="sqeuclidean"):
         dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     m = dist.mean()
     s = dist.std()
+    assert m > 0, "Cannot find widths of RBF neurons, all sampled distances are zero"
 
     # fill centroids as random points
     ix = np.random.choice(N, size=k)
-- 
2.43.0


From ed1448501ab75b74c247fc1b176da5327bf2aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 16/29] fix: predict_async stores outputs in the precision of
 the model, like predict

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 2ef8b97..8edaf70 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -579,7 +579,7 @@ class HPELM(ELM):
         icount = min(icount, N - istart)
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
-        make_hdf5((icount, self.nnet.outputs), fY)
+        make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
 
         # start async reader and writer for HDF5 files
         qr_in = mp.Queue()
-- 
2.43.0


From 000cda654ade2e7e3b2608348841785b22b51110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 17/29] fix: asynchronous methods refuse arrays at once instead
 of waiting forever for a dead reader

---
 hpelm/hp_elm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 8edaf70..687b2ea 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -495,6 +495,8 @@ class HPELM(ELM):
         """
         # initialize
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM before using it"
+        msg = "Asyncronous I/O only supported with HDF5 data files"
+        assert isinstance(fX, string_types) and isinstance(fT, string_types), msg
         X, T = self._checkdata(fX, fT)
         N = X.shape[0]
         # TODO: adapt for GPU solver
@@ -573,6 +575,8 @@ class HPELM(ELM):
         """
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM and train it before using"
         assert self.nnet.B is not None, "Train ELM before predicting"
+        msg = "Asyncronous I/O only supported with HDF5 data files"
+        assert isinstance(fX, string_types) and isinstance(fY, string_types), msg
         X, _ = self._checkdata(fX, None)
         N = X.shape[0]
         # custom range adjustments
-- 
2.43.0


From 980a1a741b34bd8c6fb98fb44bed490366bf047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 18/29] fix: model selection trains with class weights in
 weighted classification

---
 hpelm/elm.py     | 13 ++++++++-----
 hpelm/mss_cv.py  |  5 +++--
 hpelm/mss_loo.py |  2 +-
 hpelm/mss_v.py   |  2 +-
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index aa2fe39..d496330 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -226,17 +226,20 @@ class ELM(object):
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
 
-        # find automatic weights if none are given
-        if self.classification == "wc" and self.wc is None:
-            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
-            self.wc = ns.sum() / ns  # weights of classes
-
+        self._auto_weights(T)
         for X0, T0 in zip(np.array_split(X, nb, axis=0),
                           np.array_split(T, nb, axis=0)):
             if self.classification == "wc":
                 wc_vector = self.wc[np.where(T0 == 1)[1]]  # weights for samples in the batch
             self.nnet.add_batch(X0, T0, wc_vector)
 
+    def _auto_weights(self, T):
+        """Find automatic weights of classes for weighted classification, if none are given.
+        """
+        if self.classification == "wc" and self.wc is None:
+            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
+            self.wc = ns.sum() / ns  # weights of classes
+
     def add_neurons(self, number, func, W=None, B=None):
         """Adds neurons to ELM model. ELM is created empty, and needs some neurons to work.
 
diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 35f349c..43acc79 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -29,6 +29,7 @@ def train_cv(self, X, T, k):
     L = self.nnet.L
     c = self.nnet.outputs
 
+    self._auto_weights(T)  # weights of classes from the whole dataset
     idxk = []
     for i in range(k):
         idxk.append(np.arange(N)[i::k])
@@ -46,7 +47,7 @@ def train_cv(self, X, T, k):
         Xts = X[idx_ts]
         Tts = T[idx_ts]
         self.nnet.reset()
-        self.nnet.add_batch(Xtr, Ttr)
+        self.add_data(Xtr, Ttr)
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
@@ -118,7 +119,7 @@ def train_cv(self, X, T, k):
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a Cross-Validation" % (len(best_nn), nn)
 #    print "the Cross-Validation test error is %f" % err_ts
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 94c6dfd..14e8095 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -89,7 +89,7 @@ def train_loo(self, X, T):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a LOO validation" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 33b5829..b29c31c 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -78,7 +78,7 @@ def train_v(self, X, T, Xv, Tv):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a validation set" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
-- 
2.43.0


From 4f48b17c71760ec0566e0582012f95a781b761e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 19/29] fix: with kmax the largest evaluated model has only the
 ranked neurons

---
 hpelm/elm.py     | 2 +-
 hpelm/mss_cv.py  | 6 ++++--
 hpelm/mss_loo.py | 3 ++-
 hpelm/mss_v.py   | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index d496330..ffe3c8d 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -543,7 +543,7 @@ class ELM(object):
         else:  # random ranking
             rank = np.arange(L)
             np.random.shuffle(rank)
-        return rank, L
+        return rank, len(rank)
 
     def _checkdata(self, X, T):
         """Checks data variables and fixes matrix dimensionality issues.
diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 43acc79..00146b7 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -51,9 +51,10 @@ def train_cv(self, X, T, k):
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
-        rank, L = self._ranking(Hvl.shape[1], Hvl, Tvl)
+        rank, _ = self._ranking(L, Hvl, Tvl)
         datak.append((HH, HT, Hvl, Tvl, Hts, Tts, rank))
 
+    L = min([len(d[-1]) for d in datak])  # number of ranked neurons
     e = np.ones((L+1,)) * -1  # errors for all numbers of neurons
 
     err = 0
@@ -62,7 +63,8 @@ def train_cv(self, X, T, k):
         Yvl = np.dot(Hvl, B)
         err += self._error(Tvl, Yvl) / k
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # otherwise computed below, with only the top-ranked neurons
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 14e8095..ce2f39e 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -37,7 +37,8 @@ def train_loo(self, X, T):
     err = self._error(T, Y, R)
 
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # otherwise computed below, with only the top-ranked neurons
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index b29c31c..b3cb553 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -32,7 +32,8 @@ def train_v(self, X, T, Xv, Tv):
     err = self._error(Tv, Yv)
     # TODO: replace penalty by Akaike-BIC criterion
     penalty = err*0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L*penalty
+    if L == self.nnet.L:  # otherwise computed below, with only the top-ranked neurons
+        e[L] = err + L*penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
-- 
2.43.0


From 7875233e7dd7a04daf3ff46fb30d3f5cfa4c9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 20/29] fix: cross-validation works with less than 3 neurons

---
 hpelm/mss_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 00146b7..28cbfa6 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -71,7 +71,7 @@ def train_cv(self, X, T, k):
     # halve the interval each time
 
     # initialize intervals
-    iA = 3
+    iA = min(3, L)
     iE = L
     l = iE - iA
     iB = iA + l//4
-- 
2.43.0


From 41af34b927625040404c6668f618551c362d5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 21/29] fix: cross-validation test error is of the selected
 model size, not of all neurons

---
 hpelm/mss_cv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 28cbfa6..7a0379d 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -115,9 +115,10 @@ def train_cv(self, X, T, k):
 
     # get test error
     err_t = 0
-    for HH, HT, _, _, Hts, Tts, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yts = np.dot(Hts, B)
+    for HH, HT, _, _, Hts, Tts, rank in datak:
+        rank1 = rank[:k_opt]
+        B = self.nnet.solve_corr(HH[rank1, :][:, rank1], HT[rank1, :])
+        Yts = np.dot(Hts[:, rank1], B)
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-- 
2.43.0


From d95ff512927447271c3aa4028a6061d39f512c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 22/29] fix: normalize_hdf5 applies the normalization it
 computes, and does not change given parameters

---
 hpelm/modules/hdf5_tools.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 11ba7f3..3ddc076 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -122,24 +122,31 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
             print("calculating mean and standard deviation of data")
             E_x = np.zeros((d,), dtype=np.float64)
             E_x2 = np.zeros((d,), dtype=np.float64)
+            x_min = np.ones((d,), dtype=np.float64) * np.inf
+            x_max = np.ones((d,), dtype=np.float64) * -np.inf
             for b in range(nb):
                 start = b*batch
                 step = min(batch, N-start)
                 X1 = node[start: start+step, :].astype(np.float64)
                 E_x += np.mean(X1, 0) * (1.0*step/N)
-                E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
+                x_min = np.minimum(x_min, X1.min(0))
+                x_max = np.maximum(x_max, X1.max(0))
             mean = E_x
-            E2_x = E_x**2
-            std = (E_x2 - E2_x)**0.5
+            for b in range(nb):  # second pass, difference of E_x2 and E_x**2 is inaccurate and may be negative
+                start = b*batch
+                step = min(batch, N-start)
+                X1 = node[start: start+step, :].astype(np.float64)
+                E_x2 += np.mean((X1 - mean)**2, 0) * (1.0*step/N)
+            std = E_x2**0.5
+            std[x_min == x_max] = 1  # constant columns
             node.attrs.mean = mean
             node.attrs.std = std
-            h5.close()
-            return mean, std
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
+            mean, std = node.attrs.mean, node.attrs.std
             h5.close()
-            return node.attrs.mean, node.attrs.std
+            return mean, std
     else:
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
@@ -147,6 +154,7 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
         assert len(std) == d, msg2
         node.attrs.mean = mean
         node.attrs.std = std
+    std = np.array(std)  # keep the given vector unchanged
     std[std == 0] = 1  # prevent division by zero for std=0
 
     print("applying normalization")
-- 
2.43.0


From 3b6b721f44688f5cf933f727d0e0c3f0deea1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 23/29] fix: make_hdf5 keeps a single row of a compressed text
 file as a row

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 3ddc076..7e8886d 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -189,7 +189,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     elif isinstance(data, string_types) and data[-3:] in ['npy']:
         X = np.load(data)
     elif isinstance(data, string_types) and data[-3:] in ['.gz', 'bz2']:
-        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows)
+        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows, ndmin=2)
     elif isinstance(data, string_types) and data[-3:] in ['txt', 'csv']:
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
-- 
2.43.0


From 754f494557ea6040e704ec09bafbc2bc3abe195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 24/29] fix: GPU solver works with custom numpy.ufunc neurons

---
 hpelm/nnets/slfn_skcuda.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 8f8e267..d2da3fa 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -102,6 +102,16 @@ class SLFNSkCUDA(SLFN):
         cumath.tanh(devH, out=devH)
         return devH
 
+    def _neuron_func(self, ftype):
+        """Returns transformation function for a neuron type; custom <numpy.ufunc> are computed on CPU.
+        """
+        if isinstance(ftype, np.ufunc):
+            def custom(devX, devW, devB):
+                H = ftype(np.dot(devX.get(), devW.get()) + devB.get())
+                return gpuarray.to_gpu(np.array(H, order="C", dtype=self.precision))
+            return custom
+        return self.func[ftype]
+
     def _dev_rbfl1(self, devX, devW, devB):
         # TODO: make proper GPU implementation of RBF_L1
         X = devX.get()
@@ -185,7 +195,7 @@ class SLFNSkCUDA(SLFN):
         devH = gpuarray.empty((X.shape[0], self.L), dtype=self.precision)
         i = 0
         for nn, ftype, devW, devB in self.neurons:
-            devH[:, i:i+nn] = self.func[ftype](devX, devW, devB)
+            devH[:, i:i+nn] = self._neuron_func(ftype)(devX, devW, devB)
             i += nn
 
         H = devH if dev else devH.get()
-- 
2.43.0


From 9b695e36eec78ee44772cfa17801e0c0e54fb35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 25/29] fix: RBF neurons of the GPU solver follow its precision

---
 hpelm/nnets/slfn_skcuda.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index d2da3fa..48ba3af 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -117,7 +117,8 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "cityblock")**2 / B))
+        H = np.exp(-cdist(X, W.T, "cityblock")**2 / B)
+        devH = gpuarray.to_gpu(np.array(H, order="C", dtype=self.precision))
         return devH
 
     def _dev_rbfl2(self, devX, devW, devB):
@@ -125,7 +126,8 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "euclidean")**2 / B))
+        H = np.exp(-cdist(X, W.T, "euclidean")**2 / B)
+        devH = gpuarray.to_gpu(np.array(H, order="C", dtype=self.precision))
         return devH
 
     def _dev_rbflinf(self, devX, devW, devB):
@@ -133,7 +135,8 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "chebyshev")**2 / B))
+        H = np.exp(-cdist(X, W.T, "chebyshev")**2 / B)
+        devH = gpuarray.to_gpu(np.array(H, order="C", dtype=self.precision))
         return devH
 
     def add_neurons(self, number, func, W, B):
-- 
2.43.0


From 81a68b87e0d7236e22f5848afbb8c205c8110c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 26/29] fix: GPU solver accepts matrices in column-major memory
 order

---
 hpelm/nnets/slfn_skcuda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 48ba3af..050aa6e 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -159,12 +159,12 @@ class SLFNSkCUDA(SLFN):
             i = ntypes.index(func)
             nn0, _, devW, devB = self.neurons[i]
             number = nn0 + number
-            devW = gpuarray.to_gpu(np.hstack((devW.get(), W)))
+            devW = gpuarray.to_gpu(np.array(np.hstack((devW.get(), W)), order="C"))
             devB = gpuarray.to_gpu(np.hstack((devB.get(), B)))
             self.neurons[i] = (number, func, devW, devB)
         else:
             # create a new neuron type
-            devW = gpuarray.to_gpu(W)
+            devW = gpuarray.to_gpu(np.array(W, order="C"))
             devB = gpuarray.to_gpu(B)
             self.neurons.append((number, func, devW, devB))
         self.reset()
@@ -319,7 +319,7 @@ class SLFNSkCUDA(SLFN):
         """
         assert B.shape[0] == self.L, "Incorrect first dimension: %d expected, %d found" % (self.L, B.shape[0])
         assert B.shape[1] == self.outputs, "Incorrect output dimension: %d expected, %d found" % (self.outputs, B.shape[1])
-        self.B = gpuarray.to_gpu(B.astype(self.precision))
+        self.B = gpuarray.to_gpu(np.array(B, order="C", dtype=self.precision))
 
     def get_corr(self):
         """Return current correlation matrices.
@@ -346,8 +346,8 @@ class SLFNSkCUDA(SLFN):
         assert HH.shape[0] == self.L, msg
         assert HH.shape[0] == HT.shape[0], "HH and HT must have the same number of rows (%d)" % self.L
         assert HT.shape[1] == self.outputs, "Number of columns in HT must equal number of outputs (%d)" % self.outputs
-        self.HH = gpuarray.to_gpu(HH.astype(self.precision))
-        self.HT = gpuarray.to_gpu(HT.astype(self.precision))
+        self.HH = gpuarray.to_gpu(np.array(HH, order="C", dtype=self.precision))
+        self.HT = gpuarray.to_gpu(np.array(HT, order="C", dtype=self.precision))
 
     def get_neurons(self):
         """Return current neurons.
-- 
2.43.0


From 51658a64114413dbeb2c19ffbd112c91eeed58c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 27/29] fix: GPU sigmoid does not write outside of its matrix

---
 hpelm/nnets/slfn_skcuda.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 050aa6e..4a18045 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -51,14 +51,14 @@ class SLFNSkCUDA(SLFN):
 
         # prepare GPU function kernels
         kernel = """
-            __global__ void dev_sigm(%s *a) {
+            __global__ void dev_sigm(%s *a, unsigned n) {
                 unsigned idx = blockDim.x * blockIdx.x + threadIdx.x;
-                a[idx] = 1.0 / ( exp(a[idx]) + 1 );
+                if (idx < n) a[idx] = 1.0 / ( exp(a[idx]) + 1 );
             }
             """
         kernel = kernel % "double" if self.precision is np.float64 else kernel % "float"
         self.dev_sigm = SourceModule(kernel).get_function("dev_sigm")
-        self.dev_sigm.prepare("P")
+        self.dev_sigm.prepare("PI")
 
         # GPU transformation functions
         self.func["lin"] = self._dev_lin
@@ -89,7 +89,7 @@ class SLFNSkCUDA(SLFN):
         devH = misc.add_matvec(linalg.dot(devX, devW), devB, axis=1)
         block = devH._block
         grid = (int(np.ceil(1.0 * np.prod(devH.shape) / block[0])), 1)
-        self.dev_sigm.prepared_call(grid, block, devH.gpudata)
+        self.dev_sigm.prepared_call(grid, block, devH.gpudata, np.uint32(np.prod(devH.shape)))
         return devH
 
     def _dev_tanh(self, devX, devW, devB):
-- 
2.43.0


From 2fd77f1209c3d556f8eba31a990624be0c66bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 28/29] fix: GPU solver works after all neurons of a type are
 pruned

---
 hpelm/nnets/slfn_skcuda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 4a18045..95ea32e 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -198,6 +198,8 @@ class SLFNSkCUDA(SLFN):
         devH = gpuarray.empty((X.shape[0], self.L), dtype=self.precision)
         i = 0
         for nn, ftype, devW, devB in self.neurons:
+            if nn == 0:  # all neurons of this type are pruned
+                continue
             devH[:, i:i+nn] = self._neuron_func(ftype)(devX, devW, devB)
             i += nn
 
-- 
2.43.0


From f9b45d191b744a2b3ee5e89022e10e8eec701ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:39 +0000
Subject: [PATCH 29/29] fix: matrices obtained with get_corr do not change by
 further training

---
 hpelm/nnets/slfn.py        | 4 +++-
 hpelm/nnets/slfn_python.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 507e397..e9a822d 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -225,7 +225,9 @@ class SLFN(object):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        return self.HH, self.HT
+        if self.HH is None:
+            return None, None
+        return self.HH.copy(), self.HT.copy()  # further training changes the original ones in place
 
     def set_corr(self, HH, HT):
         """Set pre-computed correlation matrices.
diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 2e3264e..0629135 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -70,4 +70,4 @@ class SLFNPython(SLFN):
         """Return current correlation matrices.
         """
         HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
-        return HH, self.HT
+        return HH, self.HT.copy()  # further training changes the original one in place
-- 
2.43.0

