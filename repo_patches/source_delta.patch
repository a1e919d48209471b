From 0df4307919ef4dfdebf65137773052eeb27db8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 01/67] fix: warn about missing shared memory only within the
 communicator

shm_split may be called with a subcommunicator, in which case the barrier on
the world communicator inside info() was not entered by all processes.
---
 elphmod/MPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index 7431d23..af1aff2 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -168,7 +168,7 @@ def shm_split(comm=comm, shared_memory=True):
     """
     if not shared_memory or MPI.COMM_TYPE_SHARED == MPI.UNDEFINED:
         if shared_memory and comm.size > 1:
-            info('Shared memory not implemented')
+            info('Shared memory not implemented', comm=comm)
 
         return I, comm
 
-- 
2.43.0


From 26304be4b56026bc2ede38a5fa490c7707b9cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 02/67] fix: write band order to the (shared) array that is
 broadcast

Rebinding the name on the first process left the other processes of the same
node with uninitialized shared memory.
---
 elphmod/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index fc36400..55ce9fa 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -168,7 +168,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             dtype=int, **memory)
 
         if comm.rank == 0:
-            o = band_order(v, V, **order_kwargs)
+            o[...] = band_order(v, V, **order_kwargs)
 
             for point in range(points):
                 v[point] = v[point, o[point]]
-- 
2.43.0


From f6d298d4910893c847d4bb9cb041a357a6f52d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 03/67] fix: order bands of dispersion_full_nosym without
 racing on shared memory

All processes of a node permuted the shared eigenvalues in place at the same
time. With broadcast=False, processes without data failed with an IndexError.
---
 elphmod/dispersion.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 55ce9fa..6297742 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -387,13 +387,11 @@ def dispersion_full_nosym(matrix, size, vectors=False, order=False,
         _, o = dispersion_full(matrix, size, vectors=False, order=True,
             *args, **kwargs)
 
-        for k1 in range(size):
-            for k2 in range(size):
-                v[k1, k2] = v[k1, k2, o[k1, k2]]
+        if v.size:
+            v = np.take_along_axis(v, o, axis=-1)
 
-                if vectors:
-                    for n in range(V.shape[2]):
-                        V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+            if vectors:
+                V = np.take_along_axis(V, o[:, :, np.newaxis, :], axis=-1)
 
     # return results:
 
-- 
2.43.0


From e7287c754e8e095b9e01276855d02825a6183a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 04/67] fix: wait for shared coupling to be complete before
 returning it

Processes with col.rank > 0 returned before the others had stored the data.
---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0d8b5b5..e787b2a 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -930,6 +930,8 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
 
                 row.Barrier()
 
+        comm.Barrier()
+
         return g
 
     if col.rank == 0:
-- 
2.43.0


From 16814a9b93bf93a880c0540a89f53b9d5766458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 05/67] fix: write Wannier90 Hamiltonian from first process
 only

---
 elphmod/el.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4fe9485..576c6b2 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -707,6 +707,9 @@ def write_hrdat(seedname, R, H, ndegen=None):
         Degeneracies of Wigner-Seitz lattice vectors. This is just what is
         written to the file header, and it is not used to further modify `H`.
     """
+    if comm.rank != 0:
+        return
+
     import time
 
     R_orig = R
-- 
2.43.0


From b64fed25648b3aac9b53431e41f4a539e618da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 06/67] fix: write ASCII coupling data from first process only

---
 elphmod/elph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index e787b2a..c0a8d46 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1576,6 +1576,9 @@ def write_xml_files(filename, data, angle=120, angle0=0):
 def write_data(filename, data):
     """Write array to ASCII file."""
 
+    if comm.rank != 0:
+        return
+
     iterator = np.nditer(data, flags=['multi_index'])
 
     complex_data = np.iscomplexobj(data)
-- 
2.43.0


From 7393c0eab0337bbafc8feca13395db4548309b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 07/67] fix: write list of q points from first process only

---
 elphmod/ph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0a7ba49..1453558 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1044,6 +1044,9 @@ def read_q(fildyn0):
 def write_q(fildyn0, q, nq):
     """Write list of irreducible q points to *fildyn0*."""
 
+    if comm.rank != 0:
+        return
+
     with open(fildyn0, 'w') as data:
         data.write('%4d%4d%4d\n' % (nq, nq, 1))
         data.write('%4d\n' % len(q))
-- 
2.43.0


From 3e36f1f755d8185deb874e19af933c31626d653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 08/67] fix: write quadrupole tensors from first process only

---
 elphmod/ph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 1453558..0187084 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1622,6 +1622,9 @@ def write_quadrupole_fmt(quadrupole_fmt, Q):
     --------
     read_quadrupole_fmt : Inverse function.
     """
+    if comm.rank != 0:
+        return
+
     with open(quadrupole_fmt, 'w') as data:
         data.write(('%4s %3s' + ' %14s' * 6 + '\n')
             % ('atom', 'dir', 'Qxx', 'Qyy', 'Qzz', 'Qyz', 'Qxz', 'Qxy'))
-- 
2.43.0


From 0b2f712ba57923fcd9601bd6974b57d20ea45d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 09/67] fix: copy files for EPW with first process only

---
 elphmod/elph.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index c0a8d46..0e07ac5 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1668,12 +1668,21 @@ def ph2epw(fildyn='dyn', outdir='work', dvscf_dir='save'):
     phsave, = glob.glob('%s/_ph0/*.phsave' % outdir)
     prefix = phsave[len('%s/_ph0/' % outdir):-len('.phsave')]
 
-    try:
-        shutil.copytree(phsave, '%s/%s.phsave' % (dvscf_dir, prefix))
-    except FileExistsError:
+    exists = False
+
+    if comm.rank == 0:
+        try:
+            shutil.copytree(phsave, '%s/%s.phsave' % (dvscf_dir, prefix))
+        except FileExistsError:
+            exists = True
+
+    if comm.bcast(exists):
         info('Warning: EPW dvscf_dir "%s" already exists!' % dvscf_dir)
         return
 
+    if comm.rank != 0:
+        return
+
     n = 0
     while True:
         n += 1
-- 
2.43.0


From 9c0ebca536b9f76888f94c2a85b914332bfaa7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 10/67] fix: do not overwrite origin of data grid read from
 cube file

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index d7a9a6e..7b80e9b 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -280,11 +280,11 @@ def read_cube(cube, only_header=False, comm=comm):
         r0 = np.array(list(map(float, cols[1:4])))
     else:
         nat = None
+        r0 = np.empty(3, dtype=float)
 
     nat = comm.bcast(nat)
 
     n = np.empty(3, dtype=int)
-    r0 = np.empty(3, dtype=float)
     a = np.empty((3, 3), dtype=float)
     X = np.empty(nat, dtype=int)
     tau = np.empty((nat, 3), dtype=float)
-- 
2.43.0


From 95f9d555c01013f3830915e7fc5e4e088cbb8f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 11/67] fix: allocate correct number of electron lattice
 vectors when standardizing

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0e07ac5..ef88e6e 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -624,7 +624,7 @@ class Model:
         if nk <= len(self.Rk):
             self.Rk = self.Rk[:nk]
         else:
-            self.Rk = np.empty((ng, 3), dtype=int)
+            self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0


From 8c80c408ce93231fb99e645500e0c285fb86b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 12/67] fix: read ASCII coupling data with Python 3

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index ef88e6e..dcf8b34 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1607,7 +1607,7 @@ def read_data(filename):
     """Read array from ASCII file."""
 
     with open(filename) as text:
-        columns = text.next().split()
+        columns = next(text).split()
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-- 
2.43.0


From 758c7ab35ff3de71baca4fb91b79a62063bc9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 13/67] fix: synchronize shared array only within its own
 communicators

The array may live on a subcommunicator, in which case not all processes enter
the barrier on the world communicator.
---
 elphmod/MPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index af1aff2..e81ea3b 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -269,7 +269,7 @@ class SharedArray(np.ndarray):
         if self.node.rank == 0:
             self.images.Bcast(self)
 
-        comm.Barrier()
+        self.node.Barrier()
 
 class Buffer:
     """Wrapper for ``pickle`` in parallel context.
-- 
2.43.0


From 2fd12c0ccee436909e8e26b0dd5ece52cb6d024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 14/67] fix: wait for shared coupling in band basis before
 using it

---
 elphmod/md.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 318e200..5697d9b 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -408,6 +408,8 @@ class Driver:
                 if self.node.rank == 0:
                     self.images.Bcast(self.d[iq].view(dtype=float))
 
+            self.node.Barrier()
+
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
-- 
2.43.0


From af66e8841854e810d8f4d330f55ce1792f3b1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 15/67] fix: wait for reduction of supercell coupling in shared
 memory

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index dcf8b34..dd37bc4 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -548,6 +548,8 @@ class Model:
                 elph.images.Allreduce(elphmod.MPI.MPI.IN_PLACE,
                     elph.data[g].view(dtype=float))
 
+        elph.node.Barrier()
+
         return elph
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From 33d918fa2be1e3dea6ebc891df90dca10f915a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 16/67] fix: do not overwrite coupling when transforming to
 squared modulus

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index dd37bc4..55ed21e 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -992,7 +992,7 @@ def transform(g, q, nk, U=None, u=None, squared=False, broadcast=True,
                     gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                 if squared:
-                    gqk *= gqk.conj()
+                    gqk = gqk * gqk.conj()
                     gqk = gqk.real
 
                 my_g[my_iq, :, k1, k2, :, :] = gqk
-- 
2.43.0


From 5e90665e2f77aaaa4932638762d9a736eea4ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 17/67] fix: report errors only within communicator of
 Green-Kubo routine

---
 elphmod/diagrams.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5e96149..2a3e7af 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -1453,12 +1453,14 @@ def green_kubo_conductivity(v, A, omega, kT=0.025, eps=1e-10, occupations='fd',
         domega = omega[1] - omega[0]
 
         if np.any(abs(np.diff(omega) - domega) > eps):
-            info('Frequency sampling must be equidistant!', error=True)
+            info('Frequency sampling must be equidistant!', error=True,
+                comm=comm)
 
         iw0 = np.argmin(abs(omega))
 
         if abs(omega[iw0]) > eps:
-            info('Frequency sampling should include zero!', error=True)
+            info('Frequency sampling should include zero!', error=True,
+                comm=comm)
 
         f = occupations(x)
 
-- 
2.43.0


From 1aa950acce34c716dc31e42c759f140c7b1eabde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 18/67] fix: do not modify Born charges passed as argument on
 first process

---
 elphmod/ph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0187084..e8d6a9c 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -265,6 +265,7 @@ class Model:
                 Q = read_quadrupole_fmt(quadrupole_fmt)
 
             if apply_zasr and zeu is not None:
+                zeu = np.array(zeu)
                 zasr(zeu)
 
         phid = comm.bcast(phid)
-- 
2.43.0


From 2a2a2671cd73778bf33b7c023df75c575884a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 19/67] fix: add long-range part of sparse supercell coupling
 only once

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 55ed21e..3d296aa 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -433,7 +433,7 @@ class Model:
             elph.gs = [sparse_array((elph.el.size, elph.el.size))
                 for x in range(elph.ph.size)]
 
-            if elph.ph.lr:
+            if elph.ph.lr and comm.rank == 0: # processes are summed over below
                 g_lr = elph.g_lr().real
 
                 for x in range(elph.ph.size):
-- 
2.43.0


From c554fbe0b816044810638ca67c7b90c0d648d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 20/67] fix: set same attributes of sparse supercell
 tight-binding model on all processes

---
 elphmod/el.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 576c6b2..32e098c 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -375,9 +375,10 @@ class Model:
 
                 status.update()
 
-            el.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
-            el.data = np.array(list(const.values())).reshape((-1,
-                el.size, el.size))
+            if not sparse:
+                el.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+                el.data = np.array(list(const.values())).reshape((-1,
+                    el.size, el.size))
 
             count = len(const)
             const.clear()
-- 
2.43.0


From c8846c298c60cf62a549ce6214fba76c65b19391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 21/67] fix: set same attributes of sparse supercell
 mass-spring model on all processes

---
 elphmod/ph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index e8d6a9c..966578f 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -655,9 +655,10 @@ class Model:
 
                 status.update()
 
-            ph.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
-            ph.data = np.array(list(const.values())).reshape((-1,
-                ph.size, ph.size))
+            if not sparse:
+                ph.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+                ph.data = np.array(list(const.values())).reshape((-1,
+                    ph.size, ph.size))
 
             count = len(const)
             const.clear()
-- 
2.43.0


From 5d5cbda8fb78fe896de41864c00d89eda34706a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 22/67] fix: do not convert lattice parameter passed by caller
 in place

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 87c9771..d408b7d 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -95,7 +95,7 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
             celldm[3] = cosab
 
     if not bohr:
-        celldm[0] *= elphmod.misc.a0
+        celldm = [celldm[0] * elphmod.misc.a0, *celldm[1:]]
 
     if ibrav == 0: # free
         if r_cell is None or cell_units is None:
-- 
2.43.0


From da27d4828c03ae2b638ecedfdbc651dc35ae29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 23/67] fix: do not center displacements passed by caller in
 place

---
 elphmod/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 5697d9b..054ec8b 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -253,7 +253,7 @@ class Driver:
             t0 = time.time()
 
         if u is not None:
-            self.u = u
+            self.u = np.array(u)
 
         self.diagonalize()
 
-- 
2.43.0


From 3c1f2b1975b2cd96d054160bf227e228ce495c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 24/67] fix: provide scattering with custom data type without
 MPI

---
 elphmod/MPI.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index e81ea3b..9782539 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -66,6 +66,9 @@ except ImportError:
 
         @staticmethod
         def Scatterv(send, recv):
+            if isinstance(recv, (list, tuple)):
+                recv = recv[0]
+
             recv[...] = send[0].reshape(recv.shape)
 
         def Split(self, color, key=None):
@@ -74,9 +77,20 @@ except ImportError:
         def Split_type(self, color, key=None):
             return self
 
+    class Datatype:
+        def Create_contiguous(self, count):
+            return self
+
+        def Commit(self):
+            return self
+
+        def Free(self):
+            pass
+
     class Interface:
         def __init__(self):
             self.COMM_WORLD = Communicator()
+            self.UNSIGNED_CHAR = Datatype()
             self.UNDEFINED = 0
             self.COMM_TYPE_SHARED = self.UNDEFINED
             self.IN_PLACE = 1
-- 
2.43.0


From 060a77f95e608ef97bbe5ad1bcb35668a155a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 25/67] fix: calculate Fermi-surface average of coupling also
 for dense driver

---
 elphmod/md.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 054ec8b..ed6f928 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -416,6 +416,18 @@ class Driver:
             C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(self.e,
                 self.d[0], kT=self.kT, occupations=self.f)
 
+            if kT is not None:
+                g2dd = np.empty((nq, self.elph.ph.size, self.elph.ph.size),
+                    dtype=complex)
+
+                for x in range(self.elph.ph.size):
+                    g2dd[:, x], dd = (
+                        elphmod.diagrams.double_fermi_surface_average(
+                            self.q[:nq], self.e, self.d[:nq, x,
+                            np.newaxis].conj() * self.d[:nq], kT, self.f))
+
+                g2dd /= dd.sum()
+
         C += self.C0[:nq]
 
         if apply_asr_simple:
-- 
2.43.0


From c3356efa28ac0fd90e59156ce746620695bd62fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 26/67] fix: use defined module name when interpolating
 dynamical matrices

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 966578f..77d621b 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -2068,7 +2068,7 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
             D[:, group(na), :] *= np.sqrt(amass[na])
             D[:, :, group(na)] *= np.sqrt(amass[na])
 
-    sizes, bounds = MPI.distribute(len(q), bounds=True)
+    sizes, bounds = elphmod.MPI.distribute(len(q), bounds=True)
 
     for iq in range(*bounds[comm.rank:comm.rank + 2]):
         fildynq = fildyn + str(iq + 1)
-- 
2.43.0


From 5ae7f21258b711521ba2f4b72dcb35feca855d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 27/67] fix: do not rely on truth value of XML element

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 77d621b..52bd8cf 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1560,7 +1560,7 @@ def read_flfrc_xml(flfrc):
 
                     D[iq, group(na1), group(na2)] = tmp
 
-    return [phid if ifc else (q, D),
+    return [phid if ifc is not None else (q, D),
         amass, at, tau, atom_order, alph, epsil, zeu]
 
 def read_quadrupole_fmt(quadrupole_fmt):
-- 
2.43.0


From 38df2699c855b1e90da906b95f445b518befcf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 28/67] fix: accept function arguments in misc.minimum

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 7b80e9b..89105da 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -775,7 +775,7 @@ def minimum(*args):
     """
     if len(args) == 6:
         x1, x2, x3, y1, y2, y3 = args
-    if len(sys.argv) == 7:
+    elif len(sys.argv) == 7:
         x1, x2, x3, y1, y2, y3 = list(map(float, sys.argv[1:]))
     else:
         raise SystemExit('Usage: minimum x1 x2 x3 y1 y2 y3')
-- 
2.43.0


From ac9e4910a4f4f23001afd08a3e7932d87b3ee095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 29/67] fix: terminate loop when renormalizing coupling with
 orbital-resolved interaction

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 2a3e7af..1700a51 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -822,7 +822,7 @@ def renormalize_coupling_orbital(q, e, g, W, U, **kwargs):
 
     g = g.copy()
 
-    while dg.ndim < g.ndim - 1 if dd else g.ndim:
+    while dg.ndim < (g.ndim - 1 if dd else g.ndim):
         dg = dg[:, :, np.newaxis]
 
     if dd:
-- 
2.43.0


From 5ca5f6b3bf6e47beab2d46236d12ecf65d9b4336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 30/67] fix: fold q points onto mesh when completing dynamical
 matrices

---
 elphmod/ph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 52bd8cf..419848e 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1926,8 +1926,8 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
                         D[group(n), :] *= phase[n].conj()
                         D[:, group(n)] *= phase[n]
 
-                    Q1 = int(round(np.dot(q, a1) * scale))
-                    Q2 = int(round(np.dot(q, a2) * scale))
+                    Q1 = int(round(np.dot(q, a1) * scale)) % nq
+                    Q2 = int(round(np.dot(q, a2) * scale)) % nq
 
                     D_full[+Q1, +Q2] = D
                     D_full[-Q1, -Q2] = D.conj()
-- 
2.43.0


From 498f473ec03bd9d11fb232ecccab360dca36a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 31/67] fix: unit-cell Hamiltonian keeps unit and degeneracy
 settings

---
 elphmod/el.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/el.py b/elphmod/el.py
index 32e098c..78dec0d 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -415,6 +415,9 @@ class Model:
         el = Model()
         el.size = self.size // len(self.cells)
 
+        el.divide_ndegen = self.divide_ndegen
+        el.rydberg = self.rydberg
+
         if comm.rank == 0:
             const = dict()
 
-- 
2.43.0


From 62e675adf2133362fc2b0af308365cc97f43e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 32/67] fix: define k mesh of supercell and unit-cell
 Hamiltonians

---
 elphmod/el.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/el.py b/elphmod/el.py
index 78dec0d..2070445 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -171,6 +171,7 @@ class Model:
         self.rydberg = rydberg
 
         self.cells = [(0, 0, 0)]
+        self.nk = None
 
         if seedname is None:
             return
-- 
2.43.0


From 41b4c1a74efc51d061976e3acdb58ab917532934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 33/67] fix: store supercell vectors of interaction models

---
 elphmod/elel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index 9425112..3d9fee5 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -165,6 +165,7 @@ class Model:
         elel = Model()
 
         supercell = elphmod.bravais.supercell(N1, N2, N3)
+        elel.N = list(map(tuple, supercell[1]))
         elel.cells = supercell[-1]
 
         elel.size = len(elel.cells) * self.size
-- 
2.43.0


From 71d29da8bfaa5b0e41ce96033b051bdd3898b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 34/67] fix: unit cell of left-handed supercells is not
 inverted

---
 elphmod/ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 419848e..97dd9a9 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -698,7 +698,8 @@ class Model:
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
-        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / len(self.cells)
+        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a)
+        ph.a /= np.dot(self.N[0], B1) # negative for left-handed supercells
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
-- 
2.43.0


From e085bdc171d5285ff560e6432a53ff9741765210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 35/67] fix: bond lengths follow lattice vectors and atoms of
 mass-spring model

---
 elphmod/ph.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 97dd9a9..c8f08aa 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -199,6 +199,16 @@ class Model:
         else:
             return self.data[index]
 
+    @property
+    def l(self):
+        """Calculate bond lengths for current lattice vectors and atoms."""
+
+        bonds = self.R.dot(self.a)[:, np.newaxis, np.newaxis, :]
+        bonds = bonds + self.r[np.newaxis, np.newaxis, :, :]
+        bonds = bonds - self.r[np.newaxis, :, np.newaxis, :]
+
+        return np.linalg.norm(bonds, axis=3)
+
     def __init__(self, flfrc=None, quadrupole_fmt=None, apply_asr=False,
         apply_asr_simple=False, apply_zasr=False, apply_rsr=False, lr=True,
         lr2d=None, amass=None, at=None, tau=None, atom_order=None, alph=None,
@@ -312,8 +322,8 @@ class Model:
             self.prepare_long_range()
 
         if phid is not None:
-            self.R, self.data, self.l = elphmod.bravais.short_range_model(
-                phid, self.a, self.r, sgn=-1, divide_ndegen=divide_ndegen)
+            self.R, self.data = elphmod.bravais.short_range_model(
+                phid, self.a, self.r, sgn=-1, divide_ndegen=divide_ndegen)[:2]
 
             if divide_mass:
                 divide_by_mass(self.data, self.M)
@@ -1968,8 +1978,8 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
 
         info('Sum of force constants: %g Ry/bohr^2 (L = %g bohr)' % (S, ph.L))
 
-    ph.R, ph.data, ph.l = elphmod.bravais.short_range_model(phid, ph.a, ph.r,
-        sgn=-1, divide_ndegen=ph.divide_ndegen)
+    ph.R, ph.data = elphmod.bravais.short_range_model(phid, ph.a, ph.r,
+        sgn=-1, divide_ndegen=ph.divide_ndegen)[:2]
 
     if ph.divide_mass:
         divide_by_mass(ph.data, ph.M)
-- 
2.43.0


From 5b753e11bb76de7b27b77a2f46d1c5faba2b6a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 36/67] fix: original dynamical matrices follow reordered and
 shifted atoms

---
 elphmod/ph.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index c8f08aa..5ab3e68 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -794,6 +794,11 @@ class Model:
 
         self.data = self.data.reshape((len(self.R), self.size, self.size))
 
+        if self.D0 is not None:
+            xyz = [3 * na + x for na in order for x in range(3)]
+
+            self.D0 = self.D0[..., xyz, :][..., xyz]
+
         self.M = np.array([self.M[na] for na in order])
         self.atom_order = [self.atom_order[na] for na in order]
         self.r = np.array([self.r[na] for na in order])
@@ -849,6 +854,16 @@ class Model:
 
         self.standardize()
 
+        if self.D0 is not None:
+            phase = np.ones((len(self.q0), self.nat, 3), dtype=complex)
+            phase[:, s, :] = np.exp(-1j
+                * np.dot(self.q0, S))[:, np.newaxis, np.newaxis]
+            phase = phase.reshape((len(self.q0), self.size))
+
+            self.D0 = (phase.conj()[:, :, np.newaxis] * self.D0
+                * phase[:, np.newaxis, :])
+
+        self.r = np.array(self.r)
         self.r[s] += np.dot(S, self.a)
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From 72ccc312941cf78d6db86862c253b9dac263c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 37/67] fix: acoustic sum rule discards coupling cached for
 last q point

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 3d296aa..bf01041 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -684,6 +684,8 @@ class Model:
         report : bool
             Print sums before and after correction?
         """
+        self.q = None
+
         if comm.rank == 0:
             shape = self.data.shape
 
-- 
2.43.0


From 927fb431aaff805d753a53efe8cfdb14d31f8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 38/67] fix: replacing real-space coupling discards coupling
 cached for last q point

---
 elphmod/elph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index bf01041..885f36d 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1095,6 +1095,12 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
     if elph.node.rank == 0:
         elph.images.Bcast(elph.data.view(dtype=float))
 
+    elph.q = None
+    elph.gq = np.empty((elph.ph.size, len(elph.Rk),
+        elph.el.size, elph.el.size), dtype=complex)
+
+    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
+
     comm.Barrier()
 
 def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
-- 
2.43.0


From b96de580023d52d2c335f4837ce11dc4f778a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 39/67] fix: clearing coupling discards everything derived from
 it

---
 elphmod/elph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 885f36d..0982a68 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -762,7 +762,12 @@ class Model:
         self.Rg = np.zeros_like(self.Rg[:0, :])
 
         self.data = np.zeros_like(self.data[:0, :, :0, :, :])
+
+        self.dk = None
+        self.dg = None
+        self.q = None
         self.gq = np.zeros_like(self.gq[:, :0, :, :])
+        self.Rk0 = None
 
     def to_epmatwp(self, prefix):
         """Save coupling to *.epmatwp* and *.wigner* files.
-- 
2.43.0


From fba2a054c47302e2398b332d5d21e03137b7ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 40/67] fix: define degeneracies of supercell coupling

---
 elphmod/elph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0982a68..c7d0c86 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -522,6 +522,9 @@ class Model:
 
         elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
 
+        elph.dk = None
+        elph.dg = None
+
         if elph.node.rank == 0:
             elph.data[...] = 0.0
 
-- 
2.43.0


From faf0d5b9cdd2c946845c8866311c0559f2581073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 41/67] fix: coupling models without data file can be evaluated

---
 elphmod/elph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index c7d0c86..f4e08a9 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -257,6 +257,11 @@ class Model:
         self.node, self.images, self.data = elphmod.MPI.shared_array(shape,
             dtype=complex, shared_memory=shared_memory)
 
+        self.gq = np.empty((ph.size, len(self.Rk), el.size, el.size),
+            dtype=complex)
+
+        self.Rk0 = elphmod.misc.vector_index(self.Rk, (0, 0, 0))
+
         if epmatwp is None:
             return
 
@@ -302,11 +307,6 @@ class Model:
 
         comm.Barrier()
 
-        self.gq = np.empty((ph.size, len(self.Rk), el.size, el.size),
-            dtype=complex)
-
-        self.Rk0 = elphmod.misc.vector_index(self.Rk, (0, 0, 0))
-
     def divide_degeneracy(self, g):
         """Divide real-space coupling by degeneracy of Wigner-Seitz point.
 
-- 
2.43.0


From 30a437dc9870ee20d746de28c18132bb50eaecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 42/67] fix: coupling model remembers mass setting taken over
 from phonons

---
 elphmod/elph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index f4e08a9..2371da0 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -265,6 +265,11 @@ class Model:
         if epmatwp is None:
             return
 
+        if self.ph.lr and self.ph.divide_mass != self.divide_mass:
+            info("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
+            info("The value from 'ph' (%r) is used." % self.ph.divide_mass)
+            self.divide_mass = self.ph.divide_mass
+
         if comm.rank == 0:
             with open(epmatwp, 'rb') as data:
                 status = elphmod.misc.StatusBar((self.data.nbytes > 1e9)
@@ -293,12 +298,7 @@ class Model:
 
             # divide by square root of atomic masses:
 
-            if self.ph.lr and self.ph.divide_mass != divide_mass:
-                print("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
-                print("The value from 'ph' (%r) is used." % self.ph.divide_mass)
-                divide_mass = self.ph.divide_mass
-
-            if divide_mass:
+            if self.divide_mass:
                 for x in range(ph.size):
                     self.data[:, x] /= np.sqrt(ph.M[x // 3])
 
-- 
2.43.0


From 722991dcb760eafdb159dea84cf4ba96a2c1d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:50 +0000
Subject: [PATCH 43/67] fix: copied coupling models do not share cached
 coupling

---
 elphmod/elph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 2371da0..4fbe0ae 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -140,6 +140,7 @@ class Model:
             # 1223  epmatwp(:, :, :, :, ir) = epmatwp(:, :, :, :, ir)
             #           + cfac * epmatwe(:, :, :, :, iq)
 
+            self.gq = np.empty_like(self.gq) # may be shared with copied model
             comm.Allreduce(my_g, self.gq)
 
             if self.ph.lr:
-- 
2.43.0


From c9e0d744458e88e23d9b0a77084e10b9c67b6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 44/67] fix: count long-range force constants of MD driver only
 once

---
 elphmod/md.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index ed6f928..456b134 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -163,7 +163,13 @@ class Driver:
             if unscreen:
                 self.elph.ph = copy.copy(self.elph.ph)
 
-                elphmod.ph.q2r(self.elph.ph, nq=self.nq, D_full=self.C0,
+                C0 = self.C0
+
+                if self.elph.ph.lr: # added again later
+                    C0 = C0 - elphmod.dispersion.sample(self.elph.ph.D_lr,
+                        self.q)
+
+                elphmod.ph.q2r(self.elph.ph, nq=self.nq, D_full=C0,
                     divide_mass=False)
 
             elph = self.elph.supercell(*supercell, sparse=True)
@@ -516,11 +522,21 @@ class Driver:
             Mass-spring model for the phonons.
         """
         ph = copy.deepcopy(self.elph.ph)
-        ph.divide_mass = divide_mass
         ph.r += self.u.reshape((-1, 3))
 
-        elphmod.ph.q2r(ph, D_full=self.hessian(gamma_only=False), nq=self.nq,
-            divide_mass=False, **kwargs)
+        C = self.hessian(gamma_only=False)
+
+        if ph.lr: # added again later
+            ph.prepare_long_range()
+
+            C = C - elphmod.dispersion.sample(ph.D_lr, self.q)
+
+        ph.divide_mass = divide_mass
+
+        if ph.lr:
+            ph.prepare_long_range()
+
+        elphmod.ph.q2r(ph, D_full=C, nq=self.nq, divide_mass=False, **kwargs)
 
         return ph
 
-- 
2.43.0


From 5c8da73e8cb9532d3a7c920589d1250717525f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:42 +0000
Subject: [PATCH 45/67] fix: do not keep dynamical matrices of unperturbed
 structure in MD phonons

---
 elphmod/md.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 456b134..0367128 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -532,6 +532,7 @@ class Driver:
             C = C - elphmod.dispersion.sample(ph.D_lr, self.q)
 
         ph.divide_mass = divide_mass
+        ph.q0 = ph.D0 = None # belong to unperturbed structure
 
         if ph.lr:
             ph.prepare_long_range()
-- 
2.43.0


From d07f4154bc5aa950298057918ac28b888c0c0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:38 +0000
Subject: [PATCH 46/67] fix: read Born effective charges back from written
 dynamical matrices

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 5ab3e68..277e51c 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1428,7 +1428,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
                 data.write('\n')
 
             if dyn:
-                data.write('\n     Effective charges\n')
+                data.write('\n     Effective Charges E-U: Z_{alpha}{s,beta}\n')
 
             for na in range(len(zeu)):
                 if dyn:
-- 
2.43.0


From 60eddc6149810d012242a53fcf168429de4c4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:38 +0000
Subject: [PATCH 47/67] fix: keep all three letters of atomic species in
 force-constants files

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 277e51c..724a527 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1197,7 +1197,7 @@ def read_flfrc(flfrc):
         for nt in range(ntyp):
             tmp = cells()
 
-            atm.append(tmp[1][1:3])
+            atm.append(tmp[1].strip("'"))
             amass[nt] = float(tmp[-1])
 
         # read types and positions of individual atoms:
-- 
2.43.0


From e37aa95fc022c56b0c56eb972040973703dd2b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:38 +0000
Subject: [PATCH 48/67] fix: write data grid of XSF file with first index
 running fastest

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 89105da..1d9a043 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -464,7 +464,7 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
                 text.write('%12.7f %11.7f %11.7f\n' % tuple(a[i]))
 
             if not only_header:
-                for i, value in enumerate(data.flat, 1):
+                for i, value in enumerate(data.T.flat, 1):
                     text.write('%13.5e' % value)
 
                     if not i % 6 or i == data.size:
-- 
2.43.0


From 4847cd8437d197f03f5326b5cd8472cc930d47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:38 +0000
Subject: [PATCH 49/67] fix: write single-band coupling for all k points to XML
 files

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 4fbe0ae..0a258a1 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1532,7 +1532,7 @@ def write_xml_files(filename, data, angle=120, angle0=0):
         return
 
     if data.ndim == 4:
-        data = data[:, :, np.newaxis, np.newaxis, :, :]
+        data = data[:, :, :, :, np.newaxis, np.newaxis]
 
     nQ, nmodes, nk, nk, nbands, nbands = data.shape
 
-- 
2.43.0


From 954c3650c6006064fb16b303213a774ba4f0ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:38 +0000
Subject: [PATCH 50/67] fix: write Wannier90 settings such that they are read
 back

---
 elphmod/bravais.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index d408b7d..fa7fe32 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2177,7 +2177,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        for key in ['write_hr', 'bands_plot']:
+        for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
                 data.write('%s = %r\n' % (key, struct[key]))
 
@@ -2212,7 +2212,7 @@ def write_win(win, struct):
         data.write('\n')
 
         if 'mp_grid' in struct:
-            data.write('mp_grid: %d %d %d\n' % tuple(struct['mp_grid']))
+            data.write('mp_grid = %d %d %d\n' % tuple(struct['mp_grid']))
 
         data.write('\n')
 
-- 
2.43.0


From ba6b06df1e0853b4fd92b0bccb3941743100d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:38 +0000
Subject: [PATCH 51/67] fix: write Wannier90 input without optional blocks

---
 elphmod/bravais.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index fa7fe32..89e0948 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2169,7 +2169,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['proj']:
+        if struct.get('proj'):
             data.write('begin projections\n')
             for key, value in struct['proj'].items():
                 data.write('%s: %s\n' % (key, value))
@@ -2189,7 +2189,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['kpoint_path']:
+        if struct.get('kpoint_path'):
             data.write('begin kpoint_path\n')
             for line in struct['kpoint_path']:
                 data.write('%s\n' % line)
-- 
2.43.0


From 1441e2843381cfd747b8db7055de7370c5d4f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:38 +0000
Subject: [PATCH 52/67] fix: save MD driver with sparse matrices

---
 elphmod/md.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 0367128..6e0cb6e 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -864,10 +864,8 @@ class Driver:
         interactive = self.interactive
         self.interactive = False
 
-        comms = self.node, self.images
-
-        del self.node
-        del self.images
+        comms = {name: self.__dict__.pop(name)
+            for name in ('node', 'images') if name in self.__dict__}
 
         if not self.sparse:
             elph_comms = self.elph.node, self.elph.images
@@ -879,7 +877,7 @@ class Driver:
 
         self.interactive = interactive
 
-        self.node, self.images = comms
+        self.__dict__.update(comms)
 
         if not self.sparse:
             self.elph.node, self.elph.images = elph_comms
-- 
2.43.0


From 9fe43c465bcf18cd090f09bd1f437ee0a951b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:04 +0000
Subject: [PATCH 53/67] fix: write NumPy scalars and lists as valid input
 parameters

---
 elphmod/bravais.py | 78 ++++++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 89e0948..1867220 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1896,6 +1896,30 @@ def read_pwi(pwi):
 
     return struct
 
+def assignment(key, value):
+    """Format setting for Fortran namelist or Wannier90 input file.
+
+    Parameters
+    ----------
+    key : str
+        Name of parameter.
+    value : object
+        Scalar or list of values, where ``None`` is skipped.
+
+    Returns
+    -------
+    str
+        Line(s) of input file.
+    """
+    if isinstance(value, (list, tuple, np.ndarray)):
+        return ''.join(assignment('%s(%d)' % (key, n), item)
+            for n, item in enumerate(value, 1) if item is not None)
+
+    if isinstance(value, np.generic):
+        value = value.item()
+
+    return '%s = %r\n' % (key, value)
+
 def write_pwi(pwi, struct):
     """Write crystal structure to PWscf input file.
 
@@ -1915,7 +1939,7 @@ def write_pwi(pwi, struct):
         for key in ['title', 'prefix', 'outdir', 'pseudo_dir', 'calculation',
                 'tprnfor', 'tstress', 'nstep', 'forc_conv_thr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('/\n')
 
@@ -1924,7 +1948,7 @@ def write_pwi(pwi, struct):
         if 'celldm' in struct:
             for i, celldm in enumerate(struct['celldm'], 1):
                 if celldm:
-                    data.write('celldm(%d) = %r\n' % (i, celldm))
+                    data.write(assignment('celldm(%d)' % i, celldm))
 
         for key in ['ibrav', 'ntyp', 'nat', 'a', 'b', 'c', 'cosbc', 'cosac',
                 'cosab', 'ecutwfc', 'ecutrho', 'nbnd', 'occupations',
@@ -1933,7 +1957,7 @@ def write_pwi(pwi, struct):
                 'tot_magnetization', 'starting_magnetization', 'space_group',
                 'uniqueb', 'origin_choice', 'rhombohedral']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('/\n')
 
@@ -1943,7 +1967,7 @@ def write_pwi(pwi, struct):
                 'diago_full_acc', 'mixing_beta', 'startingpot', 'startingwfc',
                 'scf_must_converge']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('/\n')
 
@@ -1952,7 +1976,7 @@ def write_pwi(pwi, struct):
 
             for key in ['ion_dynamics', 'upscale']:
                 if key in struct:
-                    data.write('%s = %r\n' % (key, struct[key]))
+                    data.write(assignment(key, struct[key]))
 
             data.write('/\n')
 
@@ -1962,7 +1986,7 @@ def write_pwi(pwi, struct):
                 for key in ['cell_dynamics', 'cell_dofree', 'press',
                         'press_conv_thr']:
                     if key in struct:
-                        data.write('%s = %r\n' % (key, struct[key]))
+                        data.write(assignment(key, struct[key]))
 
                 data.write('/\n')
 
@@ -2158,14 +2182,14 @@ def write_win(win, struct):
     with open(win, 'w') as data:
         for key in ['num_bands', 'num_wann']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
@@ -2179,13 +2203,13 @@ def write_win(win, struct):
 
         for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['dis_num_iter', 'num_iter', 'search_shells']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
@@ -2254,26 +2278,26 @@ def write_ph(ph, struct):
 
         for key in ['prefix', 'outdir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['fildyn', 'fildvscf']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['ldisp', 'nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['tr2_ph', 'alpha_mix', 'cdfpt', 'subspace',
                 'cdfpt_bnd', 'cdfpt_orb']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('/\n')
 
@@ -2310,7 +2334,7 @@ def write_q2r(q2r, struct):
 
         for key in ['fildyn', 'flfrc', 'zasr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('/\n')
 
@@ -2370,7 +2394,7 @@ def write_matdyn(matdyn, struct):
         for key in ['flfrc', 'flfrq', 'fldos', 'fleig', 'flvec', 'asr',
                 'loto_2d', 'q_in_band_form', 'q_in_cryst_coord']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('/\n')
         data.write('%d\n' % struct['nq'])
@@ -2439,38 +2463,38 @@ def write_epw(epw, struct):
 
         for key in ['prefix', 'outdir', 'dvscf_dir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['wannierize', 'elph']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['epbwrite', 'epwwrite']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['epbread', 'epwread']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['use_ws', 'nbndsub', 'bands_skipped']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
@@ -2483,7 +2507,7 @@ def write_epw(epw, struct):
 
         for key in ['num_iter']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         if 'wdata' in struct:
             for n, value in enumerate(struct['wdata'], 1):
@@ -2494,25 +2518,25 @@ def write_epw(epw, struct):
 
         for key in ['nk1', 'nk2', 'nk3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['nkf1', 'nkf2', 'nkf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('\n')
 
         for key in ['nqf1', 'nqf2', 'nqf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(assignment(key, struct[key]))
 
         data.write('/')
         data.write('\n')
-- 
2.43.0


From c02406b35d6b586dc5400e1c026af6ecd24e96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:38 +0000
Subject: [PATCH 54/67] fix: read matdyn input with slashes in paths

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 1867220..5e5e140 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2356,7 +2356,7 @@ def read_matdyn(filename):
     if comm.rank == 0:
         with open(filename) as lines:
             for line in lines:
-                if '/' in line:
+                if line.rstrip().endswith('/'):
                     for line in lines:
                         words = line.split()
                         if words:
-- 
2.43.0


From eb607783959af22f1c920fe6309ca8c50c2aab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:31 +0000
Subject: [PATCH 55/67] fix: delta function of Fermi-Dirac for complex
 arguments with negative real part

---
 elphmod/occupations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index 85aa34f..cf66196 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -36,7 +36,7 @@ def fermi_dirac_delta(x):
     """Calculate negative derivative of Fermi function."""
 
     x = np.array(x)
-    x.real = np.minimum(abs(x.real), xmax)
+    x.real = np.sign(x.real) * np.minimum(abs(x.real), xmax)
 
     return 1 / (2 * np.cosh(x) + 2)
 
-- 
2.43.0


From f12c426c62cedbf972894d926d95d8de72e090b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:14 +0000
Subject: [PATCH 56/67] fix: acoustic sum rule of coupling divided by square
 root of masses

---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0a258a1..56a75df 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -691,6 +691,10 @@ class Model:
         self.q = None
 
         if comm.rank == 0:
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] *= np.sqrt(self.ph.M[x // 3])
+
             shape = self.data.shape
 
             self.data = self.data.reshape((len(self.Rg) * self.ph.nat, -1))
@@ -713,6 +717,10 @@ class Model:
 
             self.data = self.data.reshape(shape)
 
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] /= np.sqrt(self.ph.M[x // 3])
+
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
-- 
2.43.0


From ccc2bfc0af7c3f73f9bb4d95457e35151d859576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:32 +0000
Subject: [PATCH 57/67] fix: mapping back to unit cell if first cell of
 supercell is not the origin

---
 elphmod/el.py |  6 +++++-
 elphmod/ph.py | 19 +++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 2070445..67d9ceb 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -416,6 +416,8 @@ class Model:
         el = Model()
         el.size = self.size // len(self.cells)
 
+        A = self.cells.index((0, 0, 0)) * el.size # first cell may not be origin
+
         el.divide_ndegen = self.divide_ndegen
         el.rydberg = self.rydberg
 
@@ -427,7 +429,9 @@ class Model:
 
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    t = self.data[n, :el.size, i * el.size:(i + 1) * el.size]
+                    B = i * el.size
+
+                    t = self.data[n, A:A + el.size, B:B + el.size]
 
                     if np.any(t != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 724a527..2f48efc 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -701,9 +701,14 @@ class Model:
         ph = Model()
         ph.size = self.size // len(self.cells)
         ph.nat = self.nat // len(self.cells)
-        ph.M = self.M[:ph.nat]
-        ph.atom_order = self.atom_order[:ph.nat]
-        ph.r = self.r[:ph.nat]
+
+        i0 = self.cells.index((0, 0, 0)) # first cell may not be origin
+        basis = slice(i0 * ph.nat, (i0 + 1) * ph.nat)
+        X = i0 * ph.size
+
+        ph.M = self.M[basis]
+        ph.atom_order = self.atom_order[basis]
+        ph.r = self.r[basis]
 
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
@@ -729,12 +734,12 @@ class Model:
         if self.Z is None:
             ph.Z = None
         else:
-            ph.Z = self.Z[:ph.nat]
+            ph.Z = self.Z[basis]
 
         if self.Q is None:
             ph.Q = None
         else:
-            ph.Q = self.Q[:ph.nat]
+            ph.Q = self.Q[basis]
 
         if self.lr:
             ph.prepare_long_range()
@@ -747,7 +752,9 @@ class Model:
 
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    C = self.data[n, :ph.size, i * ph.size:(i + 1) * ph.size]
+                    Y = i * ph.size
+
+                    C = self.data[n, X:X + ph.size, Y:Y + ph.size]
 
                     if np.any(C != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-- 
2.43.0


From fd3712523062f0e5cf7a17b6e39f659349ead89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:57 +0000
Subject: [PATCH 58/67] fix: Born-Huang rotation sum rule must rotate displaced
 atom

---
 elphmod/ph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 2f48efc..8cb21ef 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1740,9 +1740,9 @@ def sum_rule_correction(ph, asr=True, rsr=True, eps=1e-15, report=True):
                         S = 0.0
                         for n in range(len(R)):
                             for l in range(ph.nat):
-                                S += (C[n, k, x1, l, y]
+                                S += (C[n, k, y, l, x1]
                                     * (R[n, x2] + ph.r[l, x2]))
-                                S -= (C[n, k, x2, l, y]
+                                S -= (C[n, k, y, l, x2]
                                     * (R[n, x1] + ph.r[l, x1]))
                         zero += abs(S)
         return zero
@@ -1784,8 +1784,8 @@ def sum_rule_correction(ph, asr=True, rsr=True, eps=1e-15, report=True):
                         c.append(np.zeros_like(C))
                         for n in range(len(R)):
                             for l in range(ph.nat):
-                                c[-1][n, k, x1, l, y] += R[n, x2] + ph.r[l, x2]
-                                c[-1][n, k, x2, l, y] -= R[n, x1] + ph.r[l, x1]
+                                c[-1][n, k, y, l, x1] += R[n, x2] + ph.r[l, x2]
+                                c[-1][n, k, y, l, x2] -= R[n, x1] + ph.r[l, x1]
 
     # symmetrize constraints (the force constants must be symmetric):
 
-- 
2.43.0


From f0885706a9656e39d584678dcf857cabc64f1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:13 +0000
Subject: [PATCH 59/67] fix: grand potential of states far below the Fermi
 level

The Fermi function is limited to 1 / (1 + exp(709)) to avoid an overflow.
Hence, the logarithm saturated for energies below -709 kT.
---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 1700a51..afd05ff 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -1086,7 +1086,7 @@ def grand_potential(e, kT=0.025, occupations='fd'):
     prefactor = 2 * kT / np.prod(e.shape[:-1])
 
     if occupations is elphmod.occupations.fermi_dirac: # faster alternative
-        return prefactor * np.log(occupations(-x)).sum()
+        return -prefactor * np.logaddexp(0, -x).sum()
 
     return prefactor * ((occupations(x) * x).sum()
         - occupations.entropy(x).sum()) # U - T S - mu N (where mu = 0)
-- 
2.43.0


From 15013a1f5166432ddef22eac3de1359bf873a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:13 +0000
Subject: [PATCH 60/67] fix: phonon_self_energy2 for list of q points as
 documented

---
 elphmod/diagrams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index afd05ff..73ef1da 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -593,8 +593,8 @@ def phonon_self_energy2(q, e, g2, kT=0.025, nmats=1000, hyb_width=1.0,
     my_Pi = np.empty((sizes[comm.rank], nmodes), dtype=complex)
 
     for my_iq, iq in enumerate(range(*bounds[comm.rank:comm.rank + 2])):
-        q1 = int(round(q[iq, 0] * scale)) % nk
-        q2 = int(round(q[iq, 1] * scale)) % nk
+        q1 = int(round(q[iq][0] * scale)) % nk
+        q2 = int(round(q[iq][1] * scale)) % nk
 
         Gk = G[:, :nk, :nk]
         Gkq = G[:, q1:q1 + nk, q2:q2 + nk]
-- 
2.43.0


From 4365bbd5331fa0326636f466c725a008123416d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 61/67] fix: isoline that coincides with edge of triangle

The two end points were added separately, one of them as an array, which
raised a TypeError (unhashable type).
---
 elphmod/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 431dc7d..5d5bf68 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -349,7 +349,7 @@ def isoline(energies):
 
             elif B <= E < C:
                 if E == A == B:
-                    my_points.extend((tuple(i), (j)))
+                    my_points.append((tuple(i), tuple(j)))
                 else:
                     alpha = (E - B) / (C - B)
                     beta = (E - A) / (C - A)
-- 
2.43.0


From 50beef231767df32e6ad96d6d3f0fb0197eaf36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 62/67] fix: double-delta integral counts points on boundary of
 mesh twice

Intersection points at fractional indices 0 and N are equivalent but were
not recognized as the same point.
---
 elphmod/dos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 5d5bf68..7655877 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -275,6 +275,8 @@ def double_delta(x, y, f=None, eps=1e-7):
         unique = dict()
 
         if comm.rank == 0:
+            D[D > N - eps] -= N # these points are equivalent to those at zero
+
             for group in elphmod.misc.group(D, eps=eps):
                 d = np.average(D[group], axis=0)
                 w = np.average(W[group], axis=0)
-- 
2.43.0


From cb6e31fea03dfef400db478bcead187892d9824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 63/67] fix: Fourier interpolation of small data

Coefficients below 1e-6 were discarded irrespective of the magnitude of the
data. For example, the interpolant of data of the order of 1e-7 was zero.
---
 elphmod/bravais.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 5e5e140..8cc45d6 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1443,6 +1443,8 @@ def Fourier_interpolation(data, angle=60, sign=-1, function=True):
 
     data = np.einsum('ni,ij...,jm->nm...', transform, data, transform)
 
+    eps = 1e-10 * abs(data).max() # negligible coefficient
+
     # construct smooth inverse transform (formally tight-binding model):
 
     values = np.empty((N * N * 4, *data.shape[2:]), dtype=complex)
@@ -1452,7 +1454,7 @@ def Fourier_interpolation(data, angle=60, sign=-1, function=True):
     count = 0
     for n in range(N):
         for m in range(N):
-            if np.all(abs(data[n, m]) < 1e-6):
+            if np.all(abs(data[n, m]) <= eps):
                 continue
 
             images = to_Voronoi(n, m, N, angle=180 - angle)
-- 
2.43.0


From 4cbc697135910ecc5292961d2b1d84a0c34a2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 64/67] fix: resize truncates interpolated values of integer
 data

---
 elphmod/bravais.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 8cc45d6..3620c62 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -978,8 +978,10 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
     size = np.prod(shape)
     sizes, bounds = elphmod.MPI.distribute(size, bounds=True)
 
+    dtype = np.result_type(data.dtype, float) # interpolation of integers
+
     my_new_data = np.empty((sizes[comm.rank], *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     if periodic:
         scale = np.divide(data.shape[:len(shape)], shape)
@@ -993,7 +995,7 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         my_new_data[n] = interpolant(*np.multiply(m, scale))
 
     new_data = np.empty((*shape, *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     comm.Allgatherv(my_new_data,
         (new_data, sizes * np.prod(data.shape[len(shape):], dtype=int)))
-- 
2.43.0


From bcbf064f5306f5e1e8a8430972f679c49903446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:06 +0000
Subject: [PATCH 65/67] fix: outline of square Brillouin zone is twice as large

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 3620c62..38094e6 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1789,7 +1789,7 @@ def BZ(angle=120, angle0=0):
 
     elif angle == 90:
         M = [(1, 1), (-1, 1), (-1, -1), (1, -1), (1, 1)]
-        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M])
+        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M]) / 2
 
     elif angle == 120:
         K = [(1, 1), (-1, 2), (-2, 1), (-1, -1), (1, -2), (2, -1), (1, 1)]
-- 
2.43.0


From ff7ae59785421abc2a33352e1ace69ac83888fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:06 +0000
Subject: [PATCH 66/67] fix: point_on_path ignores third dimension of path

---
 elphmod/bravais.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 38094e6..c4892fd 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2607,8 +2607,7 @@ def point_on_path(test_point, point_A, point_B, eps=1e-14):
         dot = np.dot(point_B - point_A, test_point - point_A)
 
         if dot >= 0:
-            squared_distance = (
-                (point_B - point_A)[0] ** 2 + (point_B - point_A)[1] ** 2)
+            squared_distance = np.dot(point_B - point_A, point_B - point_A)
 
             if dot <= squared_distance:
                 #'The test point is between A and B'
-- 
2.43.0


From 5f386007aa3e2eacc55569164b4c4ccb100cf2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:06 +0000
Subject: [PATCH 67/67] fix: toBZ cuts off corners of rotated square Brillouin
 zone

---
 elphmod/plot.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 87c4983..ddfb266 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -250,8 +250,13 @@ def toBZ(data=None, points=1000,
         b3 = b1 - b2
         M = 2 / 3
 
-    kxmax = max(abs(a1[0]), abs(a2[0]), abs(a3[0])) * M
-    kymax = max(abs(a1[1]), abs(a2[1]), abs(a3[1])) * M
+    if angle == 90:
+        corners = a1 + a2, a1 - a2
+    else:
+        corners = a1, a2, a3
+
+    kxmax = max(abs(k[0]) for k in corners) * M
+    kymax = max(abs(k[1]) for k in corners) * M
 
     nkx = int(round(points * kxmax))
     nky = int(round(points * kymax))
-- 
2.43.0

