From b4c6ee87b9701b68c85a20f846f4ec474c53d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 01/55] fix: declare mass, bias force and bias virial as
 dependencies of the barostat stress

---
 ipi/engine/barostats.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 328db00..cfb67a1 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -183,13 +183,16 @@ class Barostat:
         self._kstress = depend_value(
             name="kstress",
             func=self.get_kstress,
-            dependencies=[beads._q, beads._qc, beads._pc, forces._f],
+            dependencies=[beads._q, beads._qc, beads._pc, beads._m, forces._f],
         )
         self._stress = depend_value(
             name="stress",
             func=self.get_stress,
             dependencies=[self._kstress, cell._V, forces._vir],
         )
+        if bias is not None:
+            self._kstress.add_dependency(bias._f)
+            self._stress.add_dependency(bias._vir)
 
         self._pot = depend_value(name="pot", value=0.0)
 
@@ -352,7 +355,7 @@ class Barostat:
         if self.bias is not None:
             bvir[:] = self.bias.vir
 
-        return (self.kstress + self.forces.virs + bvir) / self.cell.V
+        return (self.kstress + self.forces.vir + bvir) / self.cell.V
 
     def get_stress_sc(self):
         """Calculates the high order part of the Suzuki-Chin internal stress tensor."""
-- 
2.43.0


From 050d8c159f6a0ab28e6d6dd72d35b24a3b3c7548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 02/55] fix: declare masses as a dependency of the path spring
 forces and expose bead kinetic energies as a cached quantity

---
 ipi/engine/beads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/beads.py b/ipi/engine/beads.py
index be569ad..8f5fff3 100644
--- a/ipi/engine/beads.py
+++ b/ipi/engine/beads.py
@@ -138,7 +138,7 @@ class Beads:
             name="fpath",
             value=np.zeros((nbeads, 3 * natoms), float),
             func=self.get_fpath,
-            dependencies=[self._q],
+            dependencies=[self._q, self._m3],
         )
 
         # create proxies to access the individual beads as Atoms objects
@@ -357,6 +357,7 @@ dproperties(
         "m3",
         "names",
         "sm3",
+        "kins",
         "kin",
         "kstress",
         "vpath",
-- 
2.43.0


From 71756ff8304c78eb17f660b336186be93a5567c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 03/55] fix: make the Hamiltonian weights a cached quantity so
 that replica exchange invalidates the scaled forces

---
 ipi/engine/ensembles.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 20f067e..01745bf 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -133,7 +133,7 @@ class Ensemble:
         # weights of the Hamiltonian scaling
         if hweights is None:
             hweights = np.ones(0)
-        self.hweights = np.asarray(hweights)
+        self._hweights = depend_array(name="hweights", value=np.asarray(hweights))
 
         # Internal time counter
         self._time = depend_value(name="time", value=time)
@@ -199,9 +199,9 @@ class Ensemble:
 
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
-            self.hweights = np.ones(len(self.forces.mforces))
-
-        self._hweights = depend_array(name="hweights", value=np.asarray(self.hweights))
+            self._hweights = depend_array(
+                name="hweights", value=np.ones(len(self.forces.mforces))
+            )
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
@@ -290,6 +290,7 @@ dproperties(
         "pext",
         "eens",
         "bweights",
+        "hweights",
         "time",
         "econs",
         "has_bias",
-- 
2.43.0


From dba48bd37d24080de8d935135f754e35bac81d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 04/55] fix: declare missing dependencies of the Suzuki-Chin
 virial, the 4th order forces and the combined extras

---
 ipi/engine/forces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ca356dc..726f0d4 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -920,7 +920,7 @@ class Forces:
         self._fvir_4th_order = depend_value(
             name="fvir_4th_order",
             value=[None, None],
-            dependencies=[self.beads._m, self._f, self._pots],
+            dependencies=[self.beads._m, self._f, self._pots, self._alpha],
             func=self.fvir_4th_order_combine,
         )
 
@@ -984,7 +984,7 @@ class Forces:
 
         self._virsc = depend_value(
             name="virsc",
-            dependencies=[self._potssc],
+            dependencies=[self._virssc],
             func=(lambda: np.sum(self.virssc, axis=0)),
         )
 
@@ -995,6 +995,7 @@ class Forces:
             self._f.add_dependency(fc._weight)
             self._pots.add_dependency(fc._weight)
             self._virs.add_dependency(fc._weight)
+            self._extras.add_dependency(fc._weight)
 
     def clone(self, beads, cell):
         """Duplicates the force object, so that it can be used to compute forces
-- 
2.43.0


From c18e4fbd706794a2b7e948d4e4404621c0b1b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 05/55] fix: recompute driver-provided BEC tensors and dipoles
 when the extras change

---
 ipi/engine/motion/driven_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/driven_dynamics.py b/ipi/engine/motion/driven_dynamics.py
index 82585bd..770750b 100644
--- a/ipi/engine/motion/driven_dynamics.py
+++ b/ipi/engine/motion/driven_dynamics.py
@@ -222,7 +222,7 @@ class BEC:
                 name="bec",
                 value=np.full((self.nbeads, 3 * self.natoms, 3), np.nan),
                 func=self._get_driver_BEC,
-                dependencies=[ensemble.beads._q],
+                dependencies=[ensemble.forces._extras, self._asr_threshold],
             )
         elif self.enstype in DrivenDynamics.driven_integrators:
             temp = self._get_fixed_BEC()  # reshape the BEC once and for all
@@ -331,7 +331,7 @@ class ElectricDipole:
             name="dipole",
             func=lambda: self._get_dipole(),
             value=val,
-            dependencies=[ensemble.beads._q],
+            dependencies=[ensemble.forces._extras, self._nbeads],
         )
 
         pass
-- 
2.43.0


From f5d58b351a47746d01be7bbda6d8074d0a4524bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 06/55] fix: declare dependencies of the multiple time step
 counters and of the mass-scaled time step

---
 ipi/engine/motion/dynamics.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bc9b281..8ac55ac 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -308,8 +308,16 @@ class DummyIntegrator:
             self.activeatoms_mask = False
 
         # total number of iteration in the inner-most MTS loop
-        self._inmts = depend_value(name="inmts", func=lambda: np.prod(self.nmts))
-        self._nmtslevels = depend_value(name="nmtslevels", func=lambda: len(self.nmts))
+        self._inmts = depend_value(
+            name="inmts",
+            func=lambda: np.prod(self.nmts),
+            dependencies=[self._nmts],
+        )
+        self._nmtslevels = depend_value(
+            name="nmtslevels",
+            func=lambda: len(self.nmts),
+            dependencies=[self._nmts],
+        )
         # these are the time steps to be used for the different parts of the integrator
         self._qdt = depend_value(
             name="qdt",
@@ -320,6 +328,7 @@ class DummyIntegrator:
             name="qdt_on_m",
             value=np.zeros(3 * self.beads.natoms),
             func=lambda: self.qdt / dstrip(self.beads.m3)[0],
+            dependencies=[self._qdt, self.beads._m3],
         )
         self._pdt = depend_array(
             name="pdt",
-- 
2.43.0


From 6a16f2bc91434413e6f7e8c2956f537ad4ff6268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 07/55] fix: declare path frequencies as dependencies of the
 dynamical mass factors

---
 ipi/engine/normalmodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index e3c6afd..57f2742 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -285,20 +285,20 @@ class NormalModes:
             name="nm_factor",
             value=np.zeros(self.nbeads, float),
             func=self.get_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._omegak],
         )
         # add o_nm_factor for the dynamical mass in the case of open paths
         self._o_nm_factor = depend_array(
             name="nmm",
             value=np.zeros(self.nbeads, float),
             func=self.get_o_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._o_omegak],
         )
         self._dynm3 = depend_array(
             name="dynm3",
             value=np.zeros((self.nbeads, 3 * self.natoms), float),
             func=self.get_dynm3,
-            dependencies=[self._nm_factor, self.beads._m3],
+            dependencies=[self._nm_factor, self._o_nm_factor, self.beads._m3],
         )
         self._dynomegak = depend_array(
             name="dynomegak",
-- 
2.43.0


From 56824e5e9fff739365752711998da83d404b3046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 08/55] fix: declare masses as a dependency of the constraint
 Gram matrix

---
 ipi/utils/constrtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/constrtools.py b/ipi/utils/constrtools.py
index e7c4343..1f06dc8 100644
--- a/ipi/utils/constrtools.py
+++ b/ipi/utils/constrtools.py
@@ -107,7 +107,7 @@ class ConstraintBase:
             name="Gram",
             value=np.zeros((self.ncons, self.ncons)),
             func=self.Gfunc,
-            dependencies=[self._Dg],
+            dependencies=[self._Dg, self._m3],
         )
         if spla is None:
             self._GramChol = depend_array(
-- 
2.43.0


From 3d15cf875568aa46e2cdba5619e3dacf942f5805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:25 +0000
Subject: [PATCH 09/55] fix: invalidate the 4th order forces when a force
 component weight changes

---
 ipi/engine/forces.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 726f0d4..af8ddd0 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -996,6 +996,7 @@ class Forces:
             self._pots.add_dependency(fc._weight)
             self._virs.add_dependency(fc._weight)
             self._extras.add_dependency(fc._weight)
+            self._fvir_4th_order.add_dependency(fc._weight)
 
     def clone(self, beads, cell):
         """Duplicates the force object, so that it can be used to compute forces
-- 
2.43.0


From 49a161ba2e159c1f78690e1f85f70904868b53ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:50 +0000
Subject: [PATCH 10/55] fix: declare the weight of force components added after
 binding as a dependency

---
 ipi/engine/forces.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index af8ddd0..153ecf4 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -745,6 +745,12 @@ class Forces:
         self._pots.add_dependency(nforces._pots)
         self._virs.add_dependency(nforces._virs)
         self._extras.add_dependency(nforces._extras)
+        # the weights are applied when the total force is assembled
+        self._f.add_dependency(nforces._weight)
+        self._pots.add_dependency(nforces._weight)
+        self._virs.add_dependency(nforces._weight)
+        self._extras.add_dependency(nforces._weight)
+        self._fvir_4th_order.add_dependency(nforces._weight)
 
     def bind(self, beads, cell, fcomponents, fflist, open_paths, output_maker):
         """Binds beads, cell and forces to the forcefield.
-- 
2.43.0


From 8c463f7cc3f736da705bc8d0362d903f3def36c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 11/55] fix: do not zero the lower triangle of the cached
 virial in place

ForceBead.get_vir modified the virial stored inside ufvx, so the value seen by
other readers of ufvx depended on whether vir had been read before.
---
 ipi/engine/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 153ecf4..5732071 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -234,7 +234,7 @@ class ForceBead:
            by the volume.
         """
 
-        vir = dstrip(self.ufvx[2])
+        vir = dstrip(self.ufvx[2]).copy()
         vir[1, 0] = 0.0
         vir[2, 0:2] = 0.0
         return vir
-- 
2.43.0


From 8413df5789bad3e1cb34e08b20bdfb621f405420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 12/55] fix: dump up-to-date forces in Forces.dump_state

The stored value was read without refreshing it, so a stale force could be saved.
---
 ipi/engine/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 5732071..089be08 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1053,7 +1053,7 @@ class Forces:
 
             bead_forces = []
             for b in range(mself.nbeads):
-                bead_forces.append(deepcopy(mself._forces[b]._ufvx._value))
+                bead_forces.append(deepcopy(mself._forces[b].ufvx))
             force_data.append(
                 (
                     # will also need bead positions, see _load_state
-- 
2.43.0


From 3c8f526f05097e50e8595ab005f7b1b502590529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 13/55] fix: evaluate displaced-path estimators in the current
 cell

The linear-displacement and isotope estimators evaluate forces on the auxiliary
beads without updating the auxiliary cell, which stays at the initial cell (or
at whatever another estimator left there) in simulations with a variable cell.
---
 ipi/engine/properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f8e3e86..b92add6 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1979,6 +1979,7 @@ class Properties:
         u = np.array([float(ux), float(uy), float(uz)])
         u_size = np.dot(u, u)
         q = dstrip(self.beads.q)
+        self.dcell.h = self.cell.h
         nat = self.beads.natoms
         nb = self.beads.nbeads
         nx_tot = 0.0
@@ -2250,6 +2251,7 @@ class Properties:
         q = dstrip(self.beads.q)
         #        f = dstrip(self.forces.f)
         qc = dstrip(self.beads.qc)
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -2538,6 +2540,7 @@ class Properties:
         qc = dstrip(self.beads.qc)
         q = dstrip(self.beads.q)
         v0 = self.forces.pot
+        self.dcell.h = self.cell.h
         self.dbeads.q = q
 
         for i in range(self.beads.natoms):
@@ -2737,6 +2740,7 @@ class Properties:
         q = dstrip(self.beads.q)
         f = dstrip(self.forces.f)
         v0 = self.forces.pot
+        self.dcell.h = self.cell.h
         pots = self.forces.pots
 
         for i in range(self.beads.natoms):
@@ -3305,6 +3309,7 @@ class Trajectories:
         qc = dstrip(self.system.beads.qc)
         q = dstrip(self.system.beads.q)
         v0 = self.system.forces.pot / nb
+        self.dcell.h = self.system.cell.h
         self.dbeads.q = q
 
         for i in range(nat):
-- 
2.43.0


From 36ca780783ea31681e3aaccca056cdaac455d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 14/55] fix: do not append to the raw extras of the first force
 component

Concatenating the raw extras of several components modified the list cached by
the first component, which kept growing.
---
 ipi/engine/forces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 089be08..9b065dc 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1549,7 +1549,8 @@ class Forces:
                                 for ib in range(self.nbeads):
                                     re["raw"][ib] += v[ib]
                             else:
-                                re["raw"] = v
+                                # copies the list: it may be extended with other components
+                                re["raw"] = list(v)
                         else:
                             if e in re:
                                 warning(
-- 
2.43.0


From 31c9eca4db625b54847f048027722eaad46112fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 15/55] fix: let constrained dynamics be built from its input

The motion input passes fixatoms_dof, which ConstrainedDynamics did not accept,
so that no constrained simulation could be started.
---
 ipi/engine/motion/constrained_dynamics.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 3749d82..d59294d 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -62,7 +62,7 @@ class ConstrainedDynamics(Dynamics):
         thermostat=None,
         barostat=None,
         fixcom=False,
-        fixatoms=None,
+        fixatoms_dof=None,
         nmts=None,
         nsteps_geo=1,
         nsteps_o=1,
@@ -77,7 +77,7 @@ class ConstrainedDynamics(Dynamics):
                 motion will be constrained or not. Defaults to False.
         """
 
-        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms=fixatoms)
+        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms_dof=fixatoms_dof)
         self._dt = depend_value(name="dt", value=timestep)
 
         if thermostat is None:
@@ -137,11 +137,7 @@ class ConstrainedDynamics(Dynamics):
                 "Cannot simultaneously fix cell CoM and enforce Eckart constraints!"
             )
 
-        if fixatoms is None:
-            self.fixatoms = np.zeros(0, int)
-        else:
-            self.fixatoms = fixatoms
-        if len(self.fixatoms) > 0:
+        if len(self.fixatoms_dof) > 0:
             raise ValueError("Cannot fix atoms together with constrained MD")
 
         if csolver is None:
-- 
2.43.0


From 98058d9ed9c0427d8982e9f3ecd2666fb08dd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 16/55] fix: store fixcom and fixatoms of replay in the
 checkpoint

---
 ipi/inputs/motion/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/inputs/motion/motion.py b/ipi/inputs/motion/motion.py
index fbffb5b..26767ff 100755
--- a/ipi/inputs/motion/motion.py
+++ b/ipi/inputs/motion/motion.py
@@ -318,7 +318,7 @@ class InputMotionBase(Input):
 
         if tsc == 0:
             self.file.store(sc.intraj)
-        elif tsc > 0:
+        if tsc >= 0:
             self.fixcom.store(sc.fixcom)
             self.fixatoms_dof.store(sc.fixatoms_dof)
 
-- 
2.43.0


From cc2d33b3d81aee9e77728af88ffdf9f09081b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 17/55] fix: pass all force field options on to the force
 fields

activelist, parameters and some socket options were accepted in the input and
stored in checkpoints but had no effect for some force fields.
---
 ipi/inputs/forcefields.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index a285c3f..959641d 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -439,6 +439,7 @@ class InputFFDirect(InputForceField):
         super().fetch()
 
         return FFDirect(
+            active=self.activelist.fetch(),
             pars=self.parameters.fetch(),
             name=self.name.fetch(),
             latency=self.latency.fetch(),
@@ -649,6 +650,7 @@ class InputFFDebye(InputForceField):
         super(InputFFDebye, self).fetch()
 
         return FFDebye(
+            pars=self.parameters.fetch(),
             H=self.hessian.fetch(),
             xref=self.x_reference.fetch(),
             vref=self.v_reference.fetch(),
@@ -735,6 +737,7 @@ unless you include a <metad> tag, that triggers the log update. """
         super(InputFFPlumed, self).fetch()
 
         return FFPlumed(
+            pars=self.parameters.fetch(),
             name=self.name.fetch(),
             latency=self.latency.fetch(),
             offset=self.offset.fetch(),
@@ -848,6 +851,7 @@ class InputFFYaff(InputForceField):
         super(InputFFYaff, self).fetch()
 
         return FFYaff(
+            pars=self.parameters.fetch(),
             yaffpara=self.yaffpara.fetch(),
             yaffsys=self.yaffsys.fetch(),
             yafflog=self.yafflog.fetch(),
@@ -893,6 +897,7 @@ class InputFFsGDML(InputForceField):
         super(InputFFsGDML, self).fetch()
 
         return FFsGDML(
+            pars=self.parameters.fetch(),
             sGDML_model=self.sGDML_model.fetch(),
             name=self.name.fetch(),
             latency=self.latency.fetch(),
@@ -1057,6 +1062,7 @@ class InputFFCommittee(InputForceField):
 
         # TODO: will actually need to create a FF object here!
         return FFCommittee(
+            active=self.activelist.fetch(),
             pars=self.parameters.fetch(),
             name=self.name.fetch(),
             latency=self.latency.fetch(),
@@ -1322,7 +1328,10 @@ class InputFFCavPhSocket(InputFFSocket):
                 mode=self.mode.fetch(),
                 timeout=self.timeout.fetch(),
                 match_mode=self.matching.fetch(),
+                max_workers=self.max_workers.fetch(),
                 exit_on_disconnect=self.exit_on_disconnect.fetch(),
+                consolidate_messages=self.consolidate_messages.fetch(),
+                batch_size=self.batch_size.fetch(),
             ),
             charge_array=self.charge_array.fetch(),
             apply_photon=self.apply_photon.fetch(),
-- 
2.43.0


From 18c2ae573b359e54d0cfc436460054243918a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 18/55] fix: store all motion options in the checkpoint

Some options of the self-consistent phonons, NEB, string, planetary and KMC
motions were not stored and reverted to their defaults after a restart.
---
 ipi/inputs/motion/al6xxx_kmc.py | 1 +
 ipi/inputs/motion/neb.py        | 1 +
 ipi/inputs/motion/planetary.py  | 1 +
 ipi/inputs/motion/scphonons.py  | 3 +++
 ipi/inputs/motion/stringmep.py  | 1 +
 5 files changed, 7 insertions(+)

diff --git a/ipi/inputs/motion/al6xxx_kmc.py b/ipi/inputs/motion/al6xxx_kmc.py
index 7e73afc..e4489cf 100644
--- a/ipi/inputs/motion/al6xxx_kmc.py
+++ b/ipi/inputs/motion/al6xxx_kmc.py
@@ -227,6 +227,7 @@ class InputAlKMC(InputDictionary):
         self.nsi.store(kmc.nsi)
         self.ncell.store(kmc.ncell)
         self.nstep.store(kmc.nstep)
+        self.neval.store(kmc.neval)
         self.diffusion_barrier_al.store(kmc.diffusion_barrier_al)
         self.diffusion_prefactor_al.store(kmc.diffusion_prefactor_al)
         self.diffusion_barrier_mg.store(kmc.diffusion_barrier_mg)
diff --git a/ipi/inputs/motion/neb.py b/ipi/inputs/motion/neb.py
index 4ea898f..ccc10fe 100644
--- a/ipi/inputs/motion/neb.py
+++ b/ipi/inputs/motion/neb.py
@@ -305,6 +305,7 @@ class InputNEB(InputDictionary):
         self.hessian_bfgs.store(neb.hessian)
         self.qlist_lbfgs.store(neb.qlist)
         self.glist_lbfgs.store(neb.glist)
+        self.corrections_lbfgs.store(neb.corrections)
         self.v_fire.store(neb.v)
         self.alpha_fire.store(neb.a)
         self.N_down_fire.store(neb.N_dn)
diff --git a/ipi/inputs/motion/planetary.py b/ipi/inputs/motion/planetary.py
index 5a15ccd..f5a30f7 100644
--- a/ipi/inputs/motion/planetary.py
+++ b/ipi/inputs/motion/planetary.py
@@ -132,6 +132,7 @@ class InputPlanetary(InputDictionary):
         self.thermostat.store(plan.ccdyn.thermostat)
         self.nmts.store(plan.ccdyn.nmts)
         self.nsamples.store(plan.nsamples)
+        self.nbeads.store(plan.nbeads)
         self.stride.store(plan.stride)
         self.screen.store(plan.screen)
 
diff --git a/ipi/inputs/motion/scphonons.py b/ipi/inputs/motion/scphonons.py
index 093093c..6b87e1d 100644
--- a/ipi/inputs/motion/scphonons.py
+++ b/ipi/inputs/motion/scphonons.py
@@ -182,6 +182,9 @@ class InputSCPhonons(InputDictionary):
         self.displace_mode.store(phonons.displace_mode)
         self.nparallel.store(phonons.nparallel)
         self.batch_weight_exponent.store(phonons.batch_weight_exponent)
+        self.wthreshold.store(phonons.wthreshold)
+        self.precheck.store(phonons.precheck)
+        self.checkweights.store(phonons.checkweights)
 
     def fetch(self):
         rv = super(InputSCPhonons, self).fetch()
diff --git a/ipi/inputs/motion/stringmep.py b/ipi/inputs/motion/stringmep.py
index 0490895..ad7db5d 100644
--- a/ipi/inputs/motion/stringmep.py
+++ b/ipi/inputs/motion/stringmep.py
@@ -297,6 +297,7 @@ class InputStringMEP(InputDictionary):
         self.hessian_bfgs.store(stringmep.hessian)
         self.qlist_lbfgs.store(stringmep.qlist)
         self.glist_lbfgs.store(stringmep.glist)
+        self.corrections_lbfgs.store(stringmep.corrections)
         self.tr_trm.store(stringmep.tr_trm)
         self.v_fire.store(stringmep.v)
         self.alpha_fire.store(stringmep.a)
-- 
2.43.0


From 805ee65c48f87e2f39a0a053116eadbd786b36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 19/55] fix: store direct force fields that are members of a
 committee in the checkpoint

---
 ipi/inputs/forcefields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index 959641d..0bfb7c7 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1024,6 +1024,10 @@ class InputFFCommittee(InputForceField):
                     _iobj = InputFFSocket()
                     _iobj.store(_obj)
                     self.extra[_ii] = ("ffsocket", _iobj)
+                elif isinstance(_obj, FFDirect):
+                    _iobj = InputFFDirect()
+                    _iobj.store(_obj)
+                    self.extra[_ii] = ("ffdirect", _iobj)
                 elif isinstance(_obj, FFLennardJones):
                     _iobj = InputFFLennardJones()
                     _iobj.store(_obj)
-- 
2.43.0


From 34a8ddb7bdc140c94d7b15fb07c12926e42e95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:27 +0000
Subject: [PATCH 20/55] fix: treat a connection reset by a client as a
 disconnection

---
 ipi/interfaces/sockets.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3ff674..adf54d8 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -192,6 +192,9 @@ class DriverSocket(socket.socket):
                     )
                     raise Disconnected()
                 pass
+            except OSError:
+                # connection reset by the client
+                raise Disconnected()
 
             if not timeout and bpart == 0:
                 raise Disconnected()
@@ -705,6 +708,8 @@ class Driver(DriverSocket):
                     )
                     raise Disconnected()
                 continue
+            except OSError:
+                raise Disconnected()
             if bpart == 0:
                 raise Disconnected()
             bpos += bpart
@@ -749,6 +754,8 @@ class Driver(DriverSocket):
                     if ntimeout > NTIMEOUT:
                         raise Disconnected()
                     continue
+                except OSError:
+                    raise Disconnected()
                 if bpart == 0:
                     raise Disconnected()
                 bpos += bpart
-- 
2.43.0


From f18a21d2729ad47edd6718baac1de1e011eac488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:27 +0000
Subject: [PATCH 21/55] fix: detect that the client disconnected while waiting
 for the force

---
 ipi/interfaces/sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index adf54d8..54ddc87 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -456,7 +456,7 @@ class Driver(DriverSocket):
                     " @SOCKET:   Unexpected getforce reply: %s" % (reply),
                     verbosity.low,
                 )
-            if reply == "":
+            if len(reply) == 0:
                 raise Disconnected()
 
     def _recv_force_data(self):
-- 
2.43.0


From 797ff051dc5b89bd4ee78f273a1ed4274b8caa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:27 +0000
Subject: [PATCH 22/55] fix: report the status of the client in InvalidStatus
 errors

---
 ipi/interfaces/sockets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 54ddc87..16e3cf0 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -389,7 +389,7 @@ class Driver(DriverSocket):
                 self.get_status()
                 return
         else:
-            raise InvalidStatus("Status in init was " + self.status)
+            raise InvalidStatus("Status in init was " + str(self.status))
 
     def sendpos(self, pos, h_ih):
         """Sends the position and cell data to the driver.
@@ -428,7 +428,7 @@ class Driver(DriverSocket):
                 )
                 raise exc
         else:
-            raise InvalidStatus("Status in sendpos was " + self.status)
+            raise InvalidStatus("Status in sendpos was " + str(self.status))
 
     def _recv_forceready(self):
         """Receives the FORCEREADY header after GETFORCE has been sent.
@@ -1028,7 +1028,7 @@ class SHMDriver(Driver):
     def sendpos(self, pos, h_ih):
         global TIMEOUT
         if not (self.status & Status.Ready):
-            raise InvalidStatus("Status in sendpos was " + self.status)
+            raise InvalidStatus("Status in sendpos was " + str(self.status))
         try:
             self.sendall(self._fill_shm([(pos, h_ih)]))
             self.status = Status.Up | Status.Busy
-- 
2.43.0


From 64865441aade290e16cf9cefc51f4932b83ea13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:43 +0000
Subject: [PATCH 23/55] fix: do not lose the requests of clients that fail or
 time out

Without message consolidation, a request whose client timed out or failed stayed
"Running" forever, and the failure of one client raised an error or waited for all others.
---
 ipi/interfaces/sockets.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 16e3cf0..1e3bf68 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1405,14 +1405,14 @@ class InterfaceSocket(object):
                 self.clients.remove(c)
                 # requeue jobs that have been left hanging
                 for [k, j, tc] in self.jobs[:]:
-                    tc.result()
                     if j is c:
+                        if tc is not None:
+                            tc.exception()  # waits for the thread to end
                         self.jobs = [
                             w for w in self.jobs if not (w[0] is k and w[1] is j)
                         ]  # removes pair in a robust way
 
-                        k["status"] = "Queued"
-                        k["start"] = -1
+                        self._requeue_disconnected(k, c)
 
         if len(self.clients) == 0:
             searchtimeout = SERVERTIMEOUT
@@ -1536,7 +1536,8 @@ class InterfaceSocket(object):
                 nfinished += 1
                 finished_ids.append(ijob)
             elif chk == 0:
-                self.poll_iter = UPDATEFREQ  # client disconnected. force a pool_update
+                # client disconnected. resuscitates the request and forces a pool_update
+                self._requeue_disconnected(r, c)
                 finished_ids.append(ijob)
             nchecked += 1
         # batch removal of finished/disconnected jobs (reverse order to preserve indices)
@@ -1816,6 +1817,16 @@ class InterfaceSocket(object):
                 pass
             c.close()
             c.status = Status.Disconnected
-            return 0  # client will be cleared and request resuscitated in poll_update
+            return 0  # client will be cleared in pool_update
+
+        if ct.done() and r["status"] != "Done":
+            warning(
+                " @SOCKET:   Request could not be completed by client "
+                + str(c.peername)
+                + ". Disconnecting.",
+                verbosity.low,
+            )
+            c.status = Status.Disconnected
+            return 0
 
         return -1
-- 
2.43.0


From fecb03f456dee23100172144c62bdb0397edcb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:43 +0000
Subject: [PATCH 24/55] fix: drop clients that fail the handshake

---
 ipi/interfaces/sockets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 1e3bf68..a7eb30c 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1436,7 +1436,7 @@ class InterfaceSocket(object):
                     verbosity.low,
                 )
                 driver.get_status()
-                if driver.status | Status.Up:
+                if driver.status & Status.Up:
                     driver.exit_on_disconnect = self.exit_on_disconnect
                     self.clients.append(driver)
                     info(
@@ -1450,8 +1450,11 @@ class InterfaceSocket(object):
                         " @SOCKET:   Handshaking failed. Dropping connection.",
                         verbosity.low,
                     )
-                    client.shutdown(socket.SHUT_RDWR)
-                    client.close()
+                    try:
+                        client.shutdown(socket.SHUT_RDWR)
+                        client.close()
+                    except socket.error:
+                        pass
             else:
                 keepsearch = False
 
-- 
2.43.0


From dd9afbec1343e80efd569b1c39fa6dd258367a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:43 +0000
Subject: [PATCH 25/55] fix: assemble message headers that are received in
 pieces

---
 ipi/interfaces/sockets.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index a7eb30c..9b557c6 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -153,7 +153,21 @@ class DriverSocket(socket.socket):
         Args:
            l: Length of the accepted message. Defaults to HDRLEN.
         """
-        return self.recv(length)
+        msg = self.recv(length)
+        # the message may be delivered in several pieces
+        ntimeout = 0
+        while 0 < len(msg) < length:
+            try:
+                part = self.recv(length - len(msg))
+            except socket.timeout:
+                ntimeout += 1
+                if ntimeout > NTIMEOUT:
+                    raise Disconnected()
+                continue
+            if len(part) == 0:
+                break
+            msg += part
+        return msg
 
     def recvall(self, dest):
         """Gets the potential energy, force and virial from the driver.
-- 
2.43.0


From 08829f174d5094d56efad2586586b7bcd3d13dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:07 +0000
Subject: [PATCH 26/55] fix: do not evaluate again a request that was completed
 before its client died

---
 ipi/interfaces/sockets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 9b557c6..2077148 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1693,6 +1693,8 @@ class InterfaceSocket(object):
         a list of requests (batched job).
         """
         for rr in r if isinstance(r, list) else [r]:
+            if rr["status"] == "Done":  # completed just before the client died
+                continue
             rr["status"] = "Queued"
             rr["start"] = -1
         c.status = Status.Disconnected
-- 
2.43.0


From d5c37c905aeabcf3df1cac1d52232df3b678a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 27/55] fix: announce force evaluations only after the offset
 is subtracted

Requests were flagged as done inside evaluate(), before the constant offset was
subtracted, so that another thread could pick up the wrong energy. The update of
PLUMED after the atoms moved failed because it has no request to flag.
---
 ipi/engine/forcefields.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 111c60a..cf8451b 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -395,6 +395,8 @@ class FFEval(ForceField):
         """Evaluates a single request and applies the offset."""
         self.evaluate(request)
         request["result"][0] -= self.offset
+        request["status"] = "Done"
+        request._event_done.set()
 
     def poll(self):
         """Polls the forcefield checking if there are requests that should
@@ -425,8 +427,6 @@ class FFEval(ForceField):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        request["status"] = "Done"
-        request._event_done.set()
 
 
 class FFMPI(ForceField):
@@ -687,8 +687,6 @@ class FFLennardJones(FFEval):
         v *= self.epsfour
 
         r["result"] = [v, f.reshape(nat * 3), np.zeros((3, 3), float), {"raw": ""}]
-        r["status"] = "Done"
-        r._event_done.set()
 
 
 class FFdmd(FFEval):
@@ -788,8 +786,6 @@ class FFdmd(FFEval):
             #          Because this is "out of equilibrium" I still did not find a good benchmark. Change cell and look at variation of energy only for this term?
 
         r["result"] = [v, f.reshape(nat * 3), vir, ""]
-        r["status"] = "Done"
-        r._event_done.set()
 
     def dmd_update(self):
         """Updates time step when a full step is done. Can only be called after implementation goes into smotion mode..."""
@@ -869,8 +865,6 @@ class FFDebye(FFEval):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        r["status"] = "Done"
-        r._event_done.set()
         r["t_finished"] = time.time()
 
 
@@ -1056,8 +1050,6 @@ class FFPlumed(FFEval):
 
         # nb: the virial is a symmetric tensor, so we don't need to transpose
         r["result"] = [v, f, vir, extras]
-        r["status"] = "Done"
-        r._event_done.set()
 
     def mtd_update(self, pos, cell):
         """Makes updates to the potential that only need to be triggered
@@ -1212,8 +1204,6 @@ class FFYaff(FFEval):
         e = self.ff.compute(gpos, vtens)
 
         r["result"] = [e, -gpos.ravel(), -vtens, {"raw": ""}]
-        r["status"] = "Done"
-        r._event_done.set()
 
 
 class FFsGDML(FFEval):
@@ -1345,8 +1335,6 @@ class FFsGDML(FFEval):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        r["status"] = "Done"
-        r._event_done.set()
         r["t_finished"] = time.time()
 
 
-- 
2.43.0


From 6b2ec8086683b60b46d135eed6681bd8f44483b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:36 +0000
Subject: [PATCH 28/55] fix: handle partial reads, timeouts and disconnections
 in the Python driver

---
 drivers/py/driver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index dbb4ed5..8ed47cf 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -20,7 +20,7 @@ def recv_data(sock, data):
     while bpos < blen:
         timeout = False
         try:
-            bpart = 1
+            bpart = 0
             bpart = sock.recv_into(buf[bpos:], blen - bpos)
         except socket.timeout:
             print(" @SOCKET:   Timeout in status recvall, trying again!")
@@ -41,7 +41,7 @@ def send_data(sock, data):
     if np.isscalar(data):
         data = np.array([data], data.dtype)
     buf = data.tobytes()
-    sock.send(buf)
+    sock.sendall(buf)
 
 
 HDRLEN = 12  # number of characters of the default message strings
@@ -98,7 +98,7 @@ def run_driver(
     force = np.zeros(0, float)
     vir = np.zeros((3, 3), float)
     while True:  # ah the infinite loop!
-        header = sock.recv(HDRLEN)
+        header = recv_data(sock, np.zeros(HDRLEN, dtype="S1")).tobytes()
         if f_verbose:
             print("Received ", header)
         if header == Message("STATUS"):
-- 
2.43.0


From 43335a116c22b83db1498d51244504ffcf0e7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:36 +0000
Subject: [PATCH 29/55] fix: announce the length in bytes of the strings
 exchanged with the driver

---
 drivers/py/driver.py      | 13 +++++++------
 ipi/interfaces/sockets.py |  3 ++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index 8ed47cf..b1fb4f3 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -213,9 +213,9 @@ def run_driver(
                 shm_views["vir"][i] = np.asarray(res[2]).reshape(3, 3)
             sock.sendall(Message("FORCEREADY"))
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE") and batch_n > 1:
             sock.sendall(Message("FORCEREADY"))
@@ -235,9 +235,9 @@ def run_driver(
             )
             send_data(sock, virs)
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE"):
             sock.sendall(Message("FORCEREADY"))
@@ -270,8 +270,9 @@ def run_driver(
             send_data(sock, np.int32(nat))
             send_data(sock, force)
             send_data(sock, vir)
-            send_data(sock, np.int32(len(extras)))
-            sock.sendall(extras.encode("utf-8"))
+            extra = extras.encode("utf-8")
+            send_data(sock, np.int32(len(extra)))
+            sock.sendall(extra)
 
             f_data = False
         elif header == Message("EXIT"):
diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 2077148..319ed6f 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -392,12 +392,13 @@ class Driver(DriverSocket):
                     # it checks if there are several parameters just in case
                     sep = "," if pars.strip() else ""
                     pars = pars + "%s batch_size:%d" % (sep, self.batch_size)
+                pars = pars.encode()
                 # combines all messages in one to reduce latency
                 self.sendall(
                     MESSAGE["init"]
                     + np.int32(rid)
                     + np.int32(len(pars))
-                    + pars.encode()
+                    + pars
                 )
             except:
                 self.get_status()
-- 
2.43.0


From 173ecf06f2018de536618402e8dc216792945c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:08 +0000
Subject: [PATCH 30/55] fix: subtract the energy offset of the cavity force
 field only once

---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index cf8451b..00cefe3 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2453,7 +2453,7 @@ class FFCavPhSocket(FFSocket):
             result_tot[1][2:ndim_tot:3] += fz_cav
             result_tot[1][ndim_tot:] = f_ph
 
-        result_tot[0] -= self.offset
+        # NB: the constant offset is subtracted by the socket interface
 
         # At this moment, we have sucessfully gathered the CavMD forces
         newreq = ForceRequest(
-- 
2.43.0


From 724dc85ff45ad11773ed1303374ed5e7aac99b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:24 +0000
Subject: [PATCH 31/55] fix: apply the driving field for a whole time step also
 with several outer MTS steps

---
 ipi/engine/motion/driven_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/driven_dynamics.py b/ipi/engine/motion/driven_dynamics.py
index 770750b..70a852a 100644
--- a/ipi/engine/motion/driven_dynamics.py
+++ b/ipi/engine/motion/driven_dynamics.py
@@ -122,7 +122,7 @@ class EDAIntegrator(DummyIntegrator):
             )
 
         edaforces = self.EDAforces(time)
-        self.beads.p += edaforces * self.pdt[level]
+        self.beads.p += edaforces * (self.dt * 0.5)
         self.pconstraints()
 
         pass
-- 
2.43.0


From a23032b48618d99f21340ea19a38191cecc7dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:34 +0000
Subject: [PATCH 32/55] fix: propagate the ring polymer for a whole time step
 in nvt-cc when nmts is set

---
 ipi/engine/motion/dynamics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 8ac55ac..740b9af 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -603,9 +603,11 @@ class NVTCCIntegrator(NVTIntegrator):
         self.pconstraints()
 
         # The centroid is constrained, so qcstep is skipped, but the internal
-        # ring-polymer modes still need the two half-step free propagations.
-        self.nm.free_qstep()
-        self.nm.free_qstep()
+        # ring-polymer modes still need the two half-step free propagations
+        # (each of them is as long as the innermost MTS half step).
+        for i in range(self.inmts):
+            self.nm.free_qstep()
+            self.nm.free_qstep()
 
         self.pstep()
         self.nm.pnm[0, :] = 0.0
-- 
2.43.0


From 99c0eaaf3949be8c9d208d8de73c8f2e4becca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:48 +0000
Subject: [PATCH 33/55] fix: enforce the constraints after the last kick of the
 Suzuki-Chin baoab step

---
 ipi/engine/motion/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 740b9af..0274cca 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -765,6 +765,7 @@ class SCIntegrator(NVTIntegrator):
             self.pconstraints()
             self.mtsprop_ab(0)
             self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pconstraints()
 
 
 class SCNPTIntegrator(SCIntegrator):
@@ -838,3 +839,4 @@ class SCNPTIntegrator(SCIntegrator):
             self.mtsprop_ab(0)
             self.barostat.pscstep()
             self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pconstraints()
-- 
2.43.0


From 041dc7d3fb1aaed299d587003c3a1c040e43a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:05 +0000
Subject: [PATCH 34/55] fix: apply the bias forces of Hamiltonian replica
 exchange in the integrators

---
 ipi/engine/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 01745bf..379366e 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -205,7 +205,7 @@ class Ensemble:
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
-                len(self.bcomp) > 0 and np.mean((self.hweights - 1) ** 2) < 1e-20
+                len(self.bcomp) > 0 or np.mean((self.hweights - 1) ** 2) > 1e-20
             ),
             dependencies=[self._hweights],
         )
-- 
2.43.0


From 8447e9a67f161147d0efe5630397f651917f80f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:21 +0000
Subject: [PATCH 35/55] fix: scale the drift of the anisotropic barostats by
 the time step when the cell velocity has no diagonal

---
 ipi/engine/barostats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index cfb67a1..2dea0df 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1115,7 +1115,7 @@ class BaroRGB(Barostat):
         # check eigen vector exists
         if np.count_nonzero(v.diagonal()) == 0:
             # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
@@ -1405,7 +1405,7 @@ class BaroMTK(Barostat):
         # check eigen vector exists
         if np.count_nonzero(v.diagonal()) == 0:
             # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
-- 
2.43.0


From 459f5701eee3de358be6e51c992b49821ad0d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:57 +0000
Subject: [PATCH 36/55] fix: nm_rescale.b2tob1 must not expand closed paths
 with the open-path matrix

---
 ipi/utils/nmtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index f826a87..91324d8 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -323,8 +323,8 @@ class nm_rescale(object):
                         q_scal[:, 3 * io + 2] = np.tensordot(
                             self._o_b2tob1, q[:, 3 * io + 2], axes=(1, 0)
                         )
-                    else:
-                        q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
+                else:
+                    q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
         return q_scal
 
 
-- 
2.43.0


From b49f25c59bdbf1e7a93ca92a742a750cd1f04404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:34 +0000
Subject: [PATCH 37/55] fix: soft exits that passed their message as the status
 never ran the clean-up

---
 ipi/engine/forcefields.py | 17 +++++++++++------
 ipi/utils/mintools.py     |  4 +++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 00cefe3..66b9e81 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2166,9 +2166,10 @@ class FFCavPhSocket(FFSocket):
             # check the dimension of charge array
             if np.size(pos_bath[::3]) != np.size(charge_array_bath):
                 softexit.trigger(
-                    "The size of charge array = {}  does not match the size of atoms = {} ".format(
+                    status="bad",
+                    message="The size of charge array = {}  does not match the size of atoms = {} ".format(
                         np.size(charge_array_bath), np.size(pos_bath[::3])
-                    )
+                    ),
                 )
             dx = np.sum(pos_bath[::3] * charge_array_bath)
             dy = np.sum(pos_bath[1::3] * charge_array_bath)
@@ -2337,7 +2338,9 @@ class FFCavPhSocket(FFSocket):
                     # if we return, we may as well output wrong numbers, or mess up things.
                     # so we can only call soft-exit and wait until that is done. then kill the thread
                     # we are in.
-                    softexit.trigger(" @ FORCES : cannot return so will die off here")
+                    softexit.trigger(
+                        message=" @ FORCES : cannot return so will die off here"
+                    )
                     while softexit.exiting:
                         time.sleep(self.latency)
                     sys.exit()
@@ -2393,10 +2396,11 @@ class FFCavPhSocket(FFSocket):
                     )
                     if not has_dipole_der or not check_dipole_der:
                         softexit.trigger(
-                            "Dipole surface is turned on, but the required dipole information is not provided in extras. \
+                            status="bad",
+                            message="Dipole surface is turned on, but the required dipole information is not provided in extras. \
                             Please check if the driver provides the dipole and its derivative information in extras, \
                             and make sure the size of dipole and dipole derivative information matches the number of atoms. \
-                            If you do not want to include dipole surface contribution, please set `dipole_surface = False`."
+                            If you do not want to include dipole surface contribution, please set `dipole_surface = False`.",
                         )
 
                     # this is the path when using a dipole driver in i-pi to calculate dipole information
@@ -2415,7 +2419,8 @@ class FFCavPhSocket(FFSocket):
                         != int(len(pbcpos) // 3)
                     ):
                         softexit.trigger(
-                            "Total number of photons + molecules does not match total number of particles"
+                            status="bad",
+                            message="Total number of photons + molecules does not match total number of particles",
                         )
                     # 4. calculate total dipole moment array for N baths
                     dx_array, dy_array, _ = self.calc_dipole_xyz_mm(
diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index 4d3a255..efdf73b 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -1078,7 +1078,9 @@ def FIRE(
         N_dn = 0
         N_up += 1
         if N_up > Nmax:
-            softexit.trigger("@FIRE is stuck for %d steps. We stop here." % N_up)
+            softexit.trigger(
+                message="@FIRE is stuck for %d steps. We stop here." % N_up
+            )
         dt = max(dt * fdec, dtmin)
         a = astart
         # correct uphill motion
-- 
2.43.0


From 77fa1bf16d6177fdf40a1ed77378edc5ad1e4538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:34 +0000
Subject: [PATCH 38/55] fix: an error in one soft-exit function must not keep
 the others from running

---
 ipi/utils/softexit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/softexit.py b/ipi/utils/softexit.py
index 8b6dc71..cabf8de 100644
--- a/ipi/utils/softexit.py
+++ b/ipi/utils/softexit.py
@@ -113,7 +113,7 @@ class Softexit(object):
             for f, a, ka in self.flist:
                 try:
                     f(*a, **ka)
-                except RuntimeError as err:
+                except Exception as err:
                     print("Error running emergency softexit, ", err)
                     pass
 
-- 
2.43.0


From a2331e6db59dcd7c747217f82fdbdc26744afc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:30 +0000
Subject: [PATCH 39/55] fix: the restart written on a soft exit must not
 contain a step that was cut short

---
 ipi/engine/simulation.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index ce4a3c9..862717e 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -313,9 +313,9 @@ class Simulation:
         written out.
         """
 
-        if self.step < self.tsteps:
-            self.step += 1
         if not self.rollback:
+            if self.step < self.tsteps:
+                self.step += 1
             info(
                 " @simulation.softexit: Saving the latest status at the end of the step"
             )
@@ -363,7 +363,10 @@ class Simulation:
             # exit requests without screwing the trajectory
 
             steptime = -time.time()
-            if softexit.triggered or self.finished:
+            if softexit.triggered:
+                # the exit uses the state stored before the last step
+                return
+            if self.finished:
                 break
 
             # save a consistent state of the simulation that will be saved as a RESTART file in case of premature (soft) exit
@@ -372,8 +375,11 @@ class Simulation:
 
             self.run_step(self.step)
 
-            if softexit.triggered or self.finished:
-                # Don't write if we are about to exit.
+            if softexit.triggered:
+                # Don't write if we are about to exit. The step might be
+                # incomplete, so the exit uses the state stored before it.
+                return
+            if self.finished:
                 break
 
             if write_outputs:
-- 
2.43.0


From b99cba9aa45a2b72fcf60911687b47c1441aa88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:18 +0000
Subject: [PATCH 40/55] fix: wait for a soft exit in another thread before i-pi
 ends

---
 bin/i-pi | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bin/i-pi b/bin/i-pi
index 1ca5e23..23e8fed 100755
--- a/bin/i-pi
+++ b/bin/i-pi
@@ -20,6 +20,7 @@ file should be formatted, see the reference manual.
 
 import sys
 import os
+import time
 
 # Check that we have the import path for this i-PI set and if not, add it.
 dir_root = os.path.realpath(
@@ -72,6 +73,11 @@ def main(fn_input, options):
         message=simulation.exit_message,
     )
 
+    # if another thread is already dealing with a soft exit, wait until
+    # it has written the restart file
+    while softexit.exiting:
+        time.sleep(0.1)
+
 
 if __name__ == '__main__':
 
-- 
2.43.0


From c198d53b032c5f981fbf70f98731a84795eef859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:13 +0000
Subject: [PATCH 41/55] fix: back up a file next to it when its name has a
 directory

---
 ipi/utils/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index b6efb56..a7cccad 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -449,8 +449,9 @@ def open_backup(filename, mode="r", buffering=-1):
 
         i = 0
         fn_backup = filename
+        dirname, basename = os.path.split(filename)
         while os.path.isfile(fn_backup):
-            fn_backup = "#" + filename + "#%i#" % i
+            fn_backup = os.path.join(dirname, "#" + basename + "#%i#" % i)
             i += 1
 
         if fn_backup != filename:
-- 
2.43.0


From 41801d0e86a2c654e81a2fe17b6eacac48098f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:13 +0000
Subject: [PATCH 42/55] fix: refuse systems that would write to the same output
 files

---
 ipi/engine/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index 862717e..611e64e 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -276,6 +276,11 @@ class Simulation:
                 )  # makes sure that the checkpoint step is updated also in the template
                 self.outputs.append(dco)
             else:  # properties and trajectories are output per system
+                prefix_list = [s.prefix for s in self.syslist]
+                if len(prefix_list) > len(set(prefix_list)):
+                    raise ValueError(
+                        "System prefixes are not unique. Modify prefix attributes."
+                    )
                 isys = 0
                 for s in self.syslist:  # create multiple copies
                     no = deepcopy(dco)
-- 
2.43.0


From 7203dc721f3d71d79a9ae4aa415a70fc27370725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:43 +0000
Subject: [PATCH 43/55] fix: refresh a stale cached array before its transpose,
 copy or other methods are used

---
 ipi/utils/depend.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index bae8afe..3c80a59 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -379,10 +379,14 @@ class depend_array(depend_base):
 
     @property
     def T(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.T
 
     @property
     def flat(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.flat
 
     @property
@@ -395,10 +399,14 @@ class depend_array(depend_base):
 
     @property
     def real(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.real
 
     @property
     def imag(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.imag
 
     # ------------------------------------------------------------------
@@ -414,6 +422,8 @@ class depend_array(depend_base):
             value = object.__getattribute__(self, "_value")
         except AttributeError:
             raise AttributeError(name)
+        if self._tainted[0]:
+            self._refresh()
         return getattr(value, name)
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 09002feca05e7255d92c9c5401882d06714f713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:43 +0000
Subject: [PATCH 44/55] fix: start the displaced beads of the scop estimator
 from the current positions

---
 ipi/engine/properties.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index b92add6..794962d 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -2023,6 +2023,7 @@ class Properties:
         q = dstrip(self.beads.q)
 
         self.dcell.h = self.cell.h
+        self.dbeads.q[:] = q
         self.dbeads.q[::2] = self.beads.q[::2] + eps * (q - qc)[::2]
 
         vir1 = (
-- 
2.43.0


From 416831493d0c85c45edd08eada04e207b455b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:43 +0000
Subject: [PATCH 45/55] fix: mass of cerium

---
 ipi/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/units.py b/ipi/utils/units.py
index a9c2cc9..a04a9e6 100644
--- a/ipi/utils/units.py
+++ b/ipi/utils/units.py
@@ -114,7 +114,7 @@ class Elements(dict):
         "Cs": 132.90545,
         "Ba": 137.327,
         "La": 138.9055,
-        "Ce": 140.166,
+        "Ce": 140.116,
         "Pr": 140.90765,
         "Nd": 144.24,
         "Pm": 145,
-- 
2.43.0


From b2f2d1e74ad12c3c09b53588eb6126c48fb96122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:07 +0000
Subject: [PATCH 46/55] fix: atom_f_path is a force, so its units are units of
 force

---
 ipi/engine/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 794962d..1bc80d7 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -576,7 +576,7 @@ class Properties:
                 ),
             },
             "atom_f_path": {
-                "dimension": "length",
+                "dimension": "force",
                 "help": "The forces acting on all the beads of a particle given its index.",
                 "longhelp": """The forces acting on all the beads of a particle given its index. Takes arguments index
                        and bead (both zero based). If bead is not specified, refers to the centroid.""",
-- 
2.43.0


From 39cec5f9c60c8af33865c29ea0761410edbc2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:12 +0000
Subject: [PATCH 47/55] fix: convert manually initialized positions, momenta
 and velocities from their units

---
 ipi/engine/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 5e7bb1c..cfd4c08 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -228,7 +228,7 @@ def init_vector(
         else:
             rq = init_beads(iif, nbeads).q
     elif mode == "manual":
-        rq = value
+        rq = value * unit_to_internal(dimension, units, 1.0)
 
     # determines the size of the input data
     if mode == "manual":
-- 
2.43.0


From ba407b8635e85f05fd5485cc8f592ee8873cce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:20 +0000
Subject: [PATCH 48/55] fix: read the coordinates of a PDB file from the
 columns they are written to

---
 ipi/utils/io/backends/io_pdb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 45c0077..57ff1cd 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -182,9 +182,9 @@ def read_pdb(filedesc):
         name = body[12:16].strip()
         names.append(name)
         masses.append(Elements.mass(name))
-        x = float(body[31:39])
-        y = float(body[39:47])
-        z = float(body[47:55])
+        x = float(body[30:38])
+        y = float(body[38:46])
+        z = float(body[46:54])
         qatoms.append(x)
         qatoms.append(y)
         qatoms.append(z)
-- 
2.43.0


From 21e2741af5fbd3c7f9a64a807a07d56c69f737b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:20 +0000
Subject: [PATCH 49/55] fix: write the coordinates of a PDB path in the
 standard columns

---
 ipi/utils/io/backends/io_pdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 57ff1cd..693aa31 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -34,7 +34,7 @@ def print_pdb_path(beads, cell, filedesc=sys.stdout, cell_conv=1.0, atoms_conv=1
 
     fmt_cryst = "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f%s%4i\n"
     fmt_atom = (
-        "ATOM  %5i %4s%1s%3s %1s%4i%1s  %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
+        "ATOM  %5i %4s%1s%3s %1s%4i%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
     )
     fmt_conect = "CONECT%5i%5i\n"
 
-- 
2.43.0


From 407ad33e32ed9c667bacbf5f9de30b3e61d1ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:20 +0000
Subject: [PATCH 50/55] fix: keep the columns of a PDB file aligned beyond
 99999 atoms

---
 ipi/utils/io/backends/io_pdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 693aa31..fc80912 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -112,7 +112,7 @@ def print_pdb(
     lab = dstrip(atoms.names)
     for i in range(natoms):
         data = (
-            i + 1,
+            (i + 1) % 100000,  # the serial number has only five columns
             lab[i],
             " ",
             "  1",
-- 
2.43.0


From 989ccba5e49da20ebfbf99114ba967254e06db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:20 +0000
Subject: [PATCH 51/55] fix: reject an xyz frame that ends before all its atoms

---
 ipi/utils/io/backends/io_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_xyz.py b/ipi/utils/io/backends/io_xyz.py
index ffd2c60..4f85f9b 100644
--- a/ipi/utils/io/backends/io_xyz.py
+++ b/ipi/utils/io/backends/io_xyz.py
@@ -150,7 +150,7 @@ def read_xyz(filedesc):
         if atom_counter == natoms:
             break
 
-    if natoms != len(names):
+    if natoms != atom_counter:
         raise ValueError(
             "The number of atom records does not match the header of the xyz file."
         )
-- 
2.43.0


From fe7ffd6525682195a30c8c33415b47d5259f74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:20 +0000
Subject: [PATCH 52/55] fix: recognise all units in the comment line of a
 structure file

---
 ipi/utils/io/io_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/io/io_units.py b/ipi/utils/io/io_units.py
index aece708..0e62b97 100755
--- a/ipi/utils/io/io_units.py
+++ b/ipi/utils/io/io_units.py
@@ -14,10 +14,10 @@ from ipi.engine.properties import Trajectories as Traj
 
 __all__ = ["auto_units", "process_units"]
 # Regular expressions initialization for read_xyz function
-cell_unit_re = re.compile(r"cell\{([A-Za-z_]*)\}")  # cell unit pattern
+cell_unit_re = re.compile(r"cell\{([^{}]*)\}")  # cell unit pattern
 traj_dict = Traj().traj_dict  # trajectory dictionary
 traj_re = [
-    re.compile("%s%s" % (key, r"\{[A-Za-z_]*\}")) for key in list(traj_dict.keys())
+    re.compile("%s%s" % (key, r"\{[^{}]*\}")) for key in list(traj_dict.keys())
 ]  # trajectory patterns
 
 
-- 
2.43.0


From 57ed6d5fc49714f327bec411b4691806ac5e8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:21 +0000
Subject: [PATCH 53/55] fix: reject forces and virials that are not 64-bit
 floats in the Python client

The precedence of 'not' made the check pass for any array, so float32
forces were sent as half as many bytes as i-PI reads, and the two sides
lost step.
---
 drivers/py/driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index b1fb4f3..bb3e26c 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -243,13 +243,13 @@ def run_driver(
             sock.sendall(Message("FORCEREADY"))
 
             # sanity check in the returned values (catches bugs and inconsistencies in the implementation)
-            if not isinstance(force, np.ndarray) and force.dtype == np.float64:
+            if not (isinstance(force, np.ndarray) and force.dtype == np.float64):
                 raise ValueError(
                     "driver returned forces with the wrong type: we need a "
                     "numpy.ndarray containing 64-bit floating points values"
                 )
 
-            if not isinstance(vir, np.ndarray) and vir.dtype == np.float64:
+            if not (isinstance(vir, np.ndarray) and vir.dtype == np.float64):
                 raise ValueError(
                     "driver returned virial with the wrong type: we need a "
                     "numpy.ndarray containing 64-bit floating points values"
-- 
2.43.0


From 592db935a18d9a8cf49b23327d7505041b3c8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:49 +0000
Subject: [PATCH 54/55] fix: accept extra strings that are JSON values but not
 objects

A driver returning e.g. '1.5' or '[1, 2]' as extra string is valid JSON
without fields; parse_extra raised TypeError instead of keeping the
string under 'raw'.
---
 ipi/interfaces/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/interfaces/utils.py b/ipi/interfaces/utils.py
index 8fe8962..b704d43 100644
--- a/ipi/interfaces/utils.py
+++ b/ipi/interfaces/utils.py
@@ -19,6 +19,9 @@ def parse_extra(mxtra):
     except Exception:
         # not JSON: still expose the literal string under 'raw'
         mxtradict = {}
+    if not isinstance(mxtradict, dict):
+        # valid JSON without fields (a number, a list...)
+        mxtradict = {}
     if "raw" in mxtradict:
         raise ValueError(
             "'raw' cannot be used as a field in a JSON-formatted extra string"
-- 
2.43.0


From 1bdecdf8c3997d2a3e8dd4b92fa0d3eba0337502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:14 +0000
Subject: [PATCH 55/55] fix: fill the requested array in the threaded random
 number generator

---
 ipi/utils/prng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/utils/prng.py b/ipi/utils/prng.py
index 890907f..1d86eae 100644
--- a/ipi/utils/prng.py
+++ b/ipi/utils/prng.py
@@ -204,6 +204,8 @@ class Random(object):
                     )
                 ] = i
             concurrent.futures.wait(futures)
+            # out_flat is a copy, so the random numbers must be put in the array
+            out[...] = out_flat.reshape(out.shape)
 
     def gvec_serial(self, shape):
         """Interface to the standard_normal array function.
-- 
2.43.0

