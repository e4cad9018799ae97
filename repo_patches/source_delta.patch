From 437f3852dcd1d8d8176d84eceeb2e3ad4f332669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 01/99] fix: CCDRedistNormal redraws energies only for photons
 that hit

---
 marxs/optics/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 755c282..7d8f813 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -194,7 +194,7 @@ class CCDRedistNormal(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         # Implicit unit of photon energy is keV, but here we need it written out.
-        phot_en = u.Quantity(photons["energy"])
+        phot_en = u.Quantity(photons["energy"][intersect], u.keV)
         det_en = norm.rvs(
             loc=phot_en,
             scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()),
-- 
2.43.0


From 2af5bafcf08fb7a835bbcdc296b6641655449225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 02/99] fix: L2 bars at steep angles absorb all light instead
 of raising an error

---
 marxs/missions/mitsnl/catgrating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 414e64c..2f0964e 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -251,7 +251,8 @@ class L2Abs(FlatOpticalElement):
         totalarea = self.period**2 / 2 * np.sqrt(3)
         shadowfraction = shadowarea / totalarea
 
-        return {'probability': openfraction - shadowfraction}
+        # At steep angles the shadow of the bars covers all the open area
+        return {'probability': np.clip(openfraction - shadowfraction, 0, 1)}
 
 
 class L2Diffraction(RandomGaussianScatter):
-- 
2.43.0


From 1ceb27124e16c8f5527dbaecd833b4231c21778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 03/99] fix: LabPointSourceCone works for cones along the z
 axis

---
 marxs/source/labSource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 42c5d46..72c361d 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -119,8 +119,11 @@ class LabPointSourceCone(Source):
         # Now we rotate dir to align with the given direction: self.dir
         # To find axis of rotation: cross self.dir with z
         axis = np.cross(h2e(self.dir), [0, 0, 1])
+        if np.allclose(axis, 0):
+            # parallel or anti-parallel to z; any axis in the x-y plane will do
+            axis = np.array([1., 0., 0.])
 
-        angle = np.arccos(self.dir[2]) # Simplified
+        angle = np.arccos(np.clip(self.dir[2], -1, 1)) # Simplified
 
         rotationMatrix = transforms3d.axangles.axangle2aff(axis, -angle)
 
-- 
2.43.0


From 1f7d74283d85e601470e8b1f30b10f17f5456ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 04/99] fix: elements_of_class searches inside matching
 containers and hands down stop_at_first

---
 marxs/simulator/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 7d034eb..e81d8b6 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -94,10 +94,10 @@ class BaseContainer(SimulationSequenceElement):
                 return a
 
         for e in self.elements:
-            if compfunc(e, cls):
+            if hasattr(e, 'elements_of_class'):
+                a += e.elements_of_class(cls, subclass_ok, stop_at_first)
+            elif compfunc(e, cls):
                 a += [e]
-            elif hasattr(e, 'elements_of_class'):
-                a += e.elements_of_class(cls, subclass_ok)
         return a
 
 
-- 
2.43.0


From c42eb6b2ce4a5e063a8e0de424f6de9b0044fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:01 +0000
Subject: [PATCH 05/99] fix: Parallel.move_center keeps members in place for
 every orientation of the group

---
 marxs/simulator/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index e81d8b6..712dfcb 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -376,8 +376,9 @@ class Parallel(BaseContainer):
         change4d : np.array of shape (4,4)
             Homogeneous coordinate transformation matrix
         '''
-        self.geometry.pos4d = np.dot(change4d, self.pos4d)
-        inv = np.linalg.inv(change4d)
+        old_pos4d = self.pos4d
+        self.geometry.pos4d = np.dot(change4d, old_pos4d)
+        inv = np.dot(np.linalg.inv(self.pos4d), old_pos4d)
         self.elem_pos = [np.dot(inv, p) for p in self.elem_pos]
         self.generate_elements()
 
-- 
2.43.0


From dccfdaa017266e498e5ac3ea13e76c111039ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 06/99] fix: surface normal of cylinders with elliptical
 profile

---
 marxs/math/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/math/geometry.py b/marxs/math/geometry.py
index 3780123..bec2a38 100644
--- a/marxs/math/geometry.py
+++ b/marxs/math/geometry.py
@@ -616,6 +616,8 @@ class Cylinder(Geometry):
         e_n = np.array([np.cos(phi), np.sin(phi), zeros, zeros]).T
 
         e_phi = np.einsum('...ij,...j', self.pos4d, e_phi)
-        e_n = np.einsum('...ij,...j', self.pos4d, e_n)
+        # Normal vectors transform with the inverse transpose. That makes a
+        # difference for elliptical profiles.
+        e_n[:, :3] = np.dot(e_n[:, :3], np.linalg.inv(self.pos4d[:3, :3]))
         # e_z is already in the local coordinate system
         return norm_vector(e_phi), e_z, norm_vector(e_n)
-- 
2.43.0


From 41a1290d387ef3110bc0fc90522c55162900ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 07/99] fix: order selectors tolerate rounding in total
 efficiencies and opaque energies

---
 marxs/missions/mitsnl/catgrating.py |  3 ++-
 marxs/optics/grating.py             | 30 +++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 2f0964e..108a3a6 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -19,6 +19,7 @@ from marxs.optics import (CATGrating,
                           OrderSelector, FlatStack,
                           FlatOpticalElement)
 from marxs.math.utils import norm_vector
+from marxs.optics.grating import clip_rounding
 from marxs.optics.scatter import RandomGaussianScatter
 from marxs.utils import tablerows_to_2d
 
@@ -141,7 +142,7 @@ class InterpolateEfficiencyTable(object):
         cumprob = np.cumsum(interpprobs, axis=0) / totalprob
         ind_orders = np.argmax(cumprob > np.random.rand(len(energies)), axis=0)
 
-        return orders[ind_orders], totalprob
+        return orders[ind_orders], clip_rounding(totalprob)
 
 
 class QualityFactor(FlatOpticalElement):
diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 4b66c0d..4cb8b65 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -9,6 +9,23 @@ from .. import energy2wave
 from .base import FlatOpticalElement
 
 
+def clip_rounding(p):
+    '''Limit total probabilities that exceed 1 only because of rounding errors.
+
+    Parameters
+    ----------
+    p : np.array
+        (Total) probabilities
+
+    Returns
+    -------
+    p : np.array
+        Probabilities where values above 1 by no more than rounding error are
+        replaced with 1.
+    '''
+    return np.where((p > 1.) & (p < 1. + 1e-9), 1., p)
+
+
 class OrderSelector(object):
     '''Select from a list of order numbers independent of energy.
 
@@ -42,7 +59,7 @@ class OrderSelector(object):
             p = np.asanyarray(p)
             if len(p) != len(orderlist):
                 raise ValueError('Number of elements in orderlist and probabilities does not match.')
-            if p.sum() > 1.:
+            if clip_rounding(p.sum()) > 1.:
                 raise ValueError('Sum of all probabilities must be <= 1.')
             if np.any(p < 0):
                 raise ValueError('Probabilities cannot be negative')
@@ -51,10 +68,11 @@ class OrderSelector(object):
     def __call__(self, energy, *args):
         p_sum = self.p.sum()
         p = self.p / p_sum
+        p_total = clip_rounding(p_sum)
         if np.isscalar(energy):
-            return np.random.choice(self.orderlist, p=p), self.p.sum()
+            return np.random.choice(self.orderlist, p=p), float(p_total)
         else:
-            return np.random.choice(self.orderlist, size=len(energy), p=p), p_sum * np.ones_like(energy)
+            return np.random.choice(self.orderlist, size=len(energy), p=p), p_total * np.ones_like(energy)
 
 
 class EfficiencyFile(object):
@@ -85,7 +103,11 @@ class EfficiencyFile(object):
         # Probability to end up in any order
         self.totalprob = np.sum(self.prob, axis=1)
         # Cumulative probability for orders, normalized to 1.
-        self.cumprob = np.cumsum(self.prob, axis=1) / self.totalprob[:, None]
+        # If no photons pass at some energy, the order is arbitrary.
+        norm = np.where(self.totalprob > 0, self.totalprob, 1.)
+        self.cumprob = np.cumsum(self.prob, axis=1) / norm[:, None]
+        self.cumprob[self.totalprob == 0, :] = 1.
+        self.totalprob = clip_rounding(self.totalprob)
 
     def __call__(self, energies, *args):
         orderind = np.empty(len(energies), dtype=int)
-- 
2.43.0


From 76a45e93b4ff9f7c89e7fbb45cf3117be01f78c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:46 +0000
Subject: [PATCH 08/99] fix: CCDRedistNormal does not modify the table of
 widths it is given

---
 marxs/optics/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 7d8f813..27c6018 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -159,7 +159,8 @@ class CCDRedistNormal(FlatOpticalElement):
     energycol = "energy_detected"
 
     def __init__(self, **kwargs):
-        self.tab_width = kwargs.pop("tab_width")
+        # Operate on a copy, because a column might be added below.
+        self.tab_width = kwargs.pop("tab_width").copy()
         if 'sigma' not in self.tab_width.colnames:
             self.tab_width['sigma'] = self.tab_width['FWHM'] / self.fwhm2sig
         super().__init__(**kwargs)
-- 
2.43.0


From ca36b12cb3ca394e7a4f9544094e706ad6a89d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 09/99] fix: apertures do not write their inner radius into the
 class

---
 marxs/math/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/math/geometry.py b/marxs/math/geometry.py
index bec2a38..a29a9ee 100644
--- a/marxs/math/geometry.py
+++ b/marxs/math/geometry.py
@@ -288,8 +288,10 @@ class PlaneWithHole(FinitePlane):
     inner_factor = 0
 
     def __init__(self, kwargs):
-        self._geometry['r_inner'] = kwargs.pop('r_inner', 0.)
+        r_inner = kwargs.pop('r_inner', 0.)
         super().__init__(kwargs)
+        # Set only now, because before ``self._geometry`` is a class attribute
+        self._geometry['r_inner'] = r_inner
 
     def triangulate(self, display={}):
         '''Return a triangulation of the aperture hole embedded in a square.
-- 
2.43.0


From 8834bfe57445f41dcf4f939a4badc84cd2db1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 10/99] fix: mirror coating of PerfectLensSegment is evaluated
 at the photon energy in keV

---
 marxs/missions/lynx/mirror.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 68879a7..c93ffce 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -1,5 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
 import numpy as np
+import astropy.units as u
 from copy import deepcopy
 from scipy.interpolate import interp1d, RectBivariateSpline
 from astropy.table import Table
@@ -88,8 +89,12 @@ class PerfectLensSegment(optics.PerfectLens):
         super().__init__(focallength=conf["focallength"], **kwargs)
         refl =  Table.read(get_pkg_data_filename(f"data/{conf['mirrorcoating']}"),
                            format='ascii.ecsv')
+        # Energies in the file are in eV, photon energies are in keV.
+        # Linear interpolation, because higher order splines overshoot to
+        # reflectivities > 1 around the absorption edges.
         self.reflectivity_interpolator = RectBivariateSpline(
-            refl["energy"],
+            refl["energy"].to(u.keV).value,
             [np.deg2rad(float(c)) for c in refl.colnames[1:]],
             np.stack([refl[c] for c in refl.columns[1:]]).T,
+            kx=1, ky=1,
         )
-- 
2.43.0


From 3a14d601c0b6fef949a4134a13ee37622abf385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 11/99] fix: MetaShellAperture records the serial number of the
 shell

---
 marxs/missions/lynx/mirror.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index c93ffce..b4c6f03 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -22,6 +22,10 @@ class MetaShellAperture(optics.MultiAperture):
         kwargs['elements'] = elements
         kwargs['id_col'] = 'shell'
         super().__init__(**kwargs)
+        # MultiAperture numbers its elements from 0, but the efficiencies are
+        # listed by serial number.
+        for elem, shell in zip(self.elements, metashellgeometry):
+            elem.id_num = shell['Metashell Serial Number']
         disp = {'color': (0.0, 0.75, 0.75),
                 'opacity': 0.3,
                 'shape': 'triangulation',
-- 
2.43.0


From 25d370a5f8d00ef82e5371bd6398d63fc3c79f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 12/99] fix: PerfectLens gives a valid reflectivity for photons
 through its center

---
 marxs/optics/mirror.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/mirror.py b/marxs/optics/mirror.py
index 0426047..e556f63 100644
--- a/marxs/optics/mirror.py
+++ b/marxs/optics/mirror.py
@@ -65,11 +65,15 @@ class PerfectLens(FlatOpticalElement):
             dir,
             photons["polarization"].data[intersect, :],
         )
+        # Rounding can make the product of two unit vectors larger than 1
         angle = np.arccos(
-            np.abs(
-                np.einsum(
-                    "ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect]))
-                )
+            np.clip(
+                np.abs(
+                    np.einsum(
+                        "ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect]))
+                    )
+                ),
+                0, 1,
             )
         )
         return {
-- 
2.43.0


From 4e2db95515742f72d02339894666fed7fefbd171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 13/99] fix: scatter works for rays through the center and
 records zero angles for zero width

---
 marxs/optics/scatter.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/marxs/optics/scatter.py b/marxs/optics/scatter.py
index 573cf46..5105846 100644
--- a/marxs/optics/scatter.py
+++ b/marxs/optics/scatter.py
@@ -50,7 +50,16 @@ class RadialMirrorScatter(FlatOpticalElement):
         n = intersect.sum()
         center = self.pos4d[:-1, -1]
         radial = h2e(photons['pos'][intersect].data) - center
-        perpplane = np.cross(h2e(photons['dir'][intersect].data), radial)
+        pdir = norm_vector(h2e(photons['dir'][intersect].data))
+        perpplane = np.cross(pdir, radial)
+        # The plane of reflection is not defined for rays that pass through
+        # the center of the element. Any plane is as good as any other.
+        degenerate = (np.linalg.norm(perpplane, axis=1) <=
+                      1e-12 * np.linalg.norm(radial, axis=1))
+        if degenerate.any():
+            radial[degenerate] = np.cross(
+                pdir[degenerate], np.eye(3)[np.argmin(np.abs(pdir[degenerate]), axis=1)])
+            perpplane[degenerate] = np.cross(pdir[degenerate], radial[degenerate])
 
         # np.random.normal does not work with scale=0
         # so special case that here.
@@ -113,8 +122,7 @@ class RandomGaussianScatter(FlatOpticalElement):
         with u.set_enabled_equivalencies(u.dimensionless_angles()):
             scatterzero = self.scatter == 0
         if scatterzero:
-            angle = np.zeros(n)
-            out = {}
+            out = {self.scattername: np.zeros(n)}
         else:
             pdir = norm_vector(h2e(photons['dir'][intersect].data))
             # Now, find a direction that is perpendicular to the photon direction
-- 
2.43.0


From db261cbc9fab889e3fa45a9b1c8469a265e7d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 14/99] fix: polarization behind a mirror mixes s and p
 amplitudes, not intensities

---
 marxs/optics/multiLayerMirror.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marxs/optics/multiLayerMirror.py b/marxs/optics/multiLayerMirror.py
index 90fa46c..e8a8eb1 100644
--- a/marxs/optics/multiLayerMirror.py
+++ b/marxs/optics/multiLayerMirror.py
@@ -71,10 +71,11 @@ class FlatBrewsterMirror(FlatOpticalElement):
 
         fresnel_refl_s, fresnel_refl_p = self.fresnel(photons, intersect,
                                                       intersection, local)
+        # Reflectivities apply to the intensity, thus use sqrt for amplitudes
+        Es = np.sqrt(fresnel_refl_s) * p_v_s
+        Ep = np.sqrt(fresnel_refl_p) * p_v_p
         # Calculate new intensity ~ (E_x)^2 + (E_y)^2
-        Es2 = fresnel_refl_s * p_v_s ** 2
-        Ep2 = fresnel_refl_p * p_v_p ** 2
-        intensity = Es2 + Ep2
+        intensity = Es**2 + Ep**2
         # Sometimes, the numerics in the square make probabilities > 1
         # So, we clip, but raise an error is it's >> 1
         if np.any(intensity > 1.001):
@@ -83,8 +84,8 @@ class FlatBrewsterMirror(FlatOpticalElement):
         # parallel transport of polarization vector
         # v_s stays the same by definition
         new_v_p = np.cross(h2e(new_beam_dir), v_s)
-        new_pol = norm_vector(-Es2[:, np.newaxis] * v_s +
-                              Ep2[:, np.newaxis] * new_v_p)
+        new_pol = norm_vector(-Es[:, np.newaxis] * v_s +
+                              Ep[:, np.newaxis] * new_v_p)
 
         return {'dir': new_beam_dir,
                 'probability': np.clip(intensity, 0, 1),
-- 
2.43.0


From fd25f923634567cf3347c15fbbc462ad98220f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 15/99] fix: mirrors at normal incidence give a valid
 reflection probability

---
 marxs/optics/multiLayerMirror.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/optics/multiLayerMirror.py b/marxs/optics/multiLayerMirror.py
index e8a8eb1..fa23e1b 100644
--- a/marxs/optics/multiLayerMirror.py
+++ b/marxs/optics/multiLayerMirror.py
@@ -62,6 +62,9 @@ class FlatBrewsterMirror(FlatOpticalElement):
 
         # First, make basis vectors.
         v_s = np.cross(beam_dir, self.geometry['e_x'][0:3])
+        # At normal incidence there is no unique plane of incidence
+        normal = np.linalg.norm(v_s, axis=1) < 1e-12
+        v_s[normal] = self.geometry['e_y'][0:3]
         v_s /= np.linalg.norm(v_s, axis=1)[:, np.newaxis]
         v_p = np.cross(beam_dir, v_s)
 
-- 
2.43.0


From 7a5d379cbf9b8638d1c711910a4e4c5f0065053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 16/99] fix: poisson_process terminates when few photons are
 expected

---
 marxs/source/basesources.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index df749a8..a044942 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -67,12 +67,13 @@ def poisson_process(rate: (u.s * u.cm**2)**(-1)):
         '''
         fullrate = rate * geomarea
         # Make 10 % more numbers then we expect to need, because it's random
+        # (and always at least one).
         times = expon.rvs(scale=1./fullrate.to(1 / u.s),
-                          size=int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)))
+                          size=int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)) + 1)
         # If we don't have enough numbers right now, add some more.
         while (times.sum() * u.s) < exposuretime:
             times = np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),
-                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
+                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)) + 1)])
         times = np.cumsum(times) * u.s
         return times[times < exposuretime]
     return poisson_rate
-- 
2.43.0


From e0510b031b776d83acba10b2040036d09d57c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 17/99] fix: RandomArbitraryPdf rejects tables without any
 probability

---
 marxs/math/random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/math/random.py b/marxs/math/random.py
index a26d1aa..233a5a6 100644
--- a/marxs/math/random.py
+++ b/marxs/math/random.py
@@ -64,6 +64,8 @@ class RandomArbitraryPdf(object):
         if not np.all(self.bin_width >=0):
             raise ValueError('x must be input in increasing order.')
         pdf = np.asarray(pdf) * self.bin_width
+        if not pdf.sum() > 0:
+            raise ValueError('pdf must be positive in at least one bin of non-zero width.')
         self.sort = sort
         self.randomize_in_bin = randomize_in_bin
 
-- 
2.43.0


From 77ca06e33e831686300a0f3e6ae80193f9da9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 18/99] fix: find_best_detector_position works when trial
 positions are behind the photons

---
 marxs/analysis/analysis.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marxs/analysis/analysis.py b/marxs/analysis/analysis.py
index 4da43bc..98cd676 100644
--- a/marxs/analysis/analysis.py
+++ b/marxs/analysis/analysis.py
@@ -74,7 +74,15 @@ def find_best_detector_position(photons,
         mdet = FlatDetector(position=np.dot(orientation, np.array([x, 0, 0])),
                             orientation=orientation,
                             zoom=1e5, pixsize=1.)
-        p = mdet(photons.copy())
+        p = photons.copy()
+        # Rays might start behind the trial position of the detector. Follow
+        # each ray (possibly backwards) to a point just in front of it.
+        dist = np.dot(mdet.geometry['center'] - p['pos'], mdet.geometry['e_x'])
+        with np.errstate(divide='ignore'):
+            k = dist / np.dot(p['dir'], mdet.geometry['e_x'])
+        k = np.where(np.isfinite(k), k, 0)
+        p['pos'] = p['pos'] + (k - 1)[:, None] * p['dir']
+        p = mdet(p)
         return objective_func(p, **objective_func_args)
 
     return scipy.optimize.minimize_scalar(width, args=(photons,),
-- 
2.43.0


From 3a955dcfe4d8283e541a41b2fcd4ba37d2ab2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 19/99] fix: radial distances of extended sources are true
 angular separations for large radii

---
 marxs/source/basesources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index a044942..95b88da 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -384,7 +384,8 @@ class RadialDistributionSource(AstroSource):
         n = len(photons)
         phi = np.random.rand(n) * 2. * np.pi * u.rad
         d = self.func(n)
-        relative_coords = SkyCoord(d * np.sin(phi), d * np.cos(phi),
+        relative_coords = SkyCoord(np.arctan2(np.sin(d) * np.sin(phi), np.cos(d)),
+                                   np.arcsin(np.sin(d) * np.cos(phi)),
                                    frame=relative_frame)
         origin_coord = relative_coords.transform_to(self.coords)
         self.set_pos(photons, origin_coord)
-- 
2.43.0


From 0261305f8855d36639642628bcc939ac8c537a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 20/99] fix: SymbolFSource has the requested size at any
 declination and in any coordinate frame

---
 marxs/source/basesources.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 95b88da..77e25e2 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -511,8 +511,9 @@ class SymbolFSource(AstroSource):
         n = len(photons)
         elem = np.random.choice(3, size=n)
 
-        ra = np.ones(n) * self.coords.icrs.ra
-        dec = np.ones(n) * self.coords.icrs.dec
+        # Offsets on the sky in the direction of east (ra) and north (dec)
+        ra = np.zeros(n) * self.size
+        dec = np.zeros(n) * self.size
         size = self.size
         ra[elem == 0] += size * np.random.random(np.sum(elem == 0))
         ra[elem == 1] += size
@@ -520,6 +521,8 @@ class SymbolFSource(AstroSource):
         ra[elem == 2] += 0.8 * size
         dec[elem == 2] += 0.3 * size * np.random.random(np.sum(elem == 2))
 
-        self.set_pos(photons, SkyCoord(ra, dec, frame=self.coords))
+        relative_frame = SkyOffsetFrame(origin=self.coords.icrs)
+        relative_coords = SkyCoord(ra, dec, frame=relative_frame)
+        self.set_pos(photons, relative_coords.transform_to(self.coords.icrs))
 
         return photons
-- 
2.43.0


From 6ba1beb36ce176f78f5b161af27fc3d69d618545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:12 +0000
Subject: [PATCH 21/99] fix: LissajousDither works for dither in roll and for
 empty photon lists

---
 marxs/missions/chandra/dither.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 589a272..ed6fd8a 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -84,9 +84,9 @@ class LissajousDither(FixedPointing):
         pointing_dir = np.zeros_like(dither.value)
 
         # common case for Chandra
-        if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
+        constant_roll = len(roll) > 0 and np.all(roll == roll[0])
+        if constant_roll:
             mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
-            constant_roll = True
 
         for i in range(len(time)):
             if not constant_roll:
-- 
2.43.0


From a9c9a9a17d62a8b173264cd1b2e1b39f93ab3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:14 +0000
Subject: [PATCH 22/99] fix: LissajousDither.write_asol writes the aspect
 solution

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index ed6fd8a..03af187 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -151,7 +151,7 @@ class LissajousDither(FixedPointing):
 
         '''
         time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
-        pointing = self.pointing(time).to(u.deg).value
+        pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
                      )
-- 
2.43.0


From 0671c5ba64b78537cb73b33e6e63021f5b9ca726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:14 +0000
Subject: [PATCH 23/99] fix: LissajousDither honours reference_transform for
 photon directions

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 03af187..4c55f3b 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -129,7 +129,7 @@ class LissajousDither(FixedPointing):
 
             photons_dir[i, :3] = np.dot(mat3d.T, photons_dir[i, :3])
 
-        return photons_dir
+        return np.einsum('...ij,...j->...i', self.reference_transform, photons_dir)
 
     def write_asol(self, photons, asolfile, timestep=0.256):
         '''Write an aspect solution (asol) file
-- 
2.43.0


From 92160fb0d65ad52eeb8b6c88382dbb102d5b4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:14 +0000
Subject: [PATCH 24/99] fix: pointing takes the unit of the polangle column
 into account

---
 marxs/source/pointing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 8d26938..d7a9db3 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -156,7 +156,7 @@ class FixedPointing(PointingModel):
                                                    unit='deg'),
                                           photons['time'].data)
         photons['polarization'] = self.photons_pol(photons['dir'].data,
-                                                   photons['polangle'].data,
+                                                   photons['polangle'],
                                                    photons['time'].data)
         photons.meta['RA_PNT'] = (self.coords.ra.degree, '[deg] Pointing RA')
         photons.meta['DEC_PNT'] = (self.coords.dec.degree,
-- 
2.43.0


From 75bff3ab0da36708fb4d74e9a924b4249eac4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:14 +0000
Subject: [PATCH 25/99] fix: pointings accept target coordinates in any frame

---
 marxs/source/pointing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index d7a9db3..91bacf5 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -84,7 +84,9 @@ class FixedPointing(PointingModel):
     determines the position of the coordinate system.
     '''
     def __init__(self, **kwargs):
-        self.coords = kwargs.pop('coords')
+        # ra, dec of photons are ICRS, and roll and polarization angles are
+        # measured from the celestial north, so use the same system here.
+        self.coords = kwargs.pop('coords').icrs
         if not self.coords.isscalar:
             raise ValueError("Coordinate must be scalar, not array.")
         self.roll = kwargs.pop('roll', 0. * u.rad)
-- 
2.43.0


From 10b8843b7e48b44dbc1be22573b8bf64db7a2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:14 +0000
Subject: [PATCH 26/99] fix: JitterPointing jitters around axes perpendicular
 to the optical axis for every reference_transform

---
 marxs/source/pointing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 91bacf5..ae9755c 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -201,6 +201,8 @@ class JitterPointing(FixedPointing):
         n = len(photons)
         randang = np.random.rand(n) * 2. * np.pi
         ax = np.vstack([np.zeros(n), np.sin(randang), np.cos(randang)]).T
+        # axis is perpendicular to the optical axis
+        ax = np.dot(ax, self.reference_transform[:3, :3].T)
         if self.jitter > 0:
             # For comparison it's often useful to run a model with jitter=0
             # but that would fail np.random.normal(scale=0)
-- 
2.43.0


From 3dc7cb82614b70723a5011794a9b9712573662ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:05 +0000
Subject: [PATCH 27/99] fix: FarLabPointSource emits unit directions

---
 marxs/source/labSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 72c361d..7ecbcb6 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -7,7 +7,7 @@ import transforms3d
 from ..optics.base import FlatOpticalElement
 from .basesources import Source
 from ..math.polarization import polarization_vectors
-from ..math.utils import h2e, e2h
+from ..math.utils import h2e, e2h, norm_vector
 
 
 class FarLabPointSource(Source, FlatOpticalElement):
@@ -51,6 +51,7 @@ class FarLabPointSource(Source, FlatOpticalElement):
                         pos[1, :] - self.sourcePos[1],
                         pos[2, :] - self.sourcePos[2],
                         np.zeros(n)])
+        dir = norm_vector(dir.T).T
         photons['pos'] = pos.T
         photons['dir'] = dir.T
         photons['polarization'] = polarization_vectors(dir.T, photons['polangle'])
-- 
2.43.0


From b373fa012a481f49c0d68470e874e4736f4a6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:10 +0000
Subject: [PATCH 28/99] fix: Q_reflection accepts arrays of shape (n, 4)

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 7391b5f..6bfc724 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -82,7 +82,7 @@ def Q_reflection(delta_dir):
     q : np.array of shape (n, 4, 4)
         Array of parallel transport ray tracing matrices.
     '''
-    if delta_dir.shape != 2:
+    if delta_dir.ndim != 2:
         raise ValueError('delta_dir must have dimension (n, 4).')
     m = delta_dir[..., None, :] * delta_dir[..., :, None]
     return np.eye(4) - 2 / (np.linalg.norm(delta_dir, axis=1)**2)[:, None, None] * m
-- 
2.43.0


From 3ee602d1ce6337ba68dcb30d9a28c045ad6d5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:10 +0000
Subject: [PATCH 29/99] fix: parallel_transport passes on its keyword arguments

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 6bfc724..836b11d 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -164,6 +164,6 @@ def parallel_transport(dir_old, dir_new, pol_old, **kwargs):
     pol : np.array of shape (m, 4)
         Parallel transported vectors.
     '''
-    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3])
+    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3], **kwargs)
     out = np.einsum('ijk,ik->ij', pmat, pol_old[:, :3])
     return e2h(out, 0)
-- 
2.43.0


From d4d5094fa546afd1d680f844711fb6ff8aece39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:10 +0000
Subject: [PATCH 30/99] fix: h2e divides by the last component also if that is
 close to 1

---
 marxs/math/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/utils.py b/marxs/math/utils.py
index 0bae4e9..f5dcff6 100644
--- a/marxs/math/utils.py
+++ b/marxs/math/utils.py
@@ -54,7 +54,7 @@ def h2e(h):
         Euclidean coordinates. Same shape as ``e`` except that the last
         last dimension is now has 3 elements.
     '''
-    if np.all(h[..., 3] == 0) or np.allclose(h[..., 3], 1):
+    if np.all(h[..., 3] == 0) or np.all(h[..., 3] == 1):
         return h[..., :3]
     elif np.all(h[..., 3] != 0):
         return (h[..., :3] / h[..., 3][..., None])
-- 
2.43.0


From 4d8f982a86c9339784a2b68dbe3839581bf6d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:10 +0000
Subject: [PATCH 31/99] fix: angle_line_plane works for arrays of lines and for
 lines along the normal

---
 marxs/math/pluecker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/math/pluecker.py b/marxs/math/pluecker.py
index 302448f..9e6dc3a 100644
--- a/marxs/math/pluecker.py
+++ b/marxs/math/pluecker.py
@@ -19,9 +19,10 @@ def angle_line_plane(p_line, h_plane):
     -------
     angle : array-like
     '''
-    l = p_line[:3]
+    l = p_line[..., :3]
     p = h_plane[:3]
-    return np.arccos(np.dot(l, p) / (np.linalg.norm(l) * np.linalg.norm(p)))
+    cos = np.dot(l, p) / (np.linalg.norm(l, axis=-1) * np.linalg.norm(p))
+    return np.arccos(np.clip(cos, -1, 1))
 
 
 #  @ L = {U:V}, with 3-tuples U and V, with U.V = 0, and with U non-null.
-- 
2.43.0


From f35be1a61f2a712e3dea5915e38c77cfb051be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 32/99] fix: torus parameters for points with theta = +-90 deg
 and on the inner surface of spindle tori

---
 marxs/design/rowland.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1116e68..1471efd 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -266,9 +266,12 @@ class RowlandTorus(MarxsElement, Geometry):
 
         if not np.allclose(self.quartic(xyz, transform=False) / self.R**4., 0.):
             raise ValueError('Parametric representation is only defined for points on torus surface.')
-        # There are two branches and we can use the sign to distinguish between them
-        s = np.sign(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) - self.R)
-        theta = np.arcsin(s * xyz[:, 1] / self.r) + (s < 0) * np.pi
+        # The distance from the symmetry axis is the absolute value of
+        # R + r * cos(theta). That can be negative for r > R.
+        rho = np.sqrt(xyz[:, 0]**2 + xyz[:, 2]**2)
+        on_circle = lambda d: np.abs((d - self.R)**2 + xyz[:, 1]**2 - self.r**2)
+        rho = np.where(on_circle(-rho) < on_circle(rho), -rho, rho)
+        theta = np.arctan2(xyz[:, 1], rho - self.R)
 
         factor = self.R + self.r * np.cos(theta)
         phi = np.zeros_like(factor)
-- 
2.43.0


From f44ec341653a9e520ecc900483471531c3fb7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 33/99] fix: RowlandTorus.xyzw2parametric works with
 intersectvalid=False

---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1471efd..e109de6 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -278,7 +278,7 @@ class RowlandTorus(MarxsElement, Geometry):
         ind = factor != 0
         phi[ind] = np.arctan2(xyz[ind, 2] / factor[ind], xyz[ind, 0] / factor[ind])
         if not intersectvalid:
-            phi[~factor] = np.nan
+            phi[~ind] = np.nan
 
         return theta, phi
 
-- 
2.43.0


From 738340511de07198bbaab06bfa52850f69ed6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 34/99] fix: normals of a Rowland torus with zoom

---
 marxs/design/rowland.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index e109de6..e47f8c8 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -21,7 +21,7 @@ import transforms3d
 from ..optics.base import OpticalElement
 from ..base import MarxsElement
 from ..optics import FlatDetector
-from ..math.utils import e2h, h2e, anglediff
+from ..math.utils import e2h, h2e, anglediff, norm_vector
 from ..simulator import ParallelCalculated
 from ..math.geometry import Geometry
 
@@ -307,7 +307,9 @@ class RowlandTorus(MarxsElement, Geometry):
         normal[:, 1] = np.sin(theta)
         normal[:, 2] = np.cos(theta) * np.sin(phi)
 
-        return np.einsum('...ij,...j', self.pos4d, e2h(normal, 0))
+        # Normals transform with the inverse transpose
+        normal = np.einsum('...ij,...j', np.linalg.inv(self.pos4d[:3, :3]).T, normal)
+        return e2h(norm_vector(normal), 0)
 
     def normal(self, xyzw):
         '''Return the gradient vector field.
-- 
2.43.0


From 7a63d1e48d04f06f9354083e89674ec056d4aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 35/99] fix: GratingArrayStructure accepts a single number for
 phi

---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index e47f8c8..8114e13 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -870,8 +870,8 @@ class GratingArrayStructure(ElementsOnTorus):
             The phi angles for centers of the elements at ``radius``.
 
         '''
-        if len(self.phi) == 1:
-            return self.phi
+        if np.size(self.phi) == 1:
+            return np.atleast_1d(self.phi)
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
         element_angle = self.d_element[1] / (2. * np.pi * radius)
-- 
2.43.0


From 2f378da6dc86698da8c0b80b64267db4d7a2bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 36/99] fix: RectangularGrid places one element if both limits
 are the same

---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 8114e13..20ec767 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -695,8 +695,8 @@ class RectangularGrid(ElementsOnTorus):
         width_y = n_y * self.d_element[0]
         width_z = n_z * self.d_element[1]
 
-        ypos = np.arange(0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]), self.y_range[1], self.d_element[0])
-        zpos = np.arange(0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]), self.z_range[1], self.d_element[1])
+        ypos = 0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]) + np.arange(n_y) * self.d_element[0]
+        zpos = 0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]) + np.arange(n_z) * self.d_element[1]
 
         ypos, zpos = np.meshgrid(ypos, zpos)
 
-- 
2.43.0


From 4641125b86d8d3042d1f82d0e641c088c94ab1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 37/99] fix: RowlandTorus.xyz_from_radiusangle works for arrays

---
 marxs/design/rowland.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 20ec767..73fd758 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -361,13 +361,15 @@ class RowlandTorus(MarxsElement, Geometry):
         xyz : np.array of shape (n, 3)
             Euclidean coordinates in the global coordinate system.
         '''
-        y = radius * np.cos(angle)
-        z = radius * np.sin(angle)
+        y = np.atleast_1d(radius * np.cos(angle))
+        z = np.atleast_1d(radius * np.sin(angle))
         # Use np.mean for backwards compatibility.
         # This used to take a bracketing interval instead of a first guess.
-        out = self.solve_quartic(np.array([np.mean(start), y, z, 1]),
-                               np.array([1, 0, 0, 0]),
-                               transform=False)
+        # solve_quartic is not vectorized.
+        out = np.vstack([self.solve_quartic(np.array([np.mean(start), y[i], z[i], 1]),
+                                            np.array([1, 0, 0, 0]),
+                                            transform=False)
+                         for i in range(len(y))])
         return h2e(np.einsum('...ij,...j', self.pos4d, out))
 
 
-- 
2.43.0


From 16a0f301c14829b04d332ac97096169e382c2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 38/99] fix: elements in a CircularMeshGrid do not overlap next
 to the inner radius

---
 marxs/design/rowland.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 73fd758..d9368a0 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -752,8 +752,13 @@ class CircularMeshGrid(ElementsOnTorus):
                     z_mid = 0.5 * (z_inner + z_outer)
                     n_z = int(np.ceil((z_outer - z_inner) / self.d_element[1]))
                     z_width = n_z * self.d_element[1]
-                    z = np.arange(z_mid - z_width / 2, z_outer, self.d_element[1])
-                    z = np.hstack([-z, z])
+                    if z_mid - z_width / 2 >= self.d_element[1] / 2:
+                        z = np.arange(z_mid - z_width / 2, z_outer, self.d_element[1])
+                        z = np.hstack([-z, z])
+                    else:
+                        # No space for the hole: both halves would overlap
+                        n_z = int(np.ceil(2 * z_outer / self.d_element[1]))
+                        z = np.arange(- n_z * self.d_element[1] / 2, z_outer, self.d_element[1])
 
             ypos.extend([y] * len(z))
             zpos.extend(z)
-- 
2.43.0


From a0897c2471d15c72c73efecce859b570b6889e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:38 +0000
Subject: [PATCH 39/99] fix: elements on an arc of a GratingArrayStructure are
 distributed evenly

---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index d9368a0..99c17ac 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -881,7 +881,7 @@ class GratingArrayStructure(ElementsOnTorus):
             return np.atleast_1d(self.phi)
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
-        element_angle = self.d_element[1] / (2. * np.pi * radius)
+        element_angle = self.d_element[1] / radius
         # thickness of space between elements, distributed equally
         d_between = (anglediff(self.phi) - n * element_angle) / (n + 1)
         centerangles = d_between + 0.5 * element_angle + np.arange(n) * (d_between + element_angle)
-- 
2.43.0


From 7d58817d33aee3153f038d69b7d611b6f6ba2c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:27 +0000
Subject: [PATCH 40/99] fix: add_offset_double_rowland_channels works for any
 number of channels

---
 marxs/design/rowland.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 99c17ac..e507a5f 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -537,10 +537,10 @@ def add_offset_double_rowland_channels(geometry,
     for channel in geometry['pos_opt_ax']:
         shift_matrix = np.eye(4)
         shift_matrix[:, 3] = geometry['pos_opt_ax'][channel][:]
-        if channel in ['1', '2']:
-            base_rowland = 'rowland_central'
-        elif channel in ['1m', '2m']:
+        if 'm' in channel:
             base_rowland = 'rowland_central_m'
+        else:
+            base_rowland = 'rowland_central'
         namer = 'rowland_' + channel
         geometry[namer] = RowlandTorus(geometry[base_rowland].R,
                                        geometry[base_rowland].r,
-- 
2.43.0


From 7de768190b6b1b2dd84fec74bd4e8be66b7f7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 41/99] fix: hole of a CircularMeshGrid stays free next to the
 inner radius

---
 marxs/design/rowland.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index e507a5f..8731cb2 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -752,13 +752,10 @@ class CircularMeshGrid(ElementsOnTorus):
                     z_mid = 0.5 * (z_inner + z_outer)
                     n_z = int(np.ceil((z_outer - z_inner) / self.d_element[1]))
                     z_width = n_z * self.d_element[1]
-                    if z_mid - z_width / 2 >= self.d_element[1] / 2:
-                        z = np.arange(z_mid - z_width / 2, z_outer, self.d_element[1])
-                        z = np.hstack([-z, z])
-                    else:
-                        # No space for the hole: both halves would overlap
-                        n_z = int(np.ceil(2 * z_outer / self.d_element[1]))
-                        z = np.arange(- n_z * self.d_element[1] / 2, z_outer, self.d_element[1])
+                    # Elements on both sides of the hole must not overlap
+                    z = np.arange(max(z_mid - z_width / 2, self.d_element[1] / 2),
+                                  z_outer, self.d_element[1])
+                    z = np.hstack([-z, z])
 
             ypos.extend([y] * len(z))
             zpos.extend(z)
-- 
2.43.0


From d0a91aa4003f9486bfda9ec66d131303565c46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:55 +0000
Subject: [PATCH 42/99] fix: sub-apertures close to the 0 line include photons
 on both sides

---
 marxs/analysis/gratings.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c895d80..ee7d8cf 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -381,8 +381,11 @@ def identify_photon_in_subaperture(angle, max_ang, ang_0=np.pi / 2):
         to the ``angle=0`` line, which is the most common sub-aperturing layout with
         subaperturing perpendicular to the dispersion direction as ``angle=0``.
     '''
-    indplus = np.isclose(np.mod(angle, 2 * np.pi), ang_0, atol=max_ang)
-    indminus = np.isclose(np.mod(angle, 2 * np.pi), 2 * np.pi - ang_0, atol=max_ang)
+    def dist(center):
+        # Angles are cyclic
+        return np.abs(np.mod(angle - center + np.pi, 2 * np.pi) - np.pi)
+    indplus = np.isclose(dist(ang_0), 0, atol=max_ang)
+    indminus = np.isclose(dist(-ang_0), 0, atol=max_ang)
     return indplus | indminus
 
 
-- 
2.43.0


From b562552d12815f96d94fc0b3cd8b010ef26fcf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:55 +0000
Subject: [PATCH 43/99] fix: resolving power is calculated for exactly 20
 photons in an order, as documented

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index ee7d8cf..2ccca23 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -259,7 +259,7 @@ def resolvingpower_from_photonlist(photons, orders,
 
     for i, o in enumerate(orders):
         ind = (photons[ordercol] == o)
-        if ind.sum() > 20:
+        if ind.sum() >= 20:
             # There is a .value here to work around https://github.com/astropy/astropy/issues/13281
             meanpos, medianpos, stdpos = sigma_clipped_stats(photons[col][ind].value)
         else:
-- 
2.43.0


From e4ff42cc1e3bb35f57bbcd2c8f635ce68bc25591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:55 +0000
Subject: [PATCH 44/99] fix: facet_table does not change the plane it is given

---
 marxs/analysis/coords.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/analysis/coords.py b/marxs/analysis/coords.py
index df61710..24d2dfb 100644
--- a/marxs/analysis/coords.py
+++ b/marxs/analysis/coords.py
@@ -1,4 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
+from copy import copy
+
 import numpy as np
 from astropy.table import Table
 
@@ -72,6 +74,8 @@ def facet_table(container, project_plane=ProjectOntoPlane()):
             >>> from astropy import table
             >>> table.join(photons, facettab, join_type='left')  # doctest: +SKIP
     '''
+    # Do not change the plane that is passed in
+    project_plane = copy(project_plane)
     project_plane.loc_coos_name = ['facet_projx', 'facet_projy']
 
     facetpos = h2e(np.stack(container.elem_pos)[:, :, 3])
-- 
2.43.0


From 12b9862d2b2e04f6b0960a047f4f4a24918918df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:14 +0000
Subject: [PATCH 45/99] fix: average resolving power has no unit if the
 effective area has

---
 marxs/analysis/gratings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index 2ccca23..918a658 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -207,8 +207,10 @@ def average_R_Aeff(r, aeff, axis=None):
         Average resolving power
     '''
     aeff_avg = aeff.sum(axis=axis)
+    # The unit of the weights cancels
+    weights = aeff.value if isinstance(aeff, u.Quantity) else aeff
     res_avg = np.ma.average(np.ma.masked_invalid(r),
-                            weights=aeff, axis=axis)
+                            weights=weights, axis=axis)
     return res_avg, aeff_avg
 
 
-- 
2.43.0


From aeed39f0dabf2443b4d02637e8e16d151b7b55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:01 +0000
Subject: [PATCH 46/99] fix: run_tolerances_for_energies2 hands on subclass_ok

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 42050d5..dbbae22 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -442,7 +442,7 @@ def run_tolerances_for_energies2(source, energies, instrum, cls, wigglefunc,
                                       Sequence(elements=instrum.elements[:ind]),
                                       Sequence(elements=instrum.elements[ind:]),
                                       wigglefunc,
-                                      instrum.elements_of_class(cls),
+                                      instrum.elements_of_class(cls, subclass_ok),
                                       parameters,
                                       analyzefunc,
                                       reset,
-- 
2.43.0


From d9bd80d3b8e0e6728112398cdb0d0345695f932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 47/99] fix: load_and_plot keeps axes_facecolor given by the
 user

The keyword was checked under a misspelled name, so that the colour
chosen from the file name replaced the one in the call.
---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index dbbae22..98ac3d5 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -681,7 +681,7 @@ class WigglePlotter():
 
         tab = Table.read(filename)
 
-        if 'axis_facecolor' not in kwargs:
+        if 'axes_facecolor' not in kwargs:
             for n, c in self.bg_colors.items():
                 if n in filename:
                     kwargs['axes_facecolor'] = c
-- 
2.43.0


From ca35e71a96fe90ae96c6373f5fd99234e43304ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:48 +0000
Subject: [PATCH 48/99] fix: RMF.rmf and full_rmf work for any TLMIN and for
 fixed-length arrays

RMF.rmf assumed that the first channel has number 1, but RMFs made in marxs
start at 0. Rows from fixed-length arrays (which is what is written to file) are
padded, have numbers instead of arrays for a single channel subset, and rows
without any channel above threshold have no channel subset at all.
---
 marxs/reduction/ogip.py | 45 +++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 182bc09..0f044c4 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -326,6 +326,32 @@ class RMF:
     def en_mid(self):
         return 0.5 * (self.ebounds['E_MIN'] + self.ebounds['E_MAX'])
 
+    def _channels_in_row(self, row):
+        '''Expand the channel subsets in one row of the matrix
+
+        Parameters
+        ----------
+        row : `astropy.table.Row`
+            Row of the matrix
+
+        Returns
+        -------
+        ind : array
+            0-based index of the channels with values in this row
+        mat : array
+            Matrix elements for those channels
+        '''
+        # The first channel can have any number, given in TLMIN
+        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
+        # In a table with one channel subset per row, those are just numbers
+        f_chan = np.atleast_1d(row['F_CHAN'])
+        n_chan = np.atleast_1d(row['N_CHAN'])
+        ind = np.concatenate([np.zeros(0, dtype=int)] +
+                             [int(f_chan[i]) - tlmin + np.arange(n_chan[i])
+                              for i in range(row['N_GRP'])])
+        # fixed-length arrays are padded at the end
+        return ind, np.asanyarray(row['MATRIX'])[:len(ind)]
+
     def full_rmf(self, energy):
         '''Return rmf over the full range of channels
 
@@ -341,15 +367,8 @@ class RMF:
             rmf value in each bin
         '''
         rmf = np.zeros(len(self.en_mid))
-        row = self.row(energy)
-        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
-        for i in range(row['N_GRP']):
-            # Python is 0 indexed, FITS is 1 indexed
-            chans = slice(row['F_CHAN'][i] - tlmin,
-                          row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
-            matindex = np.cumsum(np.concatenate(([0], row['N_CHAN'])))
-            mat = slice(matindex[i], matindex[i + 1])
-            rmf[chans] = row['MATRIX'][mat]
+        ind, mat = self._channels_in_row(self.row(energy))
+        rmf[ind] = mat
         return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf
 
     def rmf(self, energy):
@@ -366,12 +385,8 @@ class RMF:
         rmf : array
             rmf value in each bin
         '''
-        row = self.row(energy)
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - 1,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i]-1)
-                              for i in range(row['N_GRP'])])
-        return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
-            np.asanyarray(row['MATRIX'])
+        ind, mat = self._channels_in_row(self.row(energy))
+        return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], mat
 
     def rmf_angstrom(self, energy):
         en_lo, en_hi, rmf = self.rmf(energy)
-- 
2.43.0


From 5eb63a35629d201b79e26954c05511b8d11efca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:48 +0000
Subject: [PATCH 49/99] fix: RMFs with a single row, without entries or with
 many channels can be written

squeeze() also removes the row axis of a table with one row, the maximum
of an empty array is not defined, and numpy 2 raises an OverflowError instead
of wrapping numbers that are too large for an integer type.
---
 marxs/reduction/ogip.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 0f044c4..6515dde 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -460,15 +460,17 @@ class RMF:
         m = self.matrix
         # int16 is recommended in OGIP, but too small for e.g. Arcus
         # So, determine smallest inttype that works
-        maxvalf = np.concatenate(m['F_CHAN']).max()
-        maxvaln = np.concatenate(m['N_CHAN']).max()
+        # "initial" and "max(1, ...)": There might be no values at all, if all
+        # elements of the matrix are below the threshold.
+        maxvalf = np.concatenate(m['F_CHAN']).max(initial=0)
+        maxvaln = np.concatenate(m['N_CHAN']).max(initial=0)
         maxval = max(maxvalf, maxvaln)
         for inttype in [np.int16, np.int32, np.int64]:
-            if inttype(maxval) == maxval:
+            if maxval <= np.iinfo(inttype).max:
                 break
-        fchan = np.zeros((len(m), np.max(m['N_GRP'])), dtype=inttype)
+        fchan = np.zeros((len(m), max(1, np.max(m['N_GRP']))), dtype=inttype)
         nchan = np.zeros_like(fchan)
-        matrix = np.zeros((len(m), max([sum(r) for r in m['N_CHAN']])),
+        matrix = np.zeros((len(m), max([1] + [sum(r) for r in m['N_CHAN']])),
                           dtype=np.float32)
         for i, r in enumerate(m):
             fchan[i, :len(r['F_CHAN'])] = r['F_CHAN']
@@ -476,8 +478,10 @@ class RMF:
             matrix[i, :len(r['MATRIX'])] = r['MATRIX']
         # if max(N_GRP) == 1 then we can squueze out the first dimension
         # and write a number per row instead of an array.
-        m['F_CHAN'] = fchan.squeeze()
-        m['N_CHAN'] = nchan.squeeze()
+        if fchan.shape[1] == 1:
+            fchan, nchan = fchan[:, 0], nchan[:, 0]
+        m['F_CHAN'] = fchan
+        m['N_CHAN'] = nchan
         m['MATRIX'] = matrix
 
     @staticmethod
-- 
2.43.0


From b3c8767b3d62e5f68b9641e261726d3932662f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:48 +0000
Subject: [PATCH 50/99] fix: DETCHANS in the matrix of an RMF is the number of
 channels

The matrix can have any number of rows, that's unrelated to the number of channels.
---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 6515dde..053e477 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -228,7 +228,7 @@ class RMF:
         self.matrix = matrix
         self.ebounds = ebounds
         for m in [self.matrix, self.ebounds]:
-            m.meta['DETCHANS'] = len(m)
+            m.meta['DETCHANS'] = len(self.ebounds)
             if CHANTYPE is not None:
                 m.meta['CHANTYPE'] = CHANTYPE
             if HDUCLAS3 is not None:
-- 
2.43.0


From 952e73df01b957f1ea1c95cce946c7e13107589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:04 +0000
Subject: [PATCH 51/99] fix: RMF rows can be selected by wavelength

Comparing wavelengths with the energy limits of the rows after conversion to
wavelengths turns the inequalities around.
---
 marxs/reduction/ogip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 053e477..1af2e2d 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -316,9 +316,9 @@ class RMF:
         hdulist.writeto(rmffile, overwrite=overwrite, checksum=True)
 
     def row(self, energy):
-        with u.set_enabled_equivalencies(u.spectral()):
-            rowind = (energy >= self.matrix['ENERG_LO']) & \
-                (energy < self.matrix['ENERG_HI'])
+        energy = energy.to(u.keV, equivalencies=u.spectral())
+        rowind = (energy >= self.matrix['ENERG_LO']) & \
+            (energy < self.matrix['ENERG_HI'])
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
-- 
2.43.0


From 07df3a283e322ac5396c285d17c80c450d2d9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 52/99] fix: RMF.from_Gauss_sigma works with widths in energy
 and keeps its input

The equivalency was misspelled so that tables with energies raised an error, and
the table in the call was sorted in place.
---
 marxs/reduction/ogip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 1af2e2d..00df3f1 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -515,9 +515,11 @@ class RMF:
         # This module requires sherpa, so we import it down here.
         # That way, the rest of this class can be used even when Sherpa is not installed.
         from marxs.reduction.lsfparm import make_rmf
+        # Work on a copy, because columns and the order of rows might change.
+        sigmatab = QTable(sigmatab, copy=True)
         if 'energy' in sigmatab.colnames and 'wave' not in sigmatab.colnames:
-            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalenicies=u.spectral())
-            sigmatab['sigma_wave'] = sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']
+            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalencies=u.spectral())
+            sigmatab['sigma_wave'] = sigmatab['wave'] * (sigmatab['sigma_energy'] / sigmatab['energy']).decompose()
         sigmatab.sort('wave')
 
         lsfparm = Table({'NUM_WIDTHS': [1],
@@ -525,7 +527,7 @@ class RMF:
                          'WIDTHS': [[1.]],
                          'NUM_LAMBDAS': [len(sigmatab)],
                          'EE_FRACS': [np.ones((1, len(sigmatab)))],
-                         'LAMBDAS': [sigmatab['wave']],
+                         'LAMBDAS': [sigmatab['wave'].to(u.Angstrom).value],
                          'GAUSS1_PARMS': [np.stack([np.ones(len(sigmatab)),
                                            sigmatab['sigma_wave'].to(u.Angstrom).value,
                                            sigmatab['wave'].to(u.Angstrom).value
-- 
2.43.0


From 16143ee01417442decf927fa01a8648f16ceb839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 53/99] fix: ARF columns with the same value in all rows are
 written to file

Such columns are moved to the meta data, but quantities cannot be written to a
fits header. For example, ARFs that are zero for all energies lost the SPECRESP.
---
 marxs/reduction/ogip.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 00df3f1..d9bcd35 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -115,6 +115,13 @@ class ARF(ColOrKeyTable):
                           'HDUCLAS2': 'SPECRESP',
                           })
         _check_mandatory_keywords(self)
+        # Numbers with units cannot be written to a header, and some columns are
+        # mandatory, so write those as columns, even if all elements are the same.
+        required = [c[0] for c in self.required_cols]
+        for k, v in list(self.meta.items()):
+            if len(self.colnames) > 0 and (isinstance(v, u.Quantity) or k in required):
+                del self.meta[k]
+                self.add_column(np.repeat(v, len(self)), name=k)
         super().write(*args, **kwargs, format='fits')
 
     @classmethod
-- 
2.43.0


From a3cf249a71809c12b56104e708e8781b1cacfeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:57 +0000
Subject: [PATCH 54/99] fix: OSIPBase.osip_tab returns the width of the
 order-sorting region

For classes that define osip_range (e.g. FixedFractionOSIP) the energy was added
instead of subtracted on the upper side.
---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 360a759..28e20da 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -81,7 +81,7 @@ class OSIPBase(ABC):
         osiprange = self.osip_range(chan_mid, order)
         osiprange = osiprange.to(u.eV, equivalencies=u.spectral())
         E = chan_mid.to(u.eV, equivalencies=u.spectral())
-        return E + osiprange * np.array([-1, 1])[:, np.newaxis]
+        return (osiprange - E) * np.array([-1, 1])[:, np.newaxis]
 
     @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
     def osip_range(self, chan_mid, order) -> u.eV:
-- 
2.43.0


From beee1623b888ac29b64c3acc97ce131fcff36e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:57 +0000
Subject: [PATCH 55/99] fix: CCDRedistNormal.cdf accepts wavelengths

The difference of two wavelengths is not a difference in energy.
---
 marxs/optics/detector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 27c6018..d10e811 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -185,6 +185,9 @@ class CCDRedistNormal(FlatOpticalElement):
 
     @u.quantity_input(x=u.keV, loc=u.keV, equivalencies=u.spectral())
     def cdf(self, x, loc):
+        # The distribution is defined in energy
+        x = x.to(u.keV, equivalencies=u.spectral())
+        loc = loc.to(u.keV, equivalencies=u.spectral())
         scale = self.sig_ccd(loc)
         return norm().cdf(((x - loc) / scale).decompose())
 
-- 
2.43.0


From 00e5c18f197fd64a4eda82817ed6c7d521eb0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:11 +0000
Subject: [PATCH 56/99] fix: ColOrKeyTable drops the keyword when it is
 replaced by a column

Otherwise, the outdated value is returned and the table cannot be written to file.
---
 marxs/reduction/ogip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index d9bcd35..d33a602 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -78,6 +78,9 @@ class ColOrKeyTable(QTable):
                 self.remove_column(item)
         else:
             super().__setitem__(item, value)
+            # There might be a keyword from earlier, when all values were the same.
+            if isinstance(item, str):
+                self.meta.pop(item, None)
 
 
 def _check_mandatory_keywords(tab, extra_keywords=[]):
-- 
2.43.0


From 5a52d1133ed3a76a25cc24ccab6dc306e058ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:11 +0000
Subject: [PATCH 57/99] fix: OSIPs can be plotted when some offset orders do
 not contribute

The fraction for orders on the other side of the zeroth order was
returned as a single number instead of one number per energy.
---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 28e20da..9dd998e 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -137,7 +137,7 @@ class OSIPBase(ABC):
         '''
 
         if np.sign(o_nominal) != np.sign(o_true):
-            return 0.
+            return np.zeros(chan_mid_nominal.shape)
 
         osiprange = self.osip_range(chan_mid_nominal, o_nominal)
         Etrue = chan_mid_nominal.to(u.eV, equivalencies=u.spectral()) * \
-- 
2.43.0


From 895e182715f27269d33cebbfb0cef934f7b8b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:04 +0000
Subject: [PATCH 58/99] fix: OSIP summary is plotted for effective areas with
 order given as a string

apply_osip already accepts those files.
---
 marxs/reduction/osip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 9dd998e..11340c5 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -293,11 +293,11 @@ class OSIPBase(ABC):
         oc = OrderColor(max_order=np.max(np.abs(orders)))
 
         for order in orders:
-            self.plot_osip(axes[0], grid * abs(arf.meta['ORDER']), order,
+            self.plot_osip(axes[0], grid * abs(int(arf.meta['ORDER'])), order,
                            **oc(order))
         # pick the middle order for plotting purposes
         o_mid = orders[len(orders) // 2]
-        self.plot_mixture(axes[1], grid * abs(arf.meta['ORDER']), o_mid)
+        self.plot_mixture(axes[1], grid * abs(int(arf.meta['ORDER'])), o_mid)
         fig.subplots_adjust(wspace=.3)
         fig.savefig(pjoin(outpath, outroot + 'OSIP_regions.pdf'),
                     bbox_inches='tight')
-- 
2.43.0


From 98d591a9ac076efff76cbb7647a927bd9e6b4921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:07 +0000
Subject: [PATCH 59/99] fix: LSFPARM tables with several extraction widths can
 be interpolated

scipy.interpolate.interp2d was removed from scipy.
---
 marxs/reduction/lsfparm.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index 7bd0223..f639ab6 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -239,6 +239,24 @@ class interp1d_2dsignature(interpolate.interp1d):
         return super().__call__(y)
 
 
+class RectBivariateSpline_2dsignature:
+    '''Spline with the same signature as `scipy.interpolate.interp2d`
+
+    For use with LSFPARM files that have more than one WIDTH.
+    (`scipy.interpolate.interp2d` was removed from scipy.)
+
+    '''
+    def __init__(self, x, y, z, kind='cubic', **kwargs):
+        k = {'linear': 1, 'cubic': 3, 'quintic': 5}[kind]
+        self.spline = interpolate.RectBivariateSpline(x, y, z,
+                                                      kx=min(k, len(x) - 1),
+                                                      ky=min(k, len(y) - 1),
+                                                      **kwargs)
+
+    def __call__(self, x, y):
+        return self.spline.ev(x, y)
+
+
 def CALDB_interp(row, kind='cubic', **kwargs):
     '''Get interpolating functions from values in LSFPARM
 
@@ -248,12 +266,12 @@ def CALDB_interp(row, kind='cubic', **kwargs):
         Table row from CALDB LSFPARM file
     **kwargs
         All other keywords arguments are passed to
-        `scipy.interpolate.interp1d` or `scipy.interpolate.interp2d`.
+        `scipy.interpolate.interp1d` or `scipy.interpolate.RectBivariateSpline`.
     '''
     interpolators = {}
 
     if row['NUM_WIDTHS'] > 1:
-        interp = interpolate.interp2d
+        interp = RectBivariateSpline_2dsignature
     else:
         interp = interp1d_2dsignature
 
@@ -266,7 +284,7 @@ def CALDB_interp(row, kind='cubic', **kwargs):
         elif modelnames.match(col):
             interpolators[col] = [interp(row['WIDTHS'],
                                          row['LAMBDAS'],
-                                         row[col][:, :, i].squeeze(),
+                                         row[col][:, :, i],
                                          kind=kind,
                                          **kwargs)
                                   for i in [0, 1, 2]]
-- 
2.43.0


From a88f788ffbf42e485b02886b5c77c82fa7d634b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:24 +0000
Subject: [PATCH 60/99] fix: LSFPARM tables can be made for a single wavelength

---
 marxs/reduction/lsfparm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index f639ab6..1e8108b 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -148,7 +148,7 @@ def empty_lsfparmtable(widths, waves, model, extname, order):
     # upper wavelength of
     # the box that was used to extract the LSF data.
     # I think these columns are informational only, but I need to check that.
-    dwave = np.max(np.diff(waves)) + 1.2
+    dwave = np.max(np.diff(waves), initial=0) + 1.2
     tab.add_column(Column(data=[waves - dwave], name='TG_LAM_LO',
                           dtype=np.float32, shape=(len(waves)),
                           unit=u.Angstrom))
@@ -183,9 +183,9 @@ def empty_lsfparmtable(widths, waves, model, extname, order):
     tab.meta['RAND_TG'] = '0.0'   # make this a parameter
     tab.meta['LONGSTRN'] = 'OGIP 1.0'
     tab.meta['CREATOR'] = 'lsfparm.py'  # update
-    tab.meta['DATE'] = str(datetime.datetime.now()).replace(' ', 'T')[:19],
+    tab.meta['DATE'] = str(datetime.datetime.now()).replace(' ', 'T')[:19]
     tab.meta['CONTENT'] = 'CDB_' + tab.meta['EXTNAME'] + '_LSFPARM'
-    tab.meta['HDUCLASS'] = 'ASC',
+    tab.meta['HDUCLASS'] = 'ASC'
     tab.meta['HDUCLAS1'] = 'PARAMETERS'
     tab.meta['HDUCLAS2'] = 'PSF'
     tab.meta['HDUCLAS3'] = 'LSF'
-- 
2.43.0


From 4cf409ee42d45cfde11e6267dd92ec5232e41297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 61/99] fix: L2 bars absorb photons at normal incidence

Rounding errors led to a probability of NaN.
---
 marxs/missions/mitsnl/catgrating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 108a3a6..0376fa1 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -243,7 +243,8 @@ class L2Abs(FlatOpticalElement):
 
         p3 = norm_vector(photons['dir'].data[intersect])
         ex, ey, en = self.geometry.get_local_euklid_bases(intercoos[intersect, :])
-        angle = np.arccos(np.abs(np.einsum("ij,ij->i", p3, en)))
+        # Clip because rounding errors can lead to products slightly larger than 1
+        angle = np.arccos(np.clip(np.abs(np.einsum("ij,ij->i", p3, en)), 0, 1))
 
         # fractional area NOT covered by the hexagon structure
         openfraction = (self.innerfree / self.period)**2
-- 
2.43.0


From 6fe5d142fbf9dc18eb634fea6b495f065ad40d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 62/99] fix: LissajousDither.write_asol writes the attitude
 quaternion as MARX does

---
 marxs/missions/chandra/dither.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 4c55f3b..3ea8bc4 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -169,9 +169,10 @@ class LissajousDither(FixedPointing):
                 asol[col].unit = 'mm'
             else:
                 asol[col].unit = 'deg'
+        # Chandra quaternions have the scalar component last
         asol['q_att'] = [mat2quat(euler2mat(np.deg2rad(p[0]),
                                             np.deg2rad(-p[1]),
-                                            np.deg2rad(-p[2]), 'rzyx'))
+                                            np.deg2rad(p[2]), 'rzyx'))[[1, 2, 3, 0]]
                          for p in pointing]
         # Copy info like the exposure time from the photons list meta to asol,
         # but not column specific keywords like TTYPEn, TCTYPn, MTYPEn, MFORMn, etc:
-- 
2.43.0


From 098d0ac013ed8679f661760305d1e2e5c9f13977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 63/99] fix: ACIS keeps its chip selection, adds its header
 keywords, and accepts a detector offset

---
 marxs/missions/chandra/det_acis.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 19d940b..35e020a 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -83,18 +83,21 @@ class ACIS(Parallel):
         # This stuff is Chandra specific, but applies to HRC, too.
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
-        self.detoffset = np.array([kwargs.pop(['DetOffsetX'], 0),
+        self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
                                     0,
-                                    kwargs.pop(['DetOffsetY'], 0)])
+                                    kwargs.pop('DetOffsetY', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
         # Use 0.024 because that's more consistent with 1024 pix
         kwargs['elem_args'] = {'pixsize': 0.024 } # {'pixsize': 0.023985 }
 
-        super().__init__(**kwargs)
         self.chips = chips
-        self.elements = [self.elements[i] for i in chips]
+        super().__init__(**kwargs)
+
+    def generate_elements(self):
+        super().generate_elements()
+        self.elements = [self.elements[i] for i in self.chips]
 
     def get_corners(self):
         '''Get the coordinates of the ACIS pixel corners.
@@ -149,8 +152,8 @@ class ACIS(Parallel):
             pos4d.append(A)
         return pos4d
 
-    def process_photons(self, photons, *args, **kwargs):
-        photons = super().process_photons(photons, *args, **kwargs)
+    def __call__(self, photons, *args, **kwargs):
+        photons = super().__call__(photons, *args, **kwargs)
         photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
         photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
         photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
-- 
2.43.0


From bd147e24192c07bf8abb3d3d3818a10aa77c98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 64/99] fix: Chandra adds its header keywords and writes event
 files

---
 marxs/missions/chandra/chandra_global.py | 14 +++++++++++---
 marxs/missions/chandra/fitsheaders.py    | 13 +++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index d25514a..f51f9ea 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -1,8 +1,9 @@
 # Licensed under GPL version 3 - see LICENSE.rst
 
 import numpy as np
+from astropy.io import fits
 
-from .fitsheaders import complete_header
+from .fitsheaders import complete_header, COLUMN_KEYWORDS
 from ...simulator import Sequence
 
 
@@ -11,10 +12,10 @@ class Chandra(Sequence):
 
 
     '''
-    def process_photons(self, photons):
+    def __call__(self, photons):
         photons.meta['MISSION'] = ('AXAF', 'Mission')
         photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
-        return super().process_photons(photons)
+        return super().__call__(photons)
 
     def write_evt(self, photons, filename):
         '''Write a Chandra event level 1 file.
@@ -30,10 +31,17 @@ class Chandra(Sequence):
         filename : string
             Path and file name where the file is saved.
         '''
+        # Do not change the photon list that is passed in
+        photons = photons.copy()
         photons.meta['EXTNAME'] = 'EVENTS'
         # rename RA, DEC columns - otherwise CIAO tasks will be confused.
         photons.rename_column('ra', 'marxs_ra')
         photons.rename_column('dec', 'marxs_dec')
         complete_header(photons.meta, photons, 'EVT1', ['OGIP', 'EVENTS', 'ALL'])
         photons.write(filename, format='fits')
+        # astropy does not write keywords that belong to individual columns
+        with fits.open(filename, mode='update') as hdulist:
+            for k in photons.meta:
+                if k[:5] in COLUMN_KEYWORDS:
+                    hdulist[1].header[k] = photons.meta[k]
         # add_GTIs(filename)
diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index f4d23b5..e35e383 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -68,13 +68,14 @@ def complete_O(header):
     h = [("MISSION", ( "AXAF", "Mission is AXAF")),
          ("TELESCOP", ("CHANDRA", "TELESCOPE is Chandra")),
          ("GRATING", ("NONE", "Grating")),
-         ('DATACLASS', ('SIMULATED', 'see http://marxs.rtfd.org')),
+         ('DATACLAS', ('SIMULATED', 'see http://marxs.rtfd.org')),
          ('ONTIME', (header['EXPOSURE'][0], 'Sum of GTIs')),
          ('DTCOR', (1., 'Dead Time Correction')),
          ('LIVETIME', (header['EXPOSURE'][0], 'Ontime multiplied by DTCOR')),
          ('OBSERVER', ('MARXS', 'This is a simulation.')),
          ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length')),
          ]
+    update_header(header, h)
 
 
 DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
@@ -84,11 +85,15 @@ DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
               ('MFORM5', 'RA,DEC'), ('MTYPE5', 'EQPOS')]
 '''CIAO data model (DM) keywords that group columns together'''
 
+COLUMN_KEYWORDS = ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']
+'''Keywords that describe one column, e.g. ``TLMIN3``'''
+
+
 def add_evt_column_header(header, data):
     '''Add CIAO keywords to header of an eventfile.'''
     # Clean out column related keywords that may not be valid any longer.
-    for k in header.iterkeys():
-        if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
+    for k in list(header):
+        if k[:5] in COLUMN_KEYWORDS:
             del header[k]
     instr = header['INSTRUME'][0]
     if instr not in TLMINMAX.keys():
@@ -112,7 +117,7 @@ def add_evt_column_header(header, data):
     header['TCDLT{0}'.format(indx)] = -PIXSIZE[instr]  # - because RA increases to left
     header['TCRPX{0}'.format(indx)] = odet[0]
     indy = colnamesup.index('Y') + 1
-    header['TCTYP{0}'.format(indy)] = 'DEC---TAN'
+    header['TCTYP{0}'.format(indy)] = 'DEC--TAN'
     header['TCRVL{0}'.format(indy)] = header['DEC_PNT']
     header['TCDLT{0}'.format(indy)] = PIXSIZE[instr]
     header['TCRPX{0}'.format(indy)] = odet[1]
-- 
2.43.0


From 029a756ccb06bc04e8e824b20c56df10992ce1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 65/99] fix: x3d plotting functions return the scene as
 documented

---
 marxs/visualization/x3d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 24c4cd1..9fa9e57 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -246,6 +246,7 @@ def indexed_triangle_set(xyz, index, display, *, scene):
                      geometry=x3d.IndexedTriangleSet(coord=x3d.Coordinate(point=_format_points(xyz)),
                                                      index=[int(i) for i in index.reshape(-1, 3).flatten()],
                                                      solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -279,6 +280,7 @@ def surface(obj, display, *, scene):
                                         x3d.Coordinate(point=_format_points(xyz.reshape((-1, 3)))),
                                         coordIndex=list(coordIndex),
                                         solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -345,6 +347,8 @@ def box(obj, display, *, scene):
         ),
     )
     scene.children.append(shape)
+    return scene
+
 
 @empty_scene
 @format_doc(doc_plot)
-- 
2.43.0


From 57554e9af4540f0b47590dd2fb90e85dc046fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 66/99] fix: x3d.plot_rays colours each ray by its own first
 node

---
 marxs/visualization/x3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 9fa9e57..87a807d 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -427,7 +427,7 @@ def plot_rays(
         pass
     elif scalar.shape == (n, N):
         warn('Color Per Vertex does not yet work in the X3D library used. Using only color for first node in each ray.')
-        scalar = scalar[0, :]
+        scalar = scalar[:, 0]
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-- 
2.43.0


From d7b83bd13d9d25251b174613704005dc644975a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 67/99] fix: plotting does not change the display settings of
 an object

---
 marxs/visualization/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index c905bd8..6088f04 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -5,6 +5,7 @@ The functions here are not intended to be called directly by the
 user. Instead, they refractor common tasks that are used in several
 visualization backends.
 '''
+from copy import copy
 import warnings
 import numpy as np
 
@@ -121,7 +122,8 @@ def plot_object_general(plot_registry, obj, display=None, **kwargs):
         if s == 'None':
             return None
         elif s in plot_registry:
-            # turn into valid color tuple
+            # turn into valid color tuple, but leave the settings of obj alone
+            display = copy(display)
             display['color'] = get_color(display)
             return plot_registry[s](obj, display,  **kwargs)
     else:
-- 
2.43.0


From 9cb103a56c73c3668449048c3eac5564019cc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 68/99] fix: threejsjson output of containers

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 51fd38b..57517a7 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -88,7 +88,7 @@ def container(obj, display=None,  **kwargs):
     '''
     out = []
     for elem in obj.elements:
-        elemout = plot_obj(elem, elem.display)
+        elemout = plot_object(elem)
         if isinstance(elemout, list):
             out.extend(elemout)
         elif (elemout is None):
-- 
2.43.0


From db61a06bd6ff492709d8d32f2953f6f323a0052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 69/99] fix: threejsjson.write with metadata from photon list

---
 marxs/visualization/threejsjson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 57517a7..cc6bfc2 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -219,7 +219,7 @@ def write(fileobject, data, photons=None):
              'elements': data}
 
     if photons is not None:
-        data['runinfo'] = photons.meta()
+        jdata['runinfo'] = photons.meta
 
     if HAS_JSONSCHEMA:
         path =  os.path.abspath(os.path.dirname(__file__))
@@ -231,7 +231,7 @@ def write(fileobject, data, photons=None):
     else:
         warnings.warn('Module jsonschema not installed. json file will be written without further verification.')
 
-    json.dump(jdata, fileobject)
+    json.dump(jdata, fileobject, default=str)
 
 
 plot_registry = {'triangulation': triangulation,
-- 
2.43.0


From 402ed5b642509b4268edd026254b2872105d3312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 70/99] fix: three.js plot_rays does not change prop

---
 marxs/visualization/threejs.py     | 3 ++-
 marxs/visualization/threejsjson.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 43dc549..eaab688 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -112,7 +112,8 @@ def _format_plot_rays_input(data, scalar, cmap, prop):
     s_rgb = cmap(normalizer(s))
 
     if 'vertexColors' not in prop:
-        prop['vertexColors'] = 2 # 2 = 'THREE.VertexColors'
+        # make a new dict, because prop belongs to the caller
+        prop = dict(prop, vertexColors=2) # 2 = 'THREE.VertexColors'
 
     return data, s_rgb, prop, n
 
diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index cc6bfc2..bb9ad45 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -182,7 +182,7 @@ def plot_rays(data, scalar=None, prop={}, name='Photon list', cmap=None):
         If ``None`` the default matplotlib colormap will be used, otherwise the colormap
         can be specified in this keyword.
     '''
-    data, s_rgb, prob, n = threejs._format_plot_rays_input(data, scalar, cmap, prop)
+    data, s_rgb, prop, n = threejs._format_plot_rays_input(data, scalar, cmap, prop)
 
     out = {}
     out['n'] = n
-- 
2.43.0


From 0c396279aecdaf46a0e81b5ee894c6ac508ba7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:24 +0000
Subject: [PATCH 71/99] fix: three.js output runs and shows the requested part
 of a torus

---
 marxs/visualization/threejs.py     | 74 +++++++++++++++++++-----------
 marxs/visualization/threejsjson.py |  6 +--
 2 files changed, 49 insertions(+), 31 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index eaab688..da8a6f2 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -40,6 +40,7 @@ listofproperties = {'Material': ['id', 'name', 'opacity', 'transparent', 'blendi
 def array2string(array):
     '''Flatten array and return string representation for insertion into js.'''
     return np.array2string(array.flatten(), max_line_width=1000, separator=',',
+                           threshold=array.size + 1,
                            formatter={'float_kind': '{0:.1f}'.format})
 
 def materialdict(display, material):
@@ -88,9 +89,36 @@ def materialspec(display, material):
         String that can be pasted into javasript files.
     '''
     matdict = materialdict(display, material)
-    spec = ['{0} : {1}'.format(k, matdict[v]) for k in matdict]
+    # color is text in javascript, all other values are numbers or constants
+    spec = ["{0} : '{1}'".format(k, v) if k == 'color' else '{0} : {1}'.format(k, v)
+            for k, v in matdict.items()]
     return ', '.join(spec)
 
+def torusparameters(obj, theta, phi):
+    '''Parameters for the ``ModifiedTorusBufferGeometry``
+
+    In three.js, the tube angle (``theta`` in MARXS) is called "radial" and ranges are
+    given as start and extent.
+
+    Parameters
+    ----------
+    obj : `marxs.design.RowlandTorus`
+        torus
+    theta, phi : array-like
+        Values covering the plot range (first and last number are the limits).
+
+    Returns
+    -------
+    pars : tuple
+        Arguments for the javascript constructor
+    '''
+    thetaarc = float(theta[-1] - theta[0])
+    phiarc = float(phi[-1] - phi[0])
+    return (obj.geometry.R, obj.geometry.r,
+            int(np.rad2deg(thetaarc)), int(np.rad2deg(phiarc)),
+            phiarc, float(phi[0]), thetaarc, float(theta[0]))
+
+
 def _format_plot_rays_input(data, scalar, cmap, prop):
     # The number of points per line
     N = data.shape[1]
@@ -140,7 +168,7 @@ def plot_rays(data, outfile, scalar=None, cmap=None,
         If ``None`` the default matplotlib colormap will be used, otherwise the colormap
         can be specified in this keyword.
     '''
-    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prob)
+    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prop)
     material = materialspec(prop, 'LineBasicMaterial')
 
     for i in range(n):
@@ -179,9 +207,7 @@ def plot_object(obj, display, outfile, **kwargs):
     correct plotting method for its shape. Javascript code to generate the correct
     represenation in three.js is added to the open file ``outfile``.
     '''
-    if 'outfile' not in kwargs:
-        raise TypeError('Required argument "outfile" missing.')
-    out = plot_object_general(plot_registry, obj, display=display,outfile=outfile, **kwargs)
+    out = utils.plot_object_general(plot_registry, obj, display=display, outfile=outfile, **kwargs)
     return out
 
 
@@ -193,30 +219,30 @@ def container(obj, display, outfile):
     (if it is a container). We need to flatten the list here to avoid
     arbitrarily deep recursion.
     '''
-    return [plot_obj(e, e.display, outfile) for e in obj.elements]
+    return [plot_object(e, None, outfile) for e in obj.elements]
 
 @format_doc(doc_plot)
-def box(obs, display, outfile):
+def box(obj, display, outfile):
     '''Output three.js commands to include a box-shaped optical element.'''
     matrixstring = ', '.join([str(i) for i in obj.pos4d.flatten()])
     if not ('side' in display):
-        display['side'] = 'THREE.DoubleSide'
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+        display = dict(display, side='THREE.DoubleSide')
+    material = materialspec(display, 'MeshStandardMaterial')
     outfile.write('''
     var geometry = new THREE.BoxGeometry( 2, 2, 2 );
-    var material = new THREE.MeshStandardMaterial( {{ {materialspec} }} );
+    var material = new THREE.MeshStandardMaterial( {{ {material} }} );
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(material=material,
                                  matrix=matrixstring))
 
 @format_doc(doc_plot)
 def triangulation(obj, display, outfile):
     '''Output commands for a plane with an inner hole.'''
     xyz, triangles = obj.geometry.triangulate(display)
-    materialspec = materialspec(display, 'MeshStandardMaterial')
-    outfile.write('// {}\n'.format(obj.name))
+    material = materialspec(display, 'MeshStandardMaterial')
+    outfile.write('\n// {}\n'.format(obj.name))
     outfile.write('var geometry = new THREE.BufferGeometry(); \n')
     outfile.write('var vertices = new Float32Array([')
     for row in xyz:
@@ -233,10 +259,10 @@ def triangulation(obj, display, outfile):
     geometry.setIndex(new THREE.BufferAttribute( faces, 1 ) );
     ''')
 
-    outfile.write('''var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
+    outfile.write('''var material = new THREE.MeshStandardMaterial({{ {material} }});
         var mesh = new THREE.Mesh( geometry, material );
         scene.add( mesh );
-        '''.format(materialspec=materialspec))
+        '''.format(material=material))
 
 @format_doc(doc_plot)
 def torus(obj, display, outfile):
@@ -248,25 +274,19 @@ def torus(obj, display, outfile):
     '''
     theta = display.get('coo1', [0, 2 * np.pi])
     phi = display.get('coo2', [0, 2 * np.pi])
-    materialspec = materialspec(obj.display, 'MeshStandardMaterial')
-    torusparameters = '{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}'.format(obj.R, obj.r,
-                                                                      int(np.rad2deg(theta[1])),
-                                                                      int(np.rad2deg(phi[1])),
-                                                                      theta[1],
-                                                                      theta[0],
-                                                                      phi[1],
-                                                                      phi[0])
+    material = materialspec(display, 'MeshStandardMaterial')
+    parameters = ', '.join(str(i) for i in torusparameters(obj, theta, phi))
     rot = np.array([[1,0,0,0],[0,0,1,0],[0,1,0,0],[0,0,0,1.]])
     matrixstring = ', '.join([str(i) for i in np.dot(obj.pos4d, rot).flatten()])
 
     outfile.write('''
-    var geometry = new THREE.ModifiedTorusBufferGeometry({torusparameters});
-    var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
+    var geometry = new THREE.ModifiedTorusBufferGeometry({parameters});
+    var material = new THREE.MeshStandardMaterial({{ {material} }});
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
-                                 torusparameters=torusparameters,
+    scene.add( mesh );'''.format(material=material,
+                                 parameters=parameters,
                                  matrix=matrixstring))
 
 plot_registry = {'triangulation': triangulation,
diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index bb9ad45..1e05ed6 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -148,10 +148,8 @@ def torus(obj, display, theta0=0., thetaarc=2*np.pi, phi0=0., phiarc=np.pi * 2):
     out['material'] = 'MeshStandardMaterial'
     out['materialproperties'] = threejs.materialdict(display, out['material'])
     out['geometry'] = 'ModifiedTorusBufferGeometry'
-    out['geometrypars'] = (obj.R, obj.r,
-                           int(np.rad2deg(theta[1])), int(np.rad2deg(phi[1])),
-                           theta[1], theta[0], phi[1], phi[0])
-    out['pos4d'] = [obj.pos4d.flatten().tolist()]
+    out['geometrypars'] = threejs.torusparameters(obj, theta, phi)
+    out['pos4d'] = [obj.pos4d.T.flatten().tolist()]
 
     if not ('side' in display):
         out['materialproperties']['side'] = 2
-- 
2.43.0


From 02c395db4b9623002775a368e6abf92557ff1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:24 +0000
Subject: [PATCH 72/99] fix: FlatAperture.outer_shape

---
 marxs/optics/aperture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/aperture.py b/marxs/optics/aperture.py
index 8a096f2..df19434 100644
--- a/marxs/optics/aperture.py
+++ b/marxs/optics/aperture.py
@@ -79,7 +79,7 @@ class FlatAperture(BaseAperture, FlatOpticalElement):
 
     def outer_shape(self):
         '''Return values in Eukledian space.'''
-        return self.xyz_square(self.display.get('outer_factor', 3))
+        return self.geometry.outer_shape(self.display)
 
 
 class RectangleAperture(FlatAperture):
-- 
2.43.0


From 383f2319c192864b7e2daa2b87379142a62384b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:25 +0000
Subject: [PATCH 73/99] fix: plots show baffles as the plane of their hole

---
 marxs/optics/baffles.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/marxs/optics/baffles.py b/marxs/optics/baffles.py
index e49a4a3..632c7c1 100644
--- a/marxs/optics/baffles.py
+++ b/marxs/optics/baffles.py
@@ -1,9 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
-import numpy as np
-
 from .base import FlatOpticalElement
-from ..math.utils import h2e
-from ..visualization.utils import plane_with_hole
+from ..math.geometry import RectangleHole
 
 
 class Baffle(FlatOpticalElement):
@@ -19,8 +16,9 @@ class Baffle(FlatOpticalElement):
 
     display = {'color': (1., 0.5, 0.4),
                'outer_factor': 3,
-               'shape': 'plane with hole'}
+               'shape': 'triangulation'}
 
+    default_geometry = RectangleHole
 
     def process_photons(self, photons, intersect, intercoos, interpoos):
         photons['pos'][intersect] = intercoos[intersect]
@@ -40,16 +38,4 @@ class Baffle(FlatOpticalElement):
         triangles : np.array
             Array of index numbers that define triangles
         '''
-        r_out = self.display.get('outer_factor', 3)
-        g = self.geometry
-        outer = h2e(g['center']) + r_out * np.vstack([h2e( g['v_x']) + h2e(g['v_y']),
-                                                      h2e(-g['v_x']) + h2e(g['v_y']),
-                                                      h2e(-g['v_x']) - h2e(g['v_y']),
-                                                      h2e( g['v_x']) - h2e(g['v_y'])
-        ])
-        inner =  h2e(g['center']) + np.vstack([h2e( g['v_x']) + h2e(g['v_y']),
-                                               h2e(-g['v_x']) + h2e(g['v_y']),
-                                               h2e(-g['v_x']) - h2e(g['v_y']),
-                                               h2e( g['v_x']) - h2e(g['v_y'])
-        ])
-        return plane_with_hole(outer, inner)
+        return self.geometry.triangulate(self.display)
-- 
2.43.0


From 89bdadd03d0573fd015af575e7e142e2e0fcb776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:25 +0000
Subject: [PATCH 74/99] fix: boom rods are simulated along their length

---
 marxs/missions/arcus/boom.py  | 12 +++++++++---
 marxs/visualization/mayavi.py |  6 +++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index f8a8204..72ffa3c 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -9,8 +9,8 @@ from marxs.math.geometry import Cylinder
 
 
 class Rod(OpticalElement):
-    '''X-axis of the rod is the cylinder axis (x-zoom gives half-length)
-    y zoom and z zoom have to be the same (no elliptical cylinders)
+    '''Z-axis of the rod is the cylinder axis (z-zoom gives half-length)
+    x zoom and y zoom have to be the same (no elliptical cylinders)
     '''
     outcol = 'hitrod'
     display = {'shape': 'cylinder', 'color': 'black'}
@@ -91,6 +91,12 @@ class ThreeSidedBoom(Parallel):
 
     def pos_spec(self):
         '''Calculate pos4d matrices for each element on the boom'''
+        # The matrices for the windows describe rods that extend along the
+        # x-axis, but the axis of a cylinder is the z-axis.
+        x2z = np.array([[0., 0., 1., 0.],
+                        [1., 0., 0., 0.],
+                        [0., 1., 0., 0.],
+                        [0., 0., 0., 1.]])
 
         fullboompos4d = []
         for h in range(self.start_bay, self.n_bays):
@@ -99,7 +105,7 @@ class ThreeSidedBoom(Parallel):
                 rot = euler2mat((i * 2) * np.pi / self.n_sides, 0, 0, 'sxyz')
                 affmat = compose(trans, rot, np.ones(3))
                 for p in self.one_window():
-                    fullboompos4d.append(np.dot(affmat, p))
+                    fullboompos4d.append(affmat @ p @ x2z)
 
         return fullboompos4d
 
diff --git a/marxs/visualization/mayavi.py b/marxs/visualization/mayavi.py
index 2d2de75..363228f 100644
--- a/marxs/visualization/mayavi.py
+++ b/marxs/visualization/mayavi.py
@@ -111,14 +111,14 @@ def cylinder(obj, display, viewer=None):
     '''Plot a cylinder for an object.
 
     The radius is taken from the y dimensions, the length of the tube from
-    the x dimension.
+    the z dimension.
     The display keyword "tube-sides" (default: 20) sets the number of vortices
     that are used to approximate the curve.
     '''
     from mayavi import mlab
 
-    x0 = obj.geometry['center'] - obj.geometry['v_x']
-    x1 = obj.geometry['center'] + obj.geometry['v_x']
+    x0 = obj.geometry['center'] - obj.geometry['v_z']
+    x1 = obj.geometry['center'] + obj.geometry['v_z']
     c = mlab.plot3d([x0[0], x1[0]], [x0[1], x1[1]], [x0[2], x1[2]],
                     color=display['color'],
                     tube_radius=np.linalg.norm(obj.geometry['v_y']),
-- 
2.43.0


From 4ad750c7cd61a306901bebf4e64e55e2efcc6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:05 +0000
Subject: [PATCH 75/99] fix: combine_disjoint_triangulations for triangulations
 of different size

---
 marxs/visualization/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index 6088f04..70febbb 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -292,8 +292,7 @@ def combine_disjoint_triangulations(list_xyz, list_triangles):
 
     '''
     xyz = np.vstack(list_xyz)
-    n_offset = np.cumsum([a.shape[0] for a in list_xyz])
-    n_offset -= n_offset[0]
+    n_offset = np.cumsum([0] + [a.shape[0] for a in list_xyz[:-1]])
     triangles = np.vstack([list_triangles[i] + n_offset[i] for i in
                            range(len(n_offset))])
     return xyz, triangles
-- 
2.43.0


From cdfb5f435805e0a0fa55a80e659abfee988a0acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:49 +0000
Subject: [PATCH 76/99] fix: triangles of a plane with hole do not cover part
 of the hole

---
 marxs/visualization/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index 70febbb..f49b445 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -255,14 +255,16 @@ def plane_with_hole(outer, inner):
     i_in = 0
     i_out = 0
     for i in range(n_out + n_in):
-        if i/n >= i_in/n_in:
-            triangles[i, :] = [i_out, n_out + i_in, n_out + ((i_in + 1) % n_in)]
+        # Connect inner points to the outer point with the most similar angle,
+        # otherwise triangles reach over the hole.
+        if (i_in < n_in) and (i_in / n_in <= (i_out + 0.5) / n_out):
+            triangles[i, :] = [i_out % n_out, n_out + i_in, n_out + ((i_in + 1) % n_in)]
             i_in += 1
         else:
             # Note that the order of the points is reversed here
             # to match the orientation of the outer boundary for the case above.
             triangles[i, :] = [(i_out + 1) % n_out, i_out, n_out + (i_in % n_in)]
-            i_out = (i_out + 1) % n_out
+            i_out += 1
     return xyz, triangles
 
 
-- 
2.43.0


From 64492ce8ef0d22dc04cf3bbbac5cf626d0d6db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:27 +0000
Subject: [PATCH 77/99] fix: TagVersion writes ORIGIN and CREATOR

---
 marxs/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index f916b0b..4d8c121 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -121,6 +121,8 @@ class TagVersion(MarxsElement):
                  **kwargs):
         super().__init__(name=kwargs.pop('name', self.__class__))
 
+        kwargs['ORIGIN'] = ORIGIN
+        kwargs['CREATOR'] = CREATOR
         kwargs['MARXSVER'] = (ver.group('version'), 'MARXS code version')
         if not ver.group('gittag') is None:
             kwargs['MARXSGIT'] = (ver.group('gittag'),
-- 
2.43.0


From 2424e60b32e6a972b19e9dc141bd847e503aa380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 78/99] fix: Arcus photon lists without caldb can be stored
 with all keywords

The placeholders were bytes, which cannot be written to a FITS header, so
the keywords were dropped.
---
 marxs/missions/arcus/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/arcus/utils.py b/marxs/missions/arcus/utils.py
index 97c8082..7d9ea69 100644
--- a/marxs/missions/arcus/utils.py
+++ b/marxs/missions/arcus/utils.py
@@ -28,8 +28,8 @@ confs_found = config.read(['arcus.cfg',
 # can be enough to run out of memory.
 # So, just get this info once during the first import and save in
 # module-level variables.
-git_hash = b'no arcus cal data found'
-git_info = b'no arcus cal data found'
+git_hash = 'no arcus cal data found'
+git_info = 'no arcus cal data found'
 if len(confs_found) > 0:
     logger.info(f'Found arcus.cfg in {confs_found}')
     try:
-- 
2.43.0


From 2324851c5ec66530cf0efecf3b24df7673ba9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:31 +0000
Subject: [PATCH 79/99] fix: place elements on the Rowland torus where rounding
 stops the search

scipy reports failure when it cannot improve a solution further. For starting
points very close to the torus that happened for correct solutions, so a few
percent of all arrays of gratings could not be built.
---
 marxs/design/rowland.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 8731cb2..fc9aea5 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -177,7 +177,11 @@ class RowlandTorus(MarxsElement, Geometry):
                             # relative to r.
                             max(np.abs(self.r - self.R), self.r * 1e-2) * 0.1,
                             args=(origin, v))
-        if not out.success:
+        # When the starting point is very close to the torus, rounding errors in
+        # the quartic can prevent any further progress before the convergence
+        # criterion on the coordinate is met. That is still a solution.
+        rounding = 1e-12 * (self.R + self.r)**4
+        if not out.success and not np.all(np.abs(out.fun) < rounding):
             raise Exception('Intersection with torus not found.')
         else:
             return e2h(origin + out.x[..., None] * v, 1)
-- 
2.43.0


From cf1b6eeb79f5f022cc4ff166ae45acc534a9fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:56 +0000
Subject: [PATCH 80/99] fix: columns described by a dict are added in the same
 way every time

add_output_cols removed the initial value from the dict, so the next element
or run got a different initial value, and it failed for photon lists that
have this column already.
---
 marxs/base/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index 4d8c121..604e6c9 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -271,9 +271,11 @@ class SimulationSequenceElement(MarxsElement):
             be used to set the column names, see description above.
         '''
         for n in self.output_columns + colnames:
-            if (n is not None) and (n not in photons.colnames):
-                if not isinstance(n, dict):
-                    n = {'name': n, 'value': np.nan}
+            if n is None:
+                continue
+            # work on a copy, because the dict is used again for other photons
+            n = n.copy() if isinstance(n, dict) else {'name': n, 'value': np.nan}
+            if n['name'] not in photons.colnames:
                 val = n.pop('value', None)
                 newcol = Column(length=len(photons), **n)
                 if val is not None:
-- 
2.43.0


From fe502563ef5f3d90d0b546f60bd654768930810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 81/99] fix: elements do not share pose and uncertainty
 matrices

Elements made from the same pos4d or elem_pos, all members of a Parallel
(elem_uncertainty) and even all Parallel objects (uncertainty) shared one
array, so editing the matrix of one of them moved the others, too.
---
 marxs/base/base.py           | 2 ++
 marxs/simulator/simulator.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index 604e6c9..2e68201 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -334,6 +334,8 @@ def _parse_position_keywords(kwargs):
     else:
         if ('position' in kwargs) or ('orientation' in kwargs) or ('zoom' in kwargs):
             raise ValueError('If pos4d is specificed, the following keywords cannot be given at the same time: position, orientation, zoom.')
+        # Several elements can be made from the same matrix
+        pos4d = np.array(pos4d)
 
     if np.linalg.det(pos4d) == 0:
         raise ValueError('pos4d matrix is invalid (determinant is 0).')
diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 712dfcb..a812bff 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -349,13 +349,15 @@ class Parallel(BaseContainer):
                     elem_pos_dict[k] = elem_pos[k][i]
                 self.elem_pos.append(_parse_position_keywords(elem_pos_dict))
         else:
-            self.elem_pos = elem_pos
+            self.elem_pos = [np.array(p) for p in elem_pos]
 
         super().__init__(**kwargs)
 
         if 'id_col' not in self.elem_args:
             self.elem_args['id_col'] = self.id_col
-        self.elem_uncertainty = [np.eye(4)] * len(self.elem_pos)
+        # Each matrix can be edited independently
+        self.uncertainty = np.array(self.uncertainty)
+        self.elem_uncertainty = [np.eye(4) for p in self.elem_pos]
         self.generate_elements()
 
     def move_center(self, change4d):
-- 
2.43.0


From 0491a84e144c71f44331ce6f527f11bf1ea15198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:12 +0000
Subject: [PATCH 82/99] fix: moveelem moves all layers of a FlatStack

Only the surface that photons are tested against was moved, while e.g. the
grating or lens in the stack worked in the old place and orientation.
---
 marxs/design/tolerancing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 98ac3d5..0d268ac 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -9,6 +9,7 @@ from transforms3d import affines, euler
 from astropy.table import Table
 from astropy import table
 import astropy.units as u
+from marxs.optics.base import FlatStack
 from marxs.simulator import Sequence
 from marxs.design.uncertainties import generate_facet_uncertainty as genfacun
 
@@ -130,6 +131,10 @@ def moveelem(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
                            euler.euler2mat(rx, ry, rz, 'sxyz'),
                            np.ones(3))
     e.geometry.pos4d = move @ e.geometry.pos4d_orig
+    if isinstance(e, FlatStack):
+        # All layers are in the same place
+        for layer in e.elements:
+            moveelem(layer, dx, dy, dz, rx, ry, rz)
 
 
 @oneormoreelements
-- 
2.43.0


From f890a958f15650e54b022ef3edcba1d0b6e1767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 83/99] fix: Lynx instrument can be built again

CircularMeshGrid and RectangularGrid do not take x_range or a positional
torus. The detector gets its own id column, because the default would replace
the number of the grating facet.
---
 marxs/missions/lynx/lynx.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index d6f76fc..6d4c46f 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -65,7 +65,6 @@ conf = {'metashellgeometry': Table.read(get_pkg_data_filename('data/metashellgeo
                                      'pixsize': 0.016}},
         'gas_kwargs': {'parallel_spec': np.array([0., 1., 0., 0.]),
                        'normal_spec': np.array([0, 0, 0, 1]),
-                       'x_range': [7e3, 1e4],
                        'elem_class': CATL1L2Stack,
                        'elem_args': {'d': 2e-4,
                                      'order_selector': ralfgrating.order_selector_Si,
@@ -133,8 +132,12 @@ class LynxGAS(CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super(RowlandDetArray, self).__init__(conf['rowland'], **conf['det_kwargs'],
-                                              guess_distance=25.)
+        kwargs = conf['det_kwargs'].copy()
+        # Range is given in global coordinates
+        y_offset = conf['rowland'].geometry['center'][1]
+        kwargs['y_range'] = np.array(kwargs['y_range']) - y_offset
+        super().__init__(rowland=conf['rowland'], **kwargs,
+                         guess_distance=25., id_col='CCD_ID')
 
 
 # Place an additional detector on the Rowland circle.
-- 
2.43.0


From b8d4b6a9e57322e3ae91124f56d9a970dc34859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:07 +0000
Subject: [PATCH 84/99] fix: chirp of Lynx gratings is applied

PerfectLynx(conf_chirp) looked for CATGrating objects, but the gratings in
the CATL1L2Stack are NonParallelCATGratings, so no grating was found and
the chirp was silently ignored.
---
 marxs/missions/lynx/lynx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 6d4c46f..45a356d 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -25,9 +25,10 @@ from marxs import optics, simulator, design, analysis
 from marxs.design.rowland import (design_tilted_torus, RowlandTorus,
                                   CircularMeshGrid)
 from marxs.math.geometry import Cylinder
-from marxs.optics import FlatDetector, CATGrating
+from marxs.optics import FlatDetector
 from marxs.simulator import Propagator
-from marxs.missions.mitsnl.catgrating import CATL1L2Stack, catsupportbars, l1_order_selector
+from marxs.missions.mitsnl.catgrating import (CATL1L2Stack, NonParallelCATGrating,
+                                              catsupportbars, l1_order_selector)
 from marxs.design import tolerancing as tol
 from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
 
@@ -200,7 +201,7 @@ class PerfectLynx(simulator.Sequence):
                                           postprocess_steps=self.post_process(),
                                           **kwargs)
         if ('chirp_energy' in conf) and ('chirp_order' in conf):
-            gratings = self.elements_of_class(CATGrating, subclass_ok=False)
+            gratings = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
             opt = NumericalChirpFinder(detcirc,
                                        order=conf['chirp_order'],
                                        energy=conf['chirp_energy'],
-- 
2.43.0


From a18ce279b38b8aab3aad77d44d6d37a727796e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:07 +0000
Subject: [PATCH 85/99] fix: building a Lynx grating array leaves the
 configuration alone

LynxGAS wrote the values of one configuration into dictionaries that are
shared between all configurations of the module.
---
 marxs/missions/lynx/lynx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 45a356d..14f3847 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -108,7 +108,9 @@ conf_chirp['chirp_order'] = -5.4
 
 class LynxGAS(CircularMeshGrid):
     def __init__(self, conf):
-        gg = conf['gas_kwargs']
+        # Copy, because conf is used for other instances of the instrument, too
+        gg = copy.copy(conf['gas_kwargs'])
+        gg['elem_args'] = copy.copy(gg['elem_args'])
         # Add in / update keywords that are calculated based on other conf
         # entries
         gg['rowland'] = conf['rowland']
-- 
2.43.0


From ea4301728c381d094ffa4096fc13edfefc86c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:23 +0000
Subject: [PATCH 86/99] fix: unknown boom dimensions raise ValueError

The name of an element is not set yet when the dimensions are checked.
---
 marxs/missions/arcus/boom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index 72ffa3c..e52196b 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -52,7 +52,7 @@ class ThreeSidedBoom(Parallel):
             if hasattr(self, k):
                 setattr(self, k, boom_dims[k])
             else:
-                raise ValueError('{} has not attribute {}'.format(self.name, k))
+                raise ValueError('{} has no attribute {}'.format(type(self).__name__, k))
         kwargs['elem_pos'] = self.pos_spec()
         kwargs['elem_class'] = Rod
         kwargs['elem_args'] = {}
-- 
2.43.0


From f8ee3f4d977e5aa6304a0f5d17fcf8104bf145a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:42 +0000
Subject: [PATCH 87/99] fix: AXIS imaging detector keeps its pixel coordinates

Pixel and local coordinates had the same column names, so that the pixel
coordinates were overwritten.
---
 marxs/missions/AXIS/AXIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/AXIS/AXIS.py b/marxs/missions/AXIS/AXIS.py
index dfe05b5..db89db1 100644
--- a/marxs/missions/AXIS/AXIS.py
+++ b/marxs/missions/AXIS/AXIS.py
@@ -127,7 +127,7 @@ class RowlandDetArray(design.rowland.RectangularGrid):
 imaging = FlatDetector(zoom=[1, 15, 15], pixsize=0.008)
 # zero-order detector based on https://axis.astro.umd.edu/images/proposal.pdf
 imaging.loc_coos_name = ['imaging_x', 'imaging_y']
-imaging.detpix_name = ['imaging_x', 'imaging_y']
+imaging.detpix_name = ['imagingpix_x', 'imagingpix_y']
 
 
 # Place an additional detector on the Rowland circle.
-- 
2.43.0


From 5235c7b8e9e27fd33c91f749ad1ff42cc5a9accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:31 +0000
Subject: [PATCH 88/99] fix: gratings that are not in a FlatStack can be bent

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index d30ca19..ea37a07 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -48,7 +48,7 @@ def bend_gratings(gratings, radius):
         c._geometry = e.geometry._geometry
         e.geometry = c
         e.display['shape'] = 'surface'
-        for e1 in e.elements:
+        for e1 in getattr(e, 'elements', []):
             # can't be the same geometry, because groove_angle is part of _geometry and that's different
             # Maybe need to get that out again and make the geometry strictly the geometry
             # But for now, make a new cylinder of each of them
-- 
2.43.0


From 463215765fbf3a83ee06cf6d5a96e6534088022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:31 +0000
Subject: [PATCH 89/99] fix: NumericalChirpFinder uses the design energy

---
 marxs/design/bendgratings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index ea37a07..6252636 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -87,6 +87,7 @@ class NumericalChirpFinder():
     def __init__(self, detector, order, energy, d=0.0002,
                  colname='detcirc_phi'):
         self.photon = generate_test_photons(1)
+        self.photon['energy'] = energy
         self.detector = detector
         self.energy = energy
         self.order = order
-- 
2.43.0


From 200d92adb73770e3e8ce5325f6d254fe7bf0a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:31 +0000
Subject: [PATCH 90/99] fix: chirp of bent gratings and chirp with any number
 of points

BendNumericalChirpFinder looked for an attribute that does not exist, the
spline did not use the (phi, z) coordinates of bent gratings, and varray
was ignored.
---
 marxs/design/bendgratings.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index 6252636..b283f21 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -156,7 +156,7 @@ class NumericalChirpFinder():
 class BendNumericalChirpFinder(NumericalChirpFinder):
     def posongrat(self):
         trans, rot, zoom, shear = decompose44(self.grat.geometry.pos4d)
-        p_lim = self.grat.geometry.phi_limits
+        p_lim = self.grat.geometry.coos_limits[0]
         p_center = np.mean(p_lim)
         # Not accounting for 2 pi wrap and crazy stuff
         p_half = (p_lim[1] - p_lim[0]) / 2
@@ -176,14 +176,23 @@ def chirp_gratings(gratings, optimizer, d,
     '''
     for grat in gratings:
         corr = optimizer(grat, uarray, varray)
-        corr = np.tile(corr[:, 0], (3, 1)).T
-        ly = np.linalg.norm(grat.geometry['v_y'])
+        v = varray
+        if len(varray) == 1:
+            # no dependence on the second coordinate
+            corr = np.tile(corr, (1, 3))
+            v = np.array([-1., 0., 1.])
+        if isinstance(grat.geometry, Cylinder):
+            # coordinates on a bent grating are (phi, z)
+            ly = np.max(np.abs(grat.geometry.coos_limits[0]))
+        else:
+            ly = np.linalg.norm(grat.geometry['v_y'])
         lz = np.linalg.norm(grat.geometry['v_z'])
         grat.fitted_d_corr = corr
-        grat.spline = RectBivariateSpline(ly * uarray, lz * uarray,
+        grat.spline = RectBivariateSpline(ly * uarray, lz * v,
                                           d * corr,
                                           bbox=[-ly, ly, -lz, lz],
-                                          kx=2, ky=2)
+                                          kx=min(2, len(uarray) - 1),
+                                          ky=min(2, len(v) - 1))
 
         def func(self, intercoos):
             return self.spline(intercoos[:, 0], intercoos[:, 1], grid=False)
-- 
2.43.0


From a0666019059989d03f7b3844fd067a882e84fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:31 +0000
Subject: [PATCH 91/99] fix: order selector set after a grating was chirped is
 kept when it is chirped again

---
 marxs/design/bendgratings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index b283f21..a31d1ab 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -201,3 +201,5 @@ def chirp_gratings(gratings, optimizer, d,
         # see https://stackoverflow.com/questions/972/adding-a-method-to-an-existing-object-instance
         grat._d = func.__get__(grat)
         grat.order_selector = grat.original_orderselector
+        # The selector might be changed before the grating is chirped again
+        del grat.original_orderselector
-- 
2.43.0


From 3d589c272bfb57bd0d6338ddd433c93b60644015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:31 +0000
Subject: [PATCH 92/99] fix: efficiency of Lynx metashells when only some of
 them are used

---
 marxs/missions/lynx/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index b4c6f03..17c3ee6 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -66,8 +66,8 @@ class MetaShellEfficiency(SimulationSequenceElement):
         # factor 100 is to transform cm^2 to mm^2
         ageom = np.pi * (data['r_outer']**2 - data['r_inner']**2)
         self.relative_eff = aeff * 100 / ageom[:, None]
-        self.shells = [(i, interp1d(eff['energy'], self.relative_eff[i - 1, :]))
-                       for i in data['Metashell Serial Number']]
+        self.shells = [(i, interp1d(eff['energy'], e))
+                       for i, e in zip(data['Metashell Serial Number'], self.relative_eff)]
 
     def __call__(self, photons):
         for i, func in self.shells:
-- 
2.43.0


From 9673cba54f3abd0e8c6fc30ec1771b314f39800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:31 +0000
Subject: [PATCH 93/99] fix: distance to the center on bent
 NonParallelCATGrating

---
 marxs/missions/mitsnl/catgrating.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 0376fa1..58ae862 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -18,6 +18,7 @@ from astropy.table import Table
 from marxs.optics import (CATGrating,
                           OrderSelector, FlatStack,
                           FlatOpticalElement)
+from marxs.math.geometry import Cylinder
 from marxs.math.utils import norm_vector
 from marxs.optics.grating import clip_rounding
 from marxs.optics.scatter import RandomGaussianScatter
@@ -312,7 +313,11 @@ class NonParallelCATGrating(CATGrating):
         intercoos : np.array
             intercoos coordinates for photons interacting with optical element
         '''
-        return self.blaze_center + intercoos[:, 0] * self.d_blaze_mm
+        dist = intercoos[:, 0]
+        if isinstance(self.geometry, Cylinder):
+            # bent grating, coordinates are (phi, z)
+            dist = dist * self.geometry['R']
+        return self.blaze_center + dist * self.d_blaze_mm
 
 
 def catsupportbars(photons):
-- 
2.43.0


From 8fc52c7fa03275fee8ee507c71b6b96a786cb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:19 +0000
Subject: [PATCH 94/99] fix: Arcus grid analysis accepts a list of orders

---
 marxs/missions/arcus/analyze_grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/arcus/analyze_grid.py b/marxs/missions/arcus/analyze_grid.py
index 1ee3a18..53858a2 100644
--- a/marxs/missions/arcus/analyze_grid.py
+++ b/marxs/missions/arcus/analyze_grid.py
@@ -133,6 +133,7 @@ def aeffRfromraygrid(inpath, conf,
     out : `astropy.table.QTable`
         Table with instrument performance metrics
     '''
+    orders = np.asanyarray(orders)
     rayfiles = glob.glob(os.path.join(inpath, 'wave*.fits'))
     rayfiles.sort()
     r0 = Table.read(rayfiles[0])
-- 
2.43.0


From 1fbed516865c9f5ffbae49ab24d6de7dc191976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:14 +0000
Subject: [PATCH 95/99] fix: sort_columns of Chandra event lists returns the
 sorted table

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index e35e383..435f672 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -213,4 +213,4 @@ def sort_columns(photons):
     othercol = list(othercol)
     othercol.sort()
     ordered_cols.extend(othercol)
-    return photons(ordered_cols)
+    return photons[ordered_cols]
-- 
2.43.0


From 760f567760e54ac57f98a7283d59214e1eeeaef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:40 +0000
Subject: [PATCH 96/99] fix: tg_resolve_events_circdet uses the optical axis of
 the configuration it is given

---
 marxs/missions/arcus/analyze_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/analyze_grid.py b/marxs/missions/arcus/analyze_grid.py
index 53858a2..7197922 100644
--- a/marxs/missions/arcus/analyze_grid.py
+++ b/marxs/missions/arcus/analyze_grid.py
@@ -214,7 +214,7 @@ def tg_resolve_events_circdet(evt, defaultconf):
     # effective_grating_period = np.mean(facets['period']) * facets['period'].unit
 
 
-    ang_r0 = zeropos('circ_phi', evt.meta['CHANNEL']) * u.rad
+    ang_r0 = zeropos('circ_phi', evt.meta['CHANNEL'], defaultconf) * u.rad
     evt['tg_r'] = (-(ang_r0 - evt['circ_phi']) / 2).to(u.degree)
     l = 2 * defaultconf['rowland_central'].r * u.mm * np.cos(ang_r0 - evt['circ_phi'])
     dy = defaultconf['pos_opt_ax'][evt.meta['CHANNEL']][1] * u.mm - evt['circ_y']
-- 
2.43.0


From 59140dfc303d6a0cd3c963dc5030bc73ece2d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:58 +0000
Subject: [PATCH 97/99] fix: DetOffsetY of ACIS moves the detector along y

The value was used for an offset along z, and an offset along z could not
be given by name.
---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 35e020a..ceffb50 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -84,8 +84,8 @@ class ACIS(Parallel):
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
         self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
-                                    0,
-                                    kwargs.pop('DetOffsetY', 0)])
+                                    kwargs.pop('DetOffsetY', 0),
+                                    kwargs.pop('DetOffsetZ', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
-- 
2.43.0


From 700ad73a647743da7957d4ebb0e9680d40088ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:45 +0000
Subject: [PATCH 98/99] fix: RegularGrid of Arcus puts the gratings of all
 channels above the focal plane

---
 marxs/missions/arcus/ralfgrating.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/missions/arcus/ralfgrating.py b/marxs/missions/arcus/ralfgrating.py
index b9f8e77..be950dd 100644
--- a/marxs/missions/arcus/ralfgrating.py
+++ b/marxs/missions/arcus/ralfgrating.py
@@ -138,12 +138,11 @@ class RegularGrid(Sequence):
 
         for chan in channels:
             sig = 1 if '1' in chan else -1
-            is_m = -1 if 'm' in chan else +1
             gratinggrid['rowland'] = conf['rowland_' + chan]
             b = blazematm if 'm' in chan else blazemat
             gratinggrid['elem_args']['orientation'] = b
             gratinggrid['normal_spec'] = conf['pos_opt_ax'][chan].copy()
-            gratinggrid['guess_distance'] = is_m * (conf['rowland_central'].r + conf['rowland_central'].R)
+            gratinggrid['guess_distance'] = conf['rowland_central'].r + conf['rowland_central'].R
 
             y_range = [-grid_width_y, grid_width_y]
             z_range = [sig * (rmid - grid_width_z),
-- 
2.43.0


From 09728f66000e7b4d8af9be95ba4caceae3b71158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:52 +0000
Subject: [PATCH 99/99] fix: RegularGrid of Arcus does not modify the
 configuration it is given

---
 marxs/missions/arcus/ralfgrating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/ralfgrating.py b/marxs/missions/arcus/ralfgrating.py
index be950dd..27471f4 100644
--- a/marxs/missions/arcus/ralfgrating.py
+++ b/marxs/missions/arcus/ralfgrating.py
@@ -134,7 +134,8 @@ class RegularGrid(Sequence):
                                np.deg2rad(-conf['blazeang']))
         blazematm = axangle2mat(np.array([0, 0, 1]),
                                 np.deg2rad(conf['blazeang']))
-        gratinggrid = conf['gratinggrid']
+        gratinggrid = conf['gratinggrid'].copy()
+        gratinggrid['elem_args'] = gratinggrid['elem_args'].copy()
 
         for chan in channels:
             sig = 1 if '1' in chan else -1
-- 
2.43.0

