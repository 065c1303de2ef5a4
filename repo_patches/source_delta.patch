From 43da647d09bc4ea98bb7279424ba2b39b9d63fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:17 +0000
Subject: [PATCH 01/80] fix: Cartesian.set_by_3pts and the origin setter take
 effect

---
 hyperstatic/common/csys.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index cdecd87..0e13f74 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -134,20 +134,21 @@ class Cartesian(object):
             Exception: _description_
         """
         tol=1e-8
-        self.__O=O    
+        self.__O=np.array(O)    
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
         cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
         if  np.abs(np.abs(cos)-1.)<tol:
             raise Exception("Three points should not in a line!!")        
-        self.__x = OA/np.linalg.norm(OA)
+        x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
-        self.__z = z/np.linalg.norm(z)
-        self.__y = np.cross(self.z, self.x)
-    
+        z = z/np.linalg.norm(z)
+        y = np.cross(z, x)
+        self.__T=np.array([x,y,z])
+
     @origin.setter
-    def origin(self,x:float, y:float, z:float):
-        self.__O = (x,y,z)
+    def origin(self,O:tuple):
+        self.__O = np.array(O)
     
     def align_with_global(self):
         """对齐绝对坐标系
-- 
2.43.0


From b48098e54d17ba8117821ed0f170c53305908296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 02/80] fix: setting a member's rotation twice keeps the last
 angle

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 40fff47..9ab06b4 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -32,8 +32,8 @@ class Beam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         E=self.__section.E
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 24a581d..5552291 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -48,8 +48,8 @@ class SimpleBeam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         #Initialize local matrices
-- 
2.43.0


From df573e83e3bbe262ada1118c2720a360a198939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 03/80] fix: nearly vertical members always get axes

---
 hyperstatic/core/fe_model/element/line/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/line/__init__.py b/hyperstatic/core/fe_model/element/line/__init__.py
index c8f5ccd..c517538 100644
--- a/hyperstatic/core/fe_model/element/line/__init__.py
+++ b/hyperstatic/core/fe_model/element/line/__init__.py
@@ -14,7 +14,7 @@ class Line(Element):
         o = (start.loc+end.loc)/2
         pt1 = end.loc
         pt2 = o + np.array([0,0,1])
-        if np.max(np.abs((start.loc-end.loc)[:2])) < tol:
+        if np.max(np.abs((pt1-o)[:2])) < tol:
             pt2 = o + np.array([1,0,0])
         csys=Cartesian(o, pt1, pt2)
         super().__init__(name,[start,end],1,dof,csys)
-- 
2.43.0


From 2ab7a74a0da565ba17a56c3109c6293ba8eeda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:58 +0000
Subject: [PATCH 04/80] fix: the consistent beam mass matrix is symmetric

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 9ab06b4..5bad1b8 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -112,7 +112,7 @@ class Beam(Line):
         if consistent:#consistent mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 5552291..6f4e515 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -133,7 +133,7 @@ class SimpleBeam(Line):
         if consistent:#Coordinated mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
-- 
2.43.0


From 0798fd997deb0ab9518b74198ba456886fbd381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:53 +0000
Subject: [PATCH 05/80] fix: all end releases of a member are condensed

---
 hyperstatic/core/fe_model/element/line/beam.py  | 17 ++++++++---------
 .../core/fe_model/element/line/simple_beam.py   | 17 ++++++++---------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 5bad1b8..3e02694 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -197,18 +197,17 @@ class Beam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
         k_ = Ke.copy()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and k_[n, n] > 1e-9*Ke[n, n]:
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
+        k_ = Ke.copy()
+        r_ = re.reshape(12)
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
-        return r_.reshape(12)
\ No newline at end of file
+            if self.__releases[n] == True and k_[n, n] > 1e-9*Ke[n, n]:
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
+        return r_
\ No newline at end of file
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 6f4e515..f3e5786 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -216,21 +216,20 @@ class SimpleBeam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
         k_ = Ke.copy()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and k_[n, n] > 1e-9*Ke[n, n]:
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
+        k_ = Ke.copy()
+        r_ = re.reshape(12)
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
-        return r_.reshape(12)
+            if self.__releases[n] == True and k_[n, n] > 1e-9*Ke[n, n]:
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
+        return r_
 
 #code here should be revised
     def resolve_element_force(self,Ke,Me,re,ue):
-- 
2.43.0


From e77aa3ddff9e586918e7c82105b6cfe456d3dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:53 +0000
Subject: [PATCH 06/80] fix: Model.set_beam_releases reaches the model's
 members

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 99d8dc1..43f29b4 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -193,7 +193,7 @@ class Model:
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
         u1j=False,u2j=False,u3j=False,r1j=False,r2j=False,r3j=False):
-        self.beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
+        self.__beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
 
     def get_beam_reaction(self,name:str,
         u1i:float,u2i:float,u3i:float,r1i:float,r2i:float,r3i:float,
-- 
2.43.0


From 4079ac079a56b87b8993d8bf1eb889df7ffc6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:54 +0000
Subject: [PATCH 07/80] fix: axial and torsional interpolation of a member
 meets its end values

---
 .../core/fe_model/element/line/beam.py        | 26 +++++++++----------
 .../core/fe_model/element/line/simple_beam.py | 26 +++++++++----------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 3e02694..2d73aa6 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -162,38 +162,38 @@ class Beam(Line):
         pass
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,lambda xi: -Nb1(xi),Nb2,lambda xi: -Nb3(xi),Nb4,Nt1,Nt2]
 
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index f3e5786..bbb49dd 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -180,39 +180,39 @@ class SimpleBeam(Line):
         return _Me
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,lambda xi: -Nb1(xi),Nb2,lambda xi: -Nb3(xi),Nb4,Nt1,Nt2]
 
     
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-- 
2.43.0


From c3b4ddd56b1b3f94d57209b71777e495a9856ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:54 +0000
Subject: [PATCH 08/80] fix: Lame constant and stress of the isotropic material

---
 hyperstatic/core/fe_model/material/isotropy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 59fe84b..2d316b6 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -40,17 +40,16 @@ class IsotropicMaterial(Material):
     def lamda(self):
         E=self.__E
         mu=self.__mu
-        return E/(1+mu)/(1-2*mu)
+        return E*mu/(1+mu)/(1-2*mu)
 
     def C(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         return np.array([[exx, gxy/2, gzx/2], 
         [gxy/2, eyy, gyz/2], 
         [gzx/2, gyz/2, ezz]])
 
-    @property
     def D(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         E=self.__E
-        nu=self.__m
+        nu=self.__mu
         return np.array([[E*eyy*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + exx*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gxy/(2*(nu + 1)), E*gzx/(2*(nu + 1))], [E*gxy/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + eyy*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gyz/(2*(nu + 1))], [E*gzx/(2*(nu + 1)), E*gyz/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*eyy*nu/((1 - 2*nu)*(nu + 1)) + ezz*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1))]])
 
 
-- 
2.43.0


From 51e69b19f6af9e3938ce03e4d624a4bdd2058340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:09 +0000
Subject: [PATCH 09/80] fix: get_beam_concentrated returns the concentrated
 load

---
 hyperstatic/core/fe_model/load/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 9569eae..50fbfd8 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -49,8 +49,8 @@ class LoadPattern(object):
         return None
 
     def get_beam_concentrated(self,name):
-        if name in self.__beam_distributed.keys():
-            return self.__beam_distributed[name]
+        if name in self.__beam_concentrated.keys():
+            return self.__beam_concentrated[name]
         return None
 
     def get_beam_f(self,name,l):
-- 
2.43.0


From c34234bb9a025b971517c13b28393ad515a4e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:09 +0000
Subject: [PATCH 10/80] fix: a case's loads by node include every pattern

---
 hyperstatic/core/fe_model/load/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 0e26354..1455a2a 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -96,7 +96,7 @@ class LoadCase(object):
                 if node in res.keys():
                     res[node]+=load*self.__load_factor[patname]
                 else:
-                    res[node]=np.zeros(6)
+                    res[node]=load*self.__load_factor[patname]
         return res
 
     def get_nodal_f_time_history_dict(self,name):
@@ -126,7 +126,7 @@ class LoadCase(object):
                 if node in res.keys():
                     res[node]+=load*self.__load_factor[patname]
                 else:
-                    res[node]=np.zeros(6)
+                    res[node]=load*self.__load_factor[patname]
         return res
 
 
-- 
2.43.0


From cb0280bf187f70ed8f63f72e1fb798aece544530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:09 +0000
Subject: [PATCH 11/80] fix: load histories of patterns with curves of
 different lengths

---
 hyperstatic/core/fe_model/load/__init__.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 1455a2a..6642fef 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -85,7 +85,7 @@ class LoadCase(object):
             if f is None:
                 continue
             crv=curve[1,:]
-            fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
+            fn[:crv.size]+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
         return fn
 
     def get_nodal_f_dict(self):
@@ -99,23 +99,11 @@ class LoadCase(object):
                     res[node]=load*self.__load_factor[patname]
         return res
 
-    def get_nodal_f_time_history_dict(self,name):
-        max_length=0
-        for patname,curve in self.__load_curve.keys():
-            l=curve.shape[1]
-            max_length=max(l,max_length)
+    def get_nodal_f_time_history_dict(self):
         res={}
-        for patname in self.__load_factor.keys():
-            pat=self.__pattern[patname]
-            factor=self.__load_factor[patname]
-            curve=self.__load_curve[patname]
-            d=pat.get_nodal_f_dict()
-            for node,load in d.items():
-                if node in res.keys():
-                    crv=curve[1,:]
-                    fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
-                else:
-                    res[node]=np.zeros((max_length,6))
+        for pat in self.__pattern.values():
+            for node in pat.get_nodal_f_dict().keys():
+                res[node]=self.get_nodal_f_time_history(node)
         return res
 
     def get_nodal_d_dict(self):
-- 
2.43.0


From 1a0917df9179ab77be4f3e2ffaba3aeeb1175e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:09 +0000
Subject: [PATCH 12/80] fix: a static case keeps the order it was given

---
 hyperstatic/core/fe_model/load/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 9b73d8f..05dfd33 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -7,7 +7,7 @@ from hyperstatic.core.fe_model.load import LoadCase
 class StaticCase(LoadCase):
     def __init__(self,name:str,order=1,base_case=None):
         super().__init__(name)
-        self.__order=1
+        self.__order=order
         self.__base_case=base_case
 
     @property
-- 
2.43.0


From 48c3c3cc9bbf35c43ce3168dfcce5f8fff555e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:44 +0000
Subject: [PATCH 13/80] fix: radii of gyration of a section

---
 hyperstatic/core/fe_model/section/beam_section.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index ec092dc..64b683c 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -94,14 +94,6 @@ class BeamSection(object):
     def W33(self):
         return self.__W33
 
-    @property
-    def i22(self):
-        return (self.__I/self.__A)**0.5
-
-    @property
-    def i33(self):
-        return (self.__I/self.__A)**0.5
-
 class BoxSection(BeamSection):
     def __init__(self, name: str, material: IsotropicMaterial, h,b,tw,tf):
         A=h*b-(h-2*tf)*(b-2*tw)
-- 
2.43.0


From 1f4206b9594983bd6bc1366831b74b2d8c642387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 14/80] fix: a section reports its own shape

---
 hyperstatic/core/fe_model/section/beam_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index 64b683c..e7a81c0 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -14,7 +14,7 @@ class BeamSection(object):
         self.__I33=I33
         self.__W22=W22
         self.__W33=W33
-        self.__shape='general'
+        self.__shape=shape
         self.__sizes=sizes
 
 
-- 
2.43.0


From ba2ff8ac93977d654ea617e561efd8000fd4f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 15/80] fix: weak-axis inertia of the I section counts the web
 between the flanges

---
 hyperstatic/core/fe_model/section/beam_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index e7a81c0..24bff7d 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -138,7 +138,7 @@ class ISection(BeamSection):
         s=sum([np.tanh(m*3.141592*tw/2/(h-2*tf))/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
         beta=1/3-64*(h-2*tf)/(3.141592**5*tw)*s        
         J+=tw*(h-2*tf)**3*beta
-        I22=1/12*tf*b**3*2+1/12*h*tw**3
+        I22=1/12*tf*b**3*2+1/12*(h-2*tf)*tw**3
         I33=(b*h**3-(b-tw)*(h-2*tf)**3)/12
         W22=I22/(b/2)
         W33=I33/(h/2)
-- 
2.43.0


From 551fbc11f751fc483c75ef6a1f6c52afcf434966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:08 +0000
Subject: [PATCH 16/80] fix: use np.isin, np.in1d is gone from numpy

---
 hyperstatic/core/fe_model/assembly.py | 12 ++++++------
 hyperstatic/core/fe_post/beam.py      | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8638abe..820cf93 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -277,8 +277,8 @@ class Assembly(object):
         return A
  
     def __drop_matrix_dof(self,M:spr.coo_matrix, indices:list)->spr.coo_matrix:
-        keepr = ~np.in1d(M.row, indices)
-        keepc = ~np.in1d(M.col, indices)
+        keepr = ~np.isin(M.row, indices)
+        keepc = ~np.isin(M.col, indices)
         keep=keepr*keepc
         data, row, col = M.data[keep], M.row[keep], M.col[keep] 
         for i in reversed(sorted(indices)):
@@ -288,7 +288,7 @@ class Assembly(object):
         return A
 
     def __drop_vector_dof(self,V:spr.coo_matrix, indices:list)->np.array:
-        keep = ~np.in1d(np.arange(V.shape[0]), indices)
+        keep = ~np.isin(np.arange(V.shape[0]), indices)
         return V[keep].copy()
 
     def restraintDOF(self,casename:str=None):
@@ -315,13 +315,13 @@ class Assembly(object):
 
 if __name__ == '__main__':
     # def drop_vector_dof(V:np.array, indices:list):
-    #     keep = ~np.in1d(np.arange(V.shape[0]), indices)
+    #     keep = ~np.isin(np.arange(V.shape[0]), indices)
     #     return V[keep].copy()
 
     # def __drop_matrix_dof(M:spr.coo_matrix, indices:list)->spr.coo_matrix:
     #     C = M
-    #     keepr = ~np.in1d(C.row, indices)
-    #     keepc = ~np.in1d(C.col, indices)
+    #     keepr = ~np.isin(C.row, indices)
+    #     keepc = ~np.isin(C.col, indices)
     #     keep=keepr*keepc
     #     data, row, col = C.data[keep], C.row[keep], C.col[keep]
     #     row2=row.copy()
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index b013d35..66e3400 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,15 +45,15 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.in1d(range(len(d)),mask)]
+        dd=d[np.isin(range(len(d)),mask)]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
-        axial=dd[np.in1d(range(12),[0,6])]
-        shear2bend3=dd[np.in1d(range(12),[1,5,7,11])]
-        shear3bend2=dd[np.in1d(range(12),[2,4,8,10])]
-        bend3=dd[np.in1d(range(12),[5,11])]
-        bend2=dd[np.in1d(range(12),[4,10])]
-        torsion=dd[np.in1d(range(12),[3,9])]
+        axial=dd[np.isin(range(12),[0,6])]
+        shear2bend3=dd[np.isin(range(12),[1,5,7,11])]
+        shear3bend2=dd[np.isin(range(12),[2,4,8,10])]
+        bend3=dd[np.isin(range(12),[5,11])]
+        bend2=dd[np.isin(range(12),[4,10])]
+        torsion=dd[np.isin(range(12),[3,9])]
         x=np.dot(N[:2],axial)
         w2=np.dot(N[2:6],shear2bend3)
         w3=np.dot(N[6:10],shear3bend2)
-- 
2.43.0


From 522a5c9dd059b9dd29c6a7eb00bd792fd734df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:09 +0000
Subject: [PATCH 17/80] fix: Assembly.get_node_transform_matrix returns the
 matrix

---
 hyperstatic/core/fe_model/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 820cf93..b02fcbb 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -37,7 +37,7 @@ class Assembly(object):
         return self.__model.get_node_hid(node)
 
     def get_node_transform_matrix(self,node:str):
-        return self.__model.get_node_hid(node)
+        return self.__model.get_node_transform_matrix(node)
 
     def get_beam_hid(self,elm:str):
         return self.__model.get_beam_hid(elm)
-- 
2.43.0


From 071b57539a4e07a29ad7ef363b3c191a4b9fec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:15 +0000
Subject: [PATCH 18/80] fix: end releases do not remove a member's lumped mass

---
 hyperstatic/core/fe_model/assembly.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index b02fcbb..f08f1bc 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -204,9 +204,8 @@ class Assembly(object):
             i,j=self.__model.get_beam_node_hids(elm)
             T=self.__model.get_beam_transform_matrix(elm)
             Tt = T.transpose()
-            #Static condensation to consider releases
+            #the lumped mass belongs to the nodes, end releases do not take it away
             Me=self.__model.get_beam_M(elm)
-            Me=self.__model.get_beam_condensated_matrix(elm,Me)
 
             Me_ = (Tt*Me*T).tocoo()
 
-- 
2.43.0


From a85313b7af0817554e75057807b391fd22b0d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:15 +0000
Subject: [PATCH 19/80] fix: member loads of a time history follow their curve

---
 hyperstatic/core/fe_model/assembly.py      | 2 +-
 hyperstatic/core/fe_model/load/__init__.py | 4 ++--
 hyperstatic/core/fe_model/load/loadcase.py | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index f08f1bc..7654b2d 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -243,7 +243,7 @@ class Assembly(object):
             #Transform matrix
             V=self.__model.get_beam_transform_matrix(beam)
             Vt = V.transpose()
-            re=loadcase.get_beam_f(beam,l)
+            re=loadcase.get_beam_f(beam,l,time_step)
             re=self.__model.get_beam_condensated_f(beam,re)
             re_=Vt.dot(re)
             k=0
diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 6642fef..185ce02 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -118,14 +118,14 @@ class LoadCase(object):
         return res
 
 
-    def get_beam_f(self,name,l):
+    def get_beam_f(self,name,l,time_step=0):
         fe=np.zeros(12)
         for patname,factor in self.__load_factor.items():
             pat=self.__pattern[patname]
             f=pat.get_beam_f(name,l)
             if f is None:
                 continue
-            fe+=f*factor
+            fe+=f*factor*self.__load_curve[patname][1,time_step]
         return fe
 
     def get_beam_f_dict(self,ldict):
diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 05dfd33..d838b64 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -40,8 +40,8 @@ class StaticCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
@@ -158,8 +158,8 @@ class TimeHistoryCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
-- 
2.43.0


From 8ba8a10454a8e8b03303bd2c051036d0509dfa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:14 +0000
Subject: [PATCH 20/80] fix: a case without supports of its own has the model's

---
 hyperstatic/core/fe_model/assembly.py | 4 +++-
 hyperstatic/core/fe_solver/static.py  | 6 +-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 7654b2d..23686a7 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -297,7 +297,9 @@ class Assembly(object):
         else:
             loadcase=self.__loadcase[casename]
             rest=loadcase.get_nodal_restraint_dict()
-            
+            if rest=={}: #case restraint first, then model
+                rest=self.__model.get_nodal_restraint_dict()
+
         dof=[]
         for node in rest.keys():
             i=self.__model.get_node_hid(node)
diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index c90d1fc..502edf7 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -116,9 +116,6 @@ class StaticSolver(Solver):
 
         logging.info('Done!'+" time cost: "+str(time.time()-begin))
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
-        if len(restraintDOF)==0:
-            restraintDOF=assembly.restraintDOF()
-
         restraintDOF.sort()
         delta=list(delta)
         d=[]
@@ -159,8 +156,7 @@ class StaticSolver(Solver):
 
         logging.info('Done!'+"time="+str(time.time()-begin))
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
-        if len(restraintDOF)==0:
-            restraintDOF=assembly.restraintDOF()
+        restraintDOF.sort()
         for i in restraintDOF: 
             delta=np.insert(delta,i,0,0)
 
-- 
2.43.0


From e2c6edd472d7ce6f7cc4235087d1f01cced7fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:07 +0000
Subject: [PATCH 21/80] fix: re-adding a name keeps its index

---
 hyperstatic/core/fe_model/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 43f29b4..580de09 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -77,7 +77,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__nodes) #hid
+            res=self.__hid['node'].get(name,len(self.__nodes)) #hid, a name keeps its own
             self.__hid['node'][name]=res
             self.__nodes[name]=node
         else:
@@ -153,7 +153,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams))
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -172,7 +172,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams))
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -298,7 +298,7 @@ class Model:
             elm=DKGQ(name,shell_sec,node0, node1, node2, node3)
         else:
             elm=DKT(name,shell_sec,node0, node1, node2)
-        res=len(self.__shells)
+        res=self.__hid["shell"].get(name,len(self.__shells))
         self.__hid["shell"][name]=res
         self.__shells[name]=elm
         return res
-- 
2.43.0


From 5c6f3bc32ee083c89e889bebb6b9348a32d7e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:07 +0000
Subject: [PATCH 22/80] fix: shell location and connection queries

---
 hyperstatic/core/fe_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 580de09..d37431f 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -307,10 +307,10 @@ class Model:
         return list(self.__shells.keys())
 
     def get_shell_connection(self,name:str):
-        return self.__shells[name].nodes[0].name,self.__shells[name].nodes[1].name,self.__shells[name].nodes[2].name,self.__shells[name].nodes[3].name
+        return tuple(node.name for node in self.__shells[name].nodes)
 
     def get_shell_location(self,name:str):
-        return tuple(self.__shells[name].nodes[0]),tuple(self.__shells[name].nodes[1]),tuple(self.__shells[name].nodes[2]),tuple(self.__shells[name].nodes[3])
+        return tuple(tuple(node.loc) for node in self.__shells[name].nodes)
 
     def get_shell_hid(self,name:str):
         return self.__hid['shell'][name]
-- 
2.43.0


From f7d1d72eca077123405b2f58a9ee5c0e32f6b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:07 +0000
Subject: [PATCH 23/80] fix: Model.set_beam_rotation rotates the beam

---
 hyperstatic/core/fe_model/model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index d37431f..742ee8c 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -184,11 +184,10 @@ class Model:
         set beams axis.
         
         params:
-            beam: hid of beam
-            x,y,z coordinate of reference vector.
+            name: name of beam
+            rotation: angle of the section about the beam's axis, in radian.
         """
-        beam=self.__beams[name]
-        pass
+        self.__beams[name].rotation=rotation
     
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
-- 
2.43.0


From ff6c27e94d79ef6accf10eebbd60ca8bc7a4503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 24/80] fix: beam deformation takes the end displacements in
 the beam's order

---
 hyperstatic/core/fe_post/beam.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 66e3400..f6ce198 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,7 +45,7 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.isin(range(len(d)),mask)]
+        dd=d[mask] #start first, whatever the order of the nodes
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
         axial=dd[np.isin(range(12),[0,6])]
@@ -60,8 +60,6 @@ class BeamResultResolver(ResultResolver):
         theta=np.dot(N[10:],torsion)
         phi2=np.dot(N_[2:6],shear2bend3)
         phi3=np.dot(N_[6:10],shear3bend2)
-        print(N_[2:6])   
-        print(shear2bend3[2:])     
         return np.array([x,w2,w3,theta,phi2,phi3])
          
 if __name__=="__main__":
-- 
2.43.0


From 5c9c4338e287f64ccb39fa3c74953286e912f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 25/80] fix: nodal reactions from the assembled stiffness and
 loads

---
 hyperstatic/core/__init__.py     | 2 +-
 hyperstatic/core/fe_post/node.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index cf76be3..7c6de42 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -855,7 +855,7 @@ class Api(object):
         """
         try:
             workpath=self.__workpath
-            resolver=NodeResultResolver(workpath)
+            resolver=NodeResultResolver(workpath,self.__filename)
             res=resolver.resolve_nodal_reaction(node,case,step=1)
             return res
         except Exception as e:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d2c0eb5..a68ce99 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -39,7 +39,8 @@ class NodeResultResolver(ResultResolver):
         """
         path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        k=np.load(os.path.join(path,casename+".k.npy"))
-        f=np.dot(k,d)
+        K=self.__assembly.assemble_K()
+        f=self.__assembly.assemble_f(casename,step-1).toarray().reshape(-1)
+        f=K.dot(d)-f #what the supports add to the loads
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From 6d667a04105f03df7eb2970173ac63f6528820e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 26/80] fix: beam end forces from local end displacements and
 member loads

---
 hyperstatic/core/fe_model/assembly.py |  8 ++++++++
 hyperstatic/core/fe_post/beam.py      | 13 +++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 23686a7..deb1129 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -51,6 +51,14 @@ class Assembly(object):
     def get_beam_K(self,elm:str):
         return self.__model.get_beam_K(elm)
 
+    def get_beam_condensated_K(self,elm:str):
+        return self.__model.get_beam_condensated_matrix(elm,self.__model.get_beam_K(elm))
+
+    def get_beam_condensated_f(self,elm:str,casename:str,time_step=0):
+        l=self.__model.get_beam_length(elm)
+        re=self.__loadcase[casename].get_beam_f(elm,l,time_step)
+        return self.__model.get_beam_condensated_f(elm,re)
+
     def get_beam_shape_function(self,elm:str):
         return self.__model.get_beam_shape_function(elm)
 
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index f6ce198..75fb1c9 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,13 +17,14 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__path
+        path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        K=self.__assembly.get_beam_K(name)
-        hids=self.__assembly.get_beam_node_hids(name)
-        dd=[d[i] for i in hids]
-        res = K*dd
-        return res
+        K=self.__assembly.get_beam_condensated_K(name)
+        f=self.__assembly.get_beam_condensated_f(name,casename,step-1)
+        T=self.__assembly.get_beam_transform_matrix(name)
+        i,j=self.__assembly.get_beam_node_hids(name)
+        dd=np.hstack([d[i*6:i*6+6],d[j*6:j*6+6]])
+        return K.dot(T.dot(dd))-f
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
         """Resolve beam deformation
-- 
2.43.0


From c319aeb79fb0849b3160cffb323a6811feabfc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:27 +0000
Subject: [PATCH 27/80] fix: modes are put back at their own degrees of freedom

---
 hyperstatic/core/fe_solver/dynamic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 229d6d8..017b1a9 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -63,7 +63,9 @@ class ModalSolver(Solver):
             k=assembly.DOF
         omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
         # omega2s,modes =linalg.eig(K_.todense()[6:,6:],M_.todense()[6:,6:])
-        mode_= modes.T # row first
+        restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
+        mode_=np.zeros((k,assembly.node_count*6)) # row first, including the restraint DOFs
+        mode_[:,~np.isin(np.arange(assembly.node_count*6),restraintDOF)]=modes.T
         omega2s=omega2s.reshape(k)
         logging.info('Done!')
         path=os.path.join(self.workpath,casename+'.d') #vibration mode, ad nodal displacement
-- 
2.43.0


From 239ca5e7347238e75ac421e07752e474d29a954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:27 +0000
Subject: [PATCH 28/80] fix: all modes of a small structure can be extracted

---
 hyperstatic/core/fe_solver/dynamic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 017b1a9..53e2df8 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -58,10 +58,14 @@ class ModalSolver(Solver):
         K_=assembly.assemble_boundary(casename,K)
         M_=assembly.assemble_boundary(casename,M)
 
-        if k>assembly.DOF:
-            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%assembly.DOF)
-            k=assembly.DOF
-        omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        DOF=K_.shape[0]
+        if k>DOF:
+            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%DOF)
+            k=DOF
+        if k<DOF:
+            omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        else: #eigsh cannot extract all of them
+            omega2s,modes = linalg.eigh(K_.toarray(),M_.toarray())
         # omega2s,modes =linalg.eig(K_.todense()[6:,6:],M_.todense()[6:,6:])
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
         mode_=np.zeros((k,assembly.node_count*6)) # row first, including the restraint DOFs
-- 
2.43.0


From fd6346feb51075f60b5299678623cc49413ed884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:27 +0000
Subject: [PATCH 29/80] fix: modal frequencies from omega, not omega squared

---
 hyperstatic/core/fe_post/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index 8391bab..b1a84df 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -14,7 +14,7 @@ class StructureResultResolver(ResultResolver):
 
     def resolve_modal_frequency(self,casename:str)->dict:
         path=self.__workpath
-        omega=np.load(os.path.join(path,casename+".o.npy"))
+        omega=np.sqrt(np.load(os.path.join(path,casename+".o.npy"))) #the solver stores omega squared
         T=2*np.pi/omega
         f=1/T
         return {
-- 
2.43.0


From ec0083ba975212bd05bf70e999954c269015df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:28 +0000
Subject: [PATCH 30/80] fix: solve_eigen takes the number of modes
 Api.solve_modal passes

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 53e2df8..9db9716 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -33,11 +33,11 @@ class ModalSolver(Solver):
         elif setting["algorithm"]=='ritz':
             pass
 
-    def solve_eigen(self,casename:str)->bool:
+    def solve_eigen(self,casename:str,num:int=None)->bool:
         assembly=super().assembly
         logging.info('solving problem with %d DOFs...'%assembly.DOF)
         setting=assembly.get_loadcase_setting(casename)
-        k=setting['n_modes']
+        k=setting['n_modes'] if num is None else num
         precase=setting['base_case']
         if precase==None:
             base_case="0"
-- 
2.43.0


From 269ff86a301ac16f9b9f907d6a2929c62a9a787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:01 +0000
Subject: [PATCH 31/80] fix: Api.add_beam_section_pipe adds a pipe

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 7c6de42..accab46 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -336,7 +336,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_beam_section_rectangle(name,material,d,t)
+            self.__model.add_beam_section_pipe(name,material,d,t)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding pipe beam section")
-- 
2.43.0


From 1c43f4891ffd56e4c1ac54e8ed8fb08e108fdc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:01 +0000
Subject: [PATCH 32/80] fix: Api.add_shell passes section and nodes in the
 model's order

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index accab46..db2e2d3 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -475,7 +475,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_shell(name,node1,node2,node3,node4,section)
+            self.__model.add_shell(name,section,node1,node2,node3,node4)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding beam")
-- 
2.43.0


From 38cbcee35ed2b88b04ee3c18976822413806969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:01 +0000
Subject: [PATCH 33/80] fix: Api.set_nodal_restraint reports an unknown node

---
 hyperstatic/core/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index db2e2d3..a4d88d3 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -557,8 +557,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
-            return True
+            return self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
         except Exception as e:
             logging.warning(str(e)+" when setting nodal restraints")
             return False
-- 
2.43.0


From d4838cad9ae3b4f80871c83afa98ad29089eef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 34/80] fix: time histories of any number of degrees of freedom

---
 hyperstatic/core/fe_solver/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 9db9716..27b8c9a 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -233,7 +233,7 @@ class TimeHistorySolver(Solver):
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
-            f_hat=(f_.reshape(1,6)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])).reshape(6,1)
+            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])
             d,info=sl.cg(M_hat,f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
-- 
2.43.0


From 2a667b4a8b05f7777d1d611e98956bb5c1d7cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 35/80] fix: time history steps from the last two states

---
 hyperstatic/core/fe_solver/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 27b8c9a..b8805ec 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -233,7 +233,7 @@ class TimeHistorySolver(Solver):
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
-            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])
+            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:])
             d,info=sl.cg(M_hat,f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
-- 
2.43.0


From fc8200b4a889023ab9b3f9f9acf8649a11ed0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 36/80] fix: each step of a time history is solved directly

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index b8805ec..9530ff9 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -227,14 +227,14 @@ class TimeHistorySolver(Solver):
         c2=2*c0
         c3=1/c2
         u[0,:]=u[1,:]-dt*v[1,:]+c3*a[1,:] #central diff
-        M_hat=c0*M_+c1*C_
+        M_hat=(c0*M_+c1*C_).tocsc()
 #         L,D,perm=linalg.ldl(M_hat)
         tmax,tmin=assembly.get_max_min_step(casename)
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
             f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:])
-            d,info=sl.cg(M_hat,f_hat)
+            d=sl.spsolve(M_hat,f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
             # a.append(c0*(a[t-1]-2*a[t]+a[t+1]))
-- 
2.43.0


From abee881a9c39b6e10d949738c28c228606236ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 37/80] fix: time history uses the case's damping ratio

---
 hyperstatic/core/fe_solver/dynamic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 9530ff9..98f37da 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -202,8 +202,8 @@ class TimeHistorySolver(Solver):
         ########Simple damping
 
         ########Reileigh Damping
-        xi_i=0.05
-        xi_j=0.02
+        xi_i=damping
+        xi_j=damping
         T_i=2.0
         T_j=1.0
         omega_i=2*np.pi/T_i
@@ -211,7 +211,6 @@ class TimeHistorySolver(Solver):
         a0=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(xi_i*omega_j-xi_j*omega_i)
         a1=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(-xi_i/omega_j+xi_j/omega_i)
         C=(a0*M+a1*K).tocoo()
-        print(a0,a1)
 
         #########Cauchy Damping
 
-- 
2.43.0


From 9e81acbf36d2c54b8b01185ce3e7fd88b37e9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 38/80] fix: time history results at their own degrees of
 freedom

---
 hyperstatic/core/fe_solver/dynamic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 98f37da..553dc7b 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -237,8 +237,11 @@ class TimeHistorySolver(Solver):
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
             # a.append(c0*(a[t-1]-2*a[t]+a[t+1]))
+        restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
+        u_=np.zeros((u.shape[0],assembly.node_count*6)) # row first, including the restraint DOFs
+        u_[:,~np.isin(np.arange(assembly.node_count*6),restraintDOF)]=u
         path=os.path.join(self.workpath,casename+'.d')
-        np.save(path,u[1:,:]) #neglect t=-1
+        np.save(path,u_[1:,:]) #neglect t=-1
         return True
 
 
-- 
2.43.0


From 033de81bb40d7d71e235b3dc48158e1f0b3adead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:38 +0000
Subject: [PATCH 39/80] fix: sine and cosine curves have the number of points
 asked for

---
 hyperstatic/common/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/curve.py b/hyperstatic/common/curve.py
index fe1abb2..623abda 100644
--- a/hyperstatic/common/curve.py
+++ b/hyperstatic/common/curve.py
@@ -25,12 +25,12 @@ class Curve(object):
 
     @staticmethod
     def sin(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.sin(w*x+phi)
         return Curve(name,x,y)
 
     @staticmethod
     def cos(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.cos(w*x+phi)
         return Curve(name,x,y)
\ No newline at end of file
-- 
2.43.0


From dacd02528cbda047aa47a478d3ba31df2a0fe1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 40/80] fix: Duhamel's integral decays with damping times the
 natural frequency

---
 hyperstatic/app/seismic/wave2spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 428d6b5..573cea8 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -76,7 +76,7 @@ def duhamel(ω,ζ,t,p):
     """ 
     dt=(t[-1]-t[0])/(len(t)-1)
     ω_=ω*np.sqrt(1-ζ**2)
-    q=np.exp(-ζ*ω_*t)*np.sin(ω_*t)
+    q=np.exp(-ζ*ω*t)*np.sin(ω_*t)
     Sd=1/ω_*convolve(p,q)[:len(t)]*dt
     Sv=Sd*ω_
     Sa=Sv*ω_
-- 
2.43.0


From f6571ae82d01af5501204627a606edb5be918833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 41/80] fix: response spectra take the peak of either sign

---
 hyperstatic/app/seismic/wave2spec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 573cea8..e4fb5c4 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -62,9 +62,9 @@ def wave2spectrum(file,dt,ξ,a_max,startline=1):
     for _T in T:
         _ω=2*np.pi/_T
         Sa,Sv,Sd=duhamel(_ω,ξ,t,ag)
-        sa.append(max(Sa)/9.8)
-        sv.append(max(Sv))
-        sd.append(max(Sd))
+        sa.append(max(abs(Sa))/9.8)
+        sv.append(max(abs(Sv)))
+        sd.append(max(abs(Sd)))
     return T,sa,sv,sd
 
 def duhamel(ω,ζ,t,p):
-- 
2.43.0


From 0c285cdc3ea50a65bae8e155cc6e9b6426b17008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 42/80] fix: waves are scaled by their peak of either sign

---
 hyperstatic/app/seismic/wave2spec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index e4fb5c4..fec5d8a 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -36,7 +36,7 @@ def read_wave(filename,startline=0):
     return list(ag)
 
 def amptitude(wave,a_max):
-    m=max(wave)
+    m=max(abs(i) for i in wave)
     return [i*a_max/m for i in wave]
 
 def wave2spectrum(file,dt,ξ,a_max,startline=1):
@@ -50,7 +50,7 @@ def wave2spectrum(file,dt,ξ,a_max,startline=1):
     """
     ag=read_wave(os.path.join(file),startline)
     ag=np.array(ag)
-    ag=0.01*ag*a_max/np.max(ag)
+    ag=0.01*ag*a_max/np.max(np.abs(ag))
     # ag=amptitude(ag,a_max)
     # ag=[0.01*i for i in ag]
     T=np.arange(dt,6.0+dt,dt)
@@ -94,7 +94,7 @@ def fft2spec(file,dt,ξ,a_max):
     """
     ag=read_wave(os.path.join(file))
     ag=np.array(ag)
-    ag=0.01*ag*a_max/np.max(ag) #cm/s2 -> m/s2
+    ag=0.01*ag*a_max/np.max(np.abs(ag)) #cm/s2 -> m/s2
     T=np.arange(dt,6.0+dt,dt)
     nex2pow=lambda x: int(round(2**np.ceil(np.log(x)/np.log(2.)))) #求采样点
     im=np.lib.scimath.sqrt(-1)
-- 
2.43.0


From a5bd1f7aea11878dad3be89ea87fb3758c52c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:15 +0000
Subject: [PATCH 43/80] fix: triangles with a downward normal

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 253d275..c6455de 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -16,7 +16,7 @@ class Tria(Element):
         n=np.cross(vec1,vec2)
         n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
-        if np.linalg.norm(n-np.array([0,0,1]))<tol:
+        if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
             csys = Cartesian.create_by_normal(o, n)
-- 
2.43.0


From e979b42b8e584c52276bd8117931e2b9947962a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:24 +0000
Subject: [PATCH 44/80] fix: area of a triangle in any plane

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index c6455de..20b1efa 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -21,9 +21,7 @@ class Tria(Element):
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Tria,self).__init__(name,[node_i,node_j,node_k],2,dof,csys)
-        self.__area=0.5*np.linalg.det(np.array([[1,1,1],
-                                    [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                                    [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
+        self.__area=0.5*np.linalg.det(np.array([n,node_j.loc-node_i.loc,node_k.loc-node_i.loc]))
 
     @property
     def area(self):
-- 
2.43.0


From 9bd050adad0aabd5ea3a28e86f5c9802bf298bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:24 +0000
Subject: [PATCH 45/80] fix: area of a quadrilateral

---
 .../core/fe_model/element/quad/__init__.py        | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index 4b9b781..084f6c7 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -19,19 +19,8 @@ class Quad(Element):
             csys = Cartesian.create_by_normal(o, n)
         super(Quad,self).__init__(name,[node_i,node_j,node_k,node_l],2,dof,csys)
         #area is considered as the average of trangles generated by splitting the quand with diagonals
-        area=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        self.__area=area/4
+        tri=lambda a,b,c:0.5*np.linalg.norm(np.cross(b.loc-a.loc,c.loc-a.loc))
+        self.__area=(tri(node_i,node_j,node_k)+tri(node_i,node_k,node_l)+tri(node_i,node_j,node_l)+tri(node_j,node_k,node_l))/2
 
     @property
     def area(self):
-- 
2.43.0


From dc5d14d9e0e500b07a8d5e7f2fa285caa7841ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:24 +0000
Subject: [PATCH 46/80] fix: triangular shells heed the section's type

---
 hyperstatic/core/fe_model/element/tria/DKT.py | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/tria/DKT.py b/hyperstatic/core/fe_model/element/tria/DKT.py
index af5212d..dcc8429 100644
--- a/hyperstatic/core/fe_model/element/tria/DKT.py
+++ b/hyperstatic/core/fe_model/element/tria/DKT.py
@@ -25,19 +25,23 @@ class DKT(Tria):
         E=self.__section.E
         mu=self.__section.mu
         t=self.__section.t
-        def func(x):
-            res=[]
-            for xi,eta in zip(x[0],x[1]):
-                res.append(bBDBp(E,mu,t,xi,eta,*tuple(X_.reshape(X_.size))))
-            return np.stack(res,axis=2)
-        scheme = quadpy.t2.get_good_scheme(12)
-        Kp =2*self.area* scheme.integrate(
-            func,
-            [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]],
-        )
-        bBDBm=T9.get_binary_BDB()
-        Km = 2*t*self.area*bBDBm(E,mu,t,*tuple(X_.reshape(X_.size)))
-        
+        Kp=np.zeros((9,9))
+        Km=np.zeros((6,6))
+        if self.__section.ele_type=="plate" or self.__section.ele_type=="shell":
+            def func(x):
+                res=[]
+                for xi,eta in zip(x[0],x[1]):
+                    res.append(bBDBp(E,mu,t,xi,eta,*tuple(X_.reshape(X_.size))))
+                return np.stack(res,axis=2)
+            scheme = quadpy.t2.get_good_scheme(12)
+            Kp =2*self.area* scheme.integrate(
+                func,
+                [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]],
+            )
+        if self.__section.ele_type=="membrane" or self.__section.ele_type=="shell":
+            bBDBm=T9.get_binary_BDB()
+            Km = 2*t*self.area*bBDBm(E,mu,t,*tuple(X_.reshape(X_.size)))
+
         K=np.zeros((18,18))
         for i in range(3):
             for j in range(3):
-- 
2.43.0


From c1cad2ea4f54327c0c689f6ebb0c4d4aece5872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:09 +0000
Subject: [PATCH 47/80] fix: the application model can be imported

---
 hyperstatic/app/general/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/app/general/model.py b/hyperstatic/app/general/model.py
index 566c3e7..beb0a7c 100644
--- a/hyperstatic/app/general/model.py
+++ b/hyperstatic/app/general/model.py
@@ -16,21 +16,19 @@ ResultModalPeriod,ResultJointDisplacement,ResultJointReaction,ResultFrameForce,R
 
 from hyperstatic.core.fe_model.model import Model as FEModel
 
-from hyperstatic.core.fe_solver.static import solve_linear
-from hyperstatic.core.fe_solver.dynamic import solve_modal
 from hyperstatic.app.general.io import dxf
 from hyperstatic.app.general import db
 from hyperstatic.app.general.environment import project
 from hyperstatic.app.general.property import material
 from hyperstatic.app.general.property import frame_section
 from hyperstatic.app.general.property import area_section
-from Hyperstatic.hyperstatic.app.general.load import loadcase
+from hyperstatic.app.general.load import loadcase
 from hyperstatic.app.general.post import combination
 from hyperstatic.app.general.object import joint
 from hyperstatic.app.general.object import frame
 from hyperstatic.app.general.object import area
 from hyperstatic.app.general.environment import curve
-from hyperstatic.app.general import result
+from hyperstatic.app.general.result import result
 
 import logging
 
@@ -335,6 +333,8 @@ class Model():
         return:
             None.
         """
+        from hyperstatic.core.fe_solver.static import solve_linear
+        from hyperstatic.core.fe_solver.dynamic import solve_modal
         if not self.fe_model.is_assembled:
             logging.info('Mesh model...')
             self.mesh()
-- 
2.43.0


From 480eaab79614ffe19cc6a23af811f5e4cd924b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 48/80] fix: joints are looked up in the current unit on both
 sides

---
 hyperstatic/app/general/object/joint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index 5d19ead..4aeb3eb 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -215,11 +215,11 @@ def get_joint_name_by_coor(self,x=None,y=None,z=None):
         pts=self.session.query(Joint)
         scale=self.scale()
         if x is not None:
-            pts=pts.filter(and_((Joint.x-x*scale['L'])<tol,(x-Joint.x*scale['L'])<tol))
+            pts=pts.filter(and_((Joint.x-x*scale['L'])<tol,(x*scale['L']-Joint.x)<tol))
         if y is not None:
-            pts=pts.filter(and_((Joint.y-y*scale['L'])<tol,(y-Joint.y*scale['L'])<tol))
+            pts=pts.filter(and_((Joint.y-y*scale['L'])<tol,(y*scale['L']-Joint.y)<tol))
         if z is not None:
-            pts=pts.filter(and_((Joint.z-z*scale['L'])<tol,(z-Joint.z*scale['L'])<tol))
+            pts=pts.filter(and_((Joint.z-z*scale['L'])<tol,(z*scale['L']-Joint.z)<tol))
         names=[pt.name for pt in pts.all()]
         return names
     except Exception as e:
-- 
2.43.0


From b93def4da200ca1c2161c7b879f1e9a077eacce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 49/80] fix: joint loads are stored

---
 hyperstatic/app/general/object/joint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index 4aeb3eb..c789577 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -125,12 +125,12 @@ def set_joint_load(self,joint,loadcase,load):
         scale=self.scale()
         ld.joint_name=joint
         ld.loadcase_name=loadcase
-        ld.p1=load[0]*scale['F']
-        ld.p2=load[1]*scale['F']
-        ld.p3=load[2]*scale['F']
-        ld.m1=load[3]*scale['F']*scale['L']
-        ld.m2=load[4]*scale['F']*scale['L']
-        ld.m3=load[5]*scale['F']*scale['L']
+        ld.u1=load[0]*scale['F']
+        ld.u2=load[1]*scale['F']
+        ld.u3=load[2]*scale['F']
+        ld.r1=load[3]*scale['F']*scale['L']
+        ld.r2=load[4]*scale['F']*scale['L']
+        ld.r3=load[5]*scale['F']*scale['L']
         self.session.add(ld)
         return True
     except Exception as e:
-- 
2.43.0


From f40a216ba9edb19849e2d3757216e9f7154e57a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 50/80] fix: distributed frame loads are per unit of length

---
 hyperstatic/app/general/object/frame.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 7a49944..0f7fdd4 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -167,18 +167,18 @@ def set_frame_load_distributed(self,frame,loadcase,load):
         scale=self.scale()
         ld.frame_name=frame
         ld.loadcase_name=loadcase
-        ld.p01=load[0]*scale['F']
-        ld.p02=load[1]*scale['F']
-        ld.p03=load[2]*scale['F']
-        ld.m01=load[3]*scale['F']*scale['L']
-        ld.m02=load[4]*scale['F']*scale['L']
-        ld.m03=load[5]*scale['F']*scale['L']
-        ld.p11=load[6]*scale['F']
-        ld.p12=load[7]*scale['F']
-        ld.p13=load[8]*scale['F']
-        ld.m11=load[9]*scale['F']*scale['L']
-        ld.m12=load[10]*scale['F']*scale['L']
-        ld.m13=load[11]*scale['F']*scale['L']
+        ld.p01=load[0]*scale['F']/scale['L']
+        ld.p02=load[1]*scale['F']/scale['L']
+        ld.p03=load[2]*scale['F']/scale['L']
+        ld.m01=load[3]*scale['F']
+        ld.m02=load[4]*scale['F']
+        ld.m03=load[5]*scale['F']
+        ld.p11=load[6]*scale['F']/scale['L']
+        ld.p12=load[7]*scale['F']/scale['L']
+        ld.p13=load[8]*scale['F']/scale['L']
+        ld.m11=load[9]*scale['F']
+        ld.m12=load[10]*scale['F']
+        ld.m13=load[11]*scale['F']
         self.session.add(ld)
         return True
     except Exception as e:
-- 
2.43.0


From f188b57d7a04b2ec8b2afec3e0407908ac857285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 51/80] fix: both ends of a frame are in the current unit

---
 hyperstatic/app/general/object/frame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 0f7fdd4..e918e70 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -41,11 +41,11 @@ def add_frame(self,pt0_coor,pt1_coor,section,name=None):
         pt0_name=pt0.name
         
     pt1=self.session.query(Joint).filter(and_(
-                (Joint.x-pt1_coor[0])<tol,(pt1_coor[0]-Joint.x)<tol,
-                 (Joint.y-pt1_coor[1])<tol,(pt1_coor[1]-Joint.y)<tol,
-                  (Joint.z-pt1_coor[2])<tol,(pt1_coor[2]-Joint.z)<tol)).first()
+                (Joint.x-pt1_coor[0]*scale['L'])<tol,(pt1_coor[0]*scale['L']-Joint.x)<tol,
+                 (Joint.y-pt1_coor[1]*scale['L'])<tol,(pt1_coor[1]*scale['L']-Joint.y)<tol,
+                  (Joint.z-pt1_coor[2]*scale['L'])<tol,(pt1_coor[2]*scale['L']-Joint.z)<tol)).first()
     if pt1==None:
-        pt1_name=self.add_joint(pt1_coor[0],pt1_coor[1],pt1_coor[2])
+        pt1_name=self.add_joint(pt1_coor[0]*scale['L'],pt1_coor[1]*scale['L'],pt1_coor[2]*scale['L'])
     else:
         pt1_name=pt1.name
     
-- 
2.43.0


From f28be133e5277ceceba15acebd05a5920f686b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 52/80] fix: a changed modulus is in the current unit

---
 hyperstatic/app/general/property/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/material.py b/hyperstatic/app/general/property/material.py
index 84c7fdc..2cd32df 100644
--- a/hyperstatic/app/general/property/material.py
+++ b/hyperstatic/app/general/property/material.py
@@ -69,7 +69,8 @@ def set_material_isotropic_elastic(self,name,E,mu):
         material=self.session.query(Material).filter_by(name=name).first()
         if material==None:
             raise Exception("Name doesn't exist!")
-        material.isotropic_elastic.E=E
+        scale=self.scale()
+        material.isotropic_elastic.E=E*(scale['F']*scale['L']**-2)
         material.isotropic_elastic.mu=mu
         self.session.add(material)
         return True
-- 
2.43.0


From 09dba6625480294e46b61b8e6455ce79cf7b5552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 53/80] fix: I sections keep their thicknesses

---
 hyperstatic/app/general/property/frame_section.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index 5cea443..e522167 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -245,15 +245,15 @@ def add_frame_section(self,name,material,type,size):
             assert len(size)==4
             frmsec.size_0=size[0]*scale['L']
             frmsec.size_1=size[1]*scale['L']
-            frmsec.size_2=size[0]*scale['L']
-            frmsec.size_3=size[1]*scale['L']
+            frmsec.size_2=size[2]*scale['L']
+            frmsec.size_3=size[3]*scale['L']
             sec=ISection(None,frmsec.size_0,frmsec.size_1,frmsec.size_2,frmsec.size_3)
         elif type=='L':####should be refined!!
             assert len(size)==4
             frmsec.size_0=size[0]*scale['L']
             frmsec.size_1=size[1]*scale['L']
-            frmsec.size_2=size[0]*scale['L']
-            frmsec.size_3=size[1]*scale['L']
+            frmsec.size_2=size[2]*scale['L']
+            frmsec.size_3=size[3]*scale['L']
             sec=HollowBox(None,frmsec.size_0,frmsec.size_1,frmsec.size_2,frmsec.size_3)
         frmsec.A=sec.A
         frmsec.J=sec.J
-- 
2.43.0


From c76b01413349499dc1fccd9533ebbaaf9ac7949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 54/80] fix: hollow boxes are added under their own code

---
 hyperstatic/app/general/property/frame_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index e522167..d0e198d 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -248,7 +248,7 @@ def add_frame_section(self,name,material,type,size):
             frmsec.size_2=size[2]*scale['L']
             frmsec.size_3=size[3]*scale['L']
             sec=ISection(None,frmsec.size_0,frmsec.size_1,frmsec.size_2,frmsec.size_3)
-        elif type=='L':####should be refined!!
+        elif type=='B':
             assert len(size)==4
             frmsec.size_0=size[0]*scale['L']
             frmsec.size_1=size[1]*scale['L']
-- 
2.43.0


From ac14a8556a22bbaebc0415a70a8830e8efbc58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 55/80] fix: the ends of a frame are returned in its direction

---
 hyperstatic/app/general/object/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index e918e70..8e1244c 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -308,6 +308,8 @@ def get_frame_end_names(self,frame):
         frm=self.session.query(Frame).filter_by(name=frame).first()
         if frm is None:
             raise Exception("Frame doesn't exists.")
+        if frm.order=='10':
+            return frm.pt1.name,frm.pt0.name
         return frm.pt0.name,frm.pt1.name
     except Exception as e:
         logging.info(str(e))
@@ -326,8 +328,7 @@ def get_frame_end_coors(self,frame):
         frm=self.session.query(Frame).filter_by(name=frame).first()
         if frm is None:
             raise Exception("Frame doesn't exists.")
-        pt0=frm.pt0
-        pt1=frm.pt1
+        pt0,pt1=(frm.pt1,frm.pt0) if frm.order=='10' else (frm.pt0,frm.pt1)
         return [pt0.x/scale['L'],pt0.y/scale['L'],pt0.z/scale['L'],pt1.x/scale['L'],pt1.y/scale['L'],pt1.z/scale['L']]
     except Exception as e:
         logging.info(str(e))
-- 
2.43.0


From f2d79ea6107f6517aaccba8d144efa089e287a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:50 +0000
Subject: [PATCH 56/80] fix: the period of one order can be read

---
 hyperstatic/app/general/result/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/result/result.py b/hyperstatic/app/general/result/result.py
index 701d0b6..eb57c1b 100644
--- a/hyperstatic/app/general/result/result.py
+++ b/hyperstatic/app/general/result/result.py
@@ -76,5 +76,5 @@ def get_result_period(self,loadcase,order='all'):
     if order=='all':
         return [r.period for r in res.all()]
     elif type(order)==int:
-        res=res.filter_by(order=order).all()
+        res=res.filter_by(order=order)
         return [r.period for r in res.all()]
\ No newline at end of file
-- 
2.43.0


From cf142918325abee90be3a4bd484854eb6ef166aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 57/80] fix: a batch of frames keeps the joints already in use

---
 hyperstatic/app/general/object/frame.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 8e1244c..62d6ebc 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -94,10 +94,20 @@ def add_frame_batch(self,pt_coors,section):
         pts=self.session.query(Joint).order_by(Joint.x,Joint.y,Joint.z).all()
         pt_map=dict([(pt.name,pt.name) for pt in pts])
         pts_to_rmv=[]
-        for pti,ptj in zip(pts[:-1],pts[1:]):
-            if (ptj.x-pti.x)**2+(ptj.y-pti.y)**2+(ptj.z-pti.z)**2<tol**2:
-                pt_map[ptj.name]=pt_map[pti.name]
-                pts_to_rmv.append(ptj)
+        new=set(name for ends in frm_ends for name in ends)
+        groups=[]
+        for ptj in pts:
+            pti=groups[-1][-1] if groups else None
+            if pti is not None and (ptj.x-pti.x)**2+(ptj.y-pti.y)**2+(ptj.z-pti.z)**2<tol**2:
+                groups[-1].append(ptj)
+            else:
+                groups.append([ptj])
+        for group in groups: #joints already in use stay
+            keep=([pt for pt in group if pt.name not in new]+group)[0]
+            for pt in group:
+                if pt.name in new and pt is not keep:
+                    pt_map[pt.name]=keep.name
+                    pts_to_rmv.append(pt)
         for (pt0_name,pt1_name) in frm_ends:
             frm=Frame()
             if pt_map[pt0_name]<pt_map[pt1_name]:
-- 
2.43.0


From 8cf985e354b42f271e627658f478e8aeea449466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 58/80] fix: area sections need a material, as frame sections
 do

---
 hyperstatic/app/general/property/area_section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/area_section.py b/hyperstatic/app/general/property/area_section.py
index 20ccf2b..91e2356 100644
--- a/hyperstatic/app/general/property/area_section.py
+++ b/hyperstatic/app/general/property/area_section.py
@@ -6,7 +6,7 @@ Created on Thu Jun 23 21:32:16 2016
 """
 import uuid
 
-from hyperstatic.app.general.orm import AreaSection
+from hyperstatic.app.general.orm import Material,AreaSection
 import logging
 
 def add_area_section(self,name,material,type,t):
@@ -30,6 +30,8 @@ def add_area_section(self,name,material,type,t):
         scale=self.scale()
         if self.session.query(AreaSection).filter_by(name=name).first()!=None:
             raise Exception('Name already exists!')
+        if self.session.query(Material).filter_by(name=material).first() is None:
+            raise Exception('Material not exist!')
         areasec=AreaSection()
         areasec.name=name
         areasec.uuid=str(uuid.uuid1())
-- 
2.43.0


From 8df27e3bd88fabfc09cf785017cba53d78aaae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 59/80] fix: objects of the application model can be deleted

---
 hyperstatic/app/general/load/loadcase.py          | 4 ++--
 hyperstatic/app/general/load/pattern.py           | 4 ++--
 hyperstatic/app/general/object/area.py            | 4 ++--
 hyperstatic/app/general/object/frame.py           | 4 ++--
 hyperstatic/app/general/object/joint.py           | 2 +-
 hyperstatic/app/general/property/area_section.py  | 4 ++--
 hyperstatic/app/general/property/frame_section.py | 3 ++-
 7 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/hyperstatic/app/general/load/loadcase.py b/hyperstatic/app/general/load/loadcase.py
index 0359607..de2e5f4 100644
--- a/hyperstatic/app/general/load/loadcase.py
+++ b/hyperstatic/app/general/load/loadcase.py
@@ -108,11 +108,11 @@ def get_loadcase_names(self):
 
 def delete_loadcase(self,name):
     try:
-        lc=self.session.query(LoadCase).filter_by(name=name)
+        lc=self.session.query(LoadCase).filter_by(name=name).first()
         if lc is None:
             raise Exception("Loadcase section doen't exist!")
         self.session.delete(lc)
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/load/pattern.py b/hyperstatic/app/general/load/pattern.py
index 0359607..de2e5f4 100644
--- a/hyperstatic/app/general/load/pattern.py
+++ b/hyperstatic/app/general/load/pattern.py
@@ -108,11 +108,11 @@ def get_loadcase_names(self):
 
 def delete_loadcase(self,name):
     try:
-        lc=self.session.query(LoadCase).filter_by(name=name)
+        lc=self.session.query(LoadCase).filter_by(name=name).first()
         if lc is None:
             raise Exception("Loadcase section doen't exist!")
         self.session.delete(lc)
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/object/area.py b/hyperstatic/app/general/object/area.py
index d4e3992..199ab8d 100644
--- a/hyperstatic/app/general/object/area.py
+++ b/hyperstatic/app/general/object/area.py
@@ -184,11 +184,11 @@ def get_area_names(self):
     
 def delete_area(self,name):
     try:
-        area=self.session.query(Area).filter_by(name=name)
+        area=self.session.query(Area).filter_by(name=name).first()
         if area is None:
             raise Exception("Area section doen't exist!")
         self.session.delete(area)
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 62d6ebc..04cf97a 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -356,11 +356,11 @@ def get_frame_section_attribute(self,name):
 
 def delete_frame(self,name):
     try:
-        frm=self.session.query(Frame).filter_by(name=name)
+        frm=self.session.query(Frame).filter_by(name=name).first()
         if frm is None:
             raise Exception("Frame doen't exist!")
         self.session.delete(frm)
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index c789577..d14d7b2 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -328,7 +328,7 @@ def set_joint_name(self,name):
     
 def delete_joint(self,name):
     try:
-        pt=self.session.query(Joint).filter_by(name=name)
+        pt=self.session.query(Joint).filter_by(name=name).first()
         if pt is None:
             raise Exception("Joint doen't exist!")
         self.session.delete(pt)
diff --git a/hyperstatic/app/general/property/area_section.py b/hyperstatic/app/general/property/area_section.py
index 91e2356..7d0c899 100644
--- a/hyperstatic/app/general/property/area_section.py
+++ b/hyperstatic/app/general/property/area_section.py
@@ -66,11 +66,11 @@ def get_area_section_names(self):
     
 def delete_area_section(self,name):
     try:
-        sec=self.session.query(AreaSection).filter_by(name=name)
+        sec=self.session.query(AreaSection).filter_by(name=name).first()
         if sec is None:
             raise Exception("Area section doen't exist!")
         self.session.delete(sec)
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index d0e198d..21ee6f2 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -292,11 +292,12 @@ def get_frame_section_names(self):
     
 def delete_frame_section(self,name):
     try:
-        sec=self.session.query(FrameSection).filter_by(name=name)
+        sec=self.session.query(FrameSection).filter_by(name=name).first()
         if sec is None:
             raise Exception("Frame section doen't exist!")
         self.session.delete(sec)
     except Exception as e:
         logging.info(str(e))
         self.session.rollback()
+        return False
         return False
\ No newline at end of file
-- 
2.43.0


From 52125e49137fbc5d0b9e5b848c2c1a3d025d5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 60/80] fix: what belongs to an object is deleted with it

---
 hyperstatic/app/general/orm.py | 78 +++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/hyperstatic/app/general/orm.py b/hyperstatic/app/general/orm.py
index b2e7c2c..fed7b3c 100644
--- a/hyperstatic/app/general/orm.py
+++ b/hyperstatic/app/general/orm.py
@@ -35,7 +35,7 @@ class Material(Base):
     uuid=Column('uuid',String(32),nullable=False)
     #1 to 1
     isotropic_elastic=relationship('IsotropicElastic',
-                                   backref=backref('material',uselist=False),uselist=False) #1 to 1
+                                   backref=backref('material',uselist=False),uselist=False,cascade='all') #1 to 1
     #1 to many
     frame_sections=relationship('FrameSection',backref='material')
     area_sections=relationship('AreaSection',backref='material')
@@ -98,30 +98,30 @@ class LoadCase(Base):
     uuid=Column('uuid',String(32),nullable=False)
     
     #1 to 1
-    static_linear_setting=relationship('LoadCaseStaticLinearSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_modal_setting=relationship('LoadCaseModalSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_2nd_setting=relationship('LoadCase2ndSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_3nd_setting=relationship('LoadCase3ndSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_response_spectrum_setting=relationship('LoadCaseResponseSpectrumSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_time_history_setting=relationship('LoadCaseTimeHistorySetting',backref=backref('loadcase',uselist=False),uselist=False)
+    static_linear_setting=relationship('LoadCaseStaticLinearSetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
+    loadcase_modal_setting=relationship('LoadCaseModalSetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
+    loadcase_2nd_setting=relationship('LoadCase2ndSetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
+    loadcase_3nd_setting=relationship('LoadCase3ndSetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
+    loadcase_response_spectrum_setting=relationship('LoadCaseResponseSpectrumSetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
+    loadcase_time_history_setting=relationship('LoadCaseTimeHistorySetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
 
     #1 to many    
-    joint_load=relationship('JointLoad',backref='loadcase')
-    joint_disp=relationship('JointDisp',backref='loadcase')
-    frame_load_distributed=relationship('FrameLoadDistributed',backref='loadcase')
-    frame_load_concentrated=relationship('FrameLoadConcentrated',backref='loadcase')
-    frame_load_strain=relationship('FrameLoadStrain',backref='loadcase')
-    frame_load_temperature=relationship('FrameLoadTemperature',backref='loadcase')
-    area_load_to_frame=relationship('AreaLoadToFrame',backref='loadcase')
-    area_load_distributed=relationship('AreaLoadDistributed',backref='loadcase')
-    area_load_strain=relationship('AreaLoadStrain',backref='loadcase')
-    area_load_temperature=relationship('AreaLoadTemperature',backref='loadcase')
-    
-    result_joint_displacement=relationship('ResultJointDisplacement',backref='loadcase')
-    result_joint_reaction=relationship('ResultJointReaction',backref='loadcase')
-    result_frame_force=relationship('ResultFrameForce',backref='loadcase')
-    result_area_stress=relationship('ResultAreaStress',backref='loadcase')
-    result_modal_displacement=relationship('ResultModalDisplacement',backref='loadcase')
+    joint_load=relationship('JointLoad',backref='loadcase',cascade='all')
+    joint_disp=relationship('JointDisp',backref='loadcase',cascade='all')
+    frame_load_distributed=relationship('FrameLoadDistributed',backref='loadcase',cascade='all')
+    frame_load_concentrated=relationship('FrameLoadConcentrated',backref='loadcase',cascade='all')
+    frame_load_strain=relationship('FrameLoadStrain',backref='loadcase',cascade='all')
+    frame_load_temperature=relationship('FrameLoadTemperature',backref='loadcase',cascade='all')
+    area_load_to_frame=relationship('AreaLoadToFrame',backref='loadcase',cascade='all')
+    area_load_distributed=relationship('AreaLoadDistributed',backref='loadcase',cascade='all')
+    area_load_strain=relationship('AreaLoadStrain',backref='loadcase',cascade='all')
+    area_load_temperature=relationship('AreaLoadTemperature',backref='loadcase',cascade='all')
+    
+    result_joint_displacement=relationship('ResultJointDisplacement',backref='loadcase',cascade='all')
+    result_joint_reaction=relationship('ResultJointReaction',backref='loadcase',cascade='all')
+    result_frame_force=relationship('ResultFrameForce',backref='loadcase',cascade='all')
+    result_area_stress=relationship('ResultAreaStress',backref='loadcase',cascade='all')
+    result_modal_displacement=relationship('ResultModalDisplacement',backref='loadcase',cascade='all')
     
 
 class LoadCaseStaticLinearSetting(Base):
@@ -175,7 +175,7 @@ class Combination(Base):
     uuid=Column('uuid',String(32),nullable=False)
     
     #1 to many
-    combination_cases=relationship('CombinationCase',backref='combination')
+    combination_cases=relationship('CombinationCase',backref='combination',cascade='all')
     
 class CombinationCase(Base):
     __tablename__='combination_cases'
@@ -192,10 +192,10 @@ class Joint(Base):
     uuid=Column('uuid',String(32),nullable=False)
     
     #1 to 1
-    joint_restraint=relationship('JointRestraint',backref=backref('joint',uselist=False))
-    joint_load=relationship('JointLoad',backref=backref('joint',uselist=False))
-    joint_disp=relationship('JointDisp',backref=backref('joint',uselist=False))
-    joint_mass=relationship('JointMass',backref=backref('joint',uselist=False))
+    joint_restraint=relationship('JointRestraint',backref=backref('joint',uselist=False),cascade='all')
+    joint_load=relationship('JointLoad',backref=backref('joint',uselist=False),cascade='all')
+    joint_disp=relationship('JointDisp',backref=backref('joint',uselist=False),cascade='all')
+    joint_mass=relationship('JointMass',backref=backref('joint',uselist=False),cascade='all')
     
     def __repr__(self):
         return '%s<%r>'%(self.__class__.__name__,self.name)
@@ -289,12 +289,12 @@ class Frame(Base):
     uuid=Column('uuid',String(32),nullable=False)
     
     #1 to 1
-    frame_axis=relationship('FrameAxis',backref=backref('frame',uselist=False))
-    frame_release=relationship('FrameRelease',backref=backref('frame',uselist=False))
-    frame_load_distributed=relationship('FrameLoadDistributed',backref=backref('frame',uselist=False))
-    frame_load_concentrated=relationship('FrameLoadConcentrated',backref=backref('frame',uselist=False))
-    frame_load_strain=relationship('FrameLoadStrain',backref=backref('frame',uselist=False))
-    frame_load_temperature=relationship('FrameLoadTemperature',backref=backref('frame',uselist=False))
+    frame_axis=relationship('FrameAxis',backref=backref('frame',uselist=False),cascade='all')
+    frame_release=relationship('FrameRelease',backref=backref('frame',uselist=False),cascade='all')
+    frame_load_distributed=relationship('FrameLoadDistributed',backref=backref('frame',uselist=False),cascade='all')
+    frame_load_concentrated=relationship('FrameLoadConcentrated',backref=backref('frame',uselist=False),cascade='all')
+    frame_load_strain=relationship('FrameLoadStrain',backref=backref('frame',uselist=False),cascade='all')
+    frame_load_temperature=relationship('FrameLoadTemperature',backref=backref('frame',uselist=False),cascade='all')
     
     def __repr__(self):
         return '%s<%r>'%(self.__class__.__name__,self.name)
@@ -380,11 +380,11 @@ class Area(Base):
     uuid=Column('uuid',String(32),nullable=False)   
     
     #1 to 1
-    area_axis=relationship('AreaAxis',backref=backref('area',uselist=False))
-    area_load_to_frame=relationship('AreaLoadToFrame',backref=backref('area',uselist=False))
-    area_load_distributed=relationship('AreaLoadDistributed',backref=backref('area',uselist=False))
-    area_load_strain=relationship('AreaLoadStrain',backref=backref('area',uselist=False))
-    area_load_temperature=relationship('AreaLoadTemperature',backref=backref('area',uselist=False))
+    area_axis=relationship('AreaAxis',backref=backref('area',uselist=False),cascade='all')
+    area_load_to_frame=relationship('AreaLoadToFrame',backref=backref('area',uselist=False),cascade='all')
+    area_load_distributed=relationship('AreaLoadDistributed',backref=backref('area',uselist=False),cascade='all')
+    area_load_strain=relationship('AreaLoadStrain',backref=backref('area',uselist=False),cascade='all')
+    area_load_temperature=relationship('AreaLoadTemperature',backref=backref('area',uselist=False),cascade='all')
     
 class AreaAxis(Base):
     __tablename__='area_axis'
-- 
2.43.0


From afa1291630060657c55972db96a09f0c87861430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 61/80] fix: a batch of restraints replaces those already set

---
 hyperstatic/app/general/object/joint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index d14d7b2..41e4403 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -48,7 +48,9 @@ def set_joint_restraint_batch(self,joints,restraints):
         assert len(restraints)==6
         reses=[]
         for joint in joints:
-            res=JointRestraint()
+            res=self.session.query(JointRestraint).filter_by(joint_name=joint).first()
+            if res is None:
+                res=JointRestraint()
             res.joint_name=joint
             res.u1=restraints[0]
             res.u2=restraints[1]
-- 
2.43.0


From fd668ddd25aa6cf78521aa44a4a455239d1c1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 62/80] fix: load cases of the documented type '3rd' get their
 settings

---
 hyperstatic/app/general/load/loadcase.py | 2 +-
 hyperstatic/app/general/load/pattern.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/app/general/load/loadcase.py b/hyperstatic/app/general/load/loadcase.py
index de2e5f4..0762859 100644
--- a/hyperstatic/app/general/load/loadcase.py
+++ b/hyperstatic/app/general/load/loadcase.py
@@ -42,7 +42,7 @@ def add_loadcase(self,name,case_type,weight_factor=0,**kwargs):
             setting=LoadCase2ndSetting()
             setting.loadcase_name=lc.name
             self.session.add(setting)
-        if case_type=='3nd':
+        if case_type=='3rd':
             setting=LoadCase3ndSetting()
             setting.loadcase_name=lc.name
             self.session.add(setting)
diff --git a/hyperstatic/app/general/load/pattern.py b/hyperstatic/app/general/load/pattern.py
index de2e5f4..0762859 100644
--- a/hyperstatic/app/general/load/pattern.py
+++ b/hyperstatic/app/general/load/pattern.py
@@ -42,7 +42,7 @@ def add_loadcase(self,name,case_type,weight_factor=0,**kwargs):
             setting=LoadCase2ndSetting()
             setting.loadcase_name=lc.name
             self.session.add(setting)
-        if case_type=='3nd':
+        if case_type=='3rd':
             setting=LoadCase3ndSetting()
             setting.loadcase_name=lc.name
             self.session.add(setting)
-- 
2.43.0


From 7b46d792958d4bfd0c17d904bffd45224e8b0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 63/80] fix: the project's description is stored

---
 hyperstatic/app/general/orm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/orm.py b/hyperstatic/app/general/orm.py
index fed7b3c..dd4ad45 100644
--- a/hyperstatic/app/general/orm.py
+++ b/hyperstatic/app/general/orm.py
@@ -17,7 +17,7 @@ Base=declarative_base()
 class Config(Base):
     __tablename__='configs'
     project_name=Column('project_name',String(64),primary_key=True)
-    discription=Column('discription',Text)
+    description=Column('discription',Text)
     author=Column('author',String(64))
     program_version=('program_version',String(8))
     unit=Column('unit',String(10),default='N_m_C')
-- 
2.43.0


From bde8c03b8134e6fe704538a28ad7dbeada3b99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 64/80] fix: opening a file that is not there creates it

---
 hyperstatic/app/general/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/db.py b/hyperstatic/app/general/db.py
index f28ceff..9de388a 100644
--- a/hyperstatic/app/general/db.py
+++ b/hyperstatic/app/general/db.py
@@ -52,7 +52,7 @@ def open(self,database):
     """
     assert(database[-4:]=='.mdo')
     if not os.path.exists(database):
-        self._create(database)
+        self.create(database)
     operate_db=database[:-4]+'.op'
     shutil.copy(database,operate_db)
 #        engine=create_engine('sqlite:///:memory:')
-- 
2.43.0


From b5bdcb43f144c24f1e6f5d296364623a0467e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:27 +0000
Subject: [PATCH 65/80] fix: torsion constants of rectangles, pipes and boxes
 of the application

---
 hyperstatic/app/general/property/frame_section.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index 21ee6f2..8d8c25b 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -20,7 +20,8 @@ class Rectangle(FrameCrossSection):
         self.h=h
         self.b=b
         A=h*b
-        J=h*b**3/3 #WRONG!!!
+        s=sum([np.tanh(m*np.pi*h/2/b)/m**5 for m in range(1,60,2)]) #membrane analogy
+        J=h*b**3*(1/3-64*b/(np.pi**5*h)*s)
         I33=b*h**3/12
         I22=h*b**3/12
         W33=I33/h*2
@@ -58,7 +59,7 @@ class Pipe(FrameCrossSection):
         self._d=d
         self._t=t
         A=np.pi*d**2/4-np.pi*(d-2*t)**2/4
-        J=np.pi*(d-t)/t*2*A
+        J=np.pi*d**4/32*(1-((d-2*t)/d)**4)
         I33=np.pi*d**4/64*(1-((d-2*t)/d)**4)
         I22=I33
         W33=I33/d*2
@@ -89,7 +90,7 @@ class HollowBox(FrameCrossSection):
         self.tw=tw
         self.tf=tf
         A=h*b-(h-2*tf)*(b-2*tw)
-        J=(2*tw*(h-tf)/tw+2*tf*(b-tw)/tf)*2*A
+        J=4*((h-tf)*(b-tw))**2/(2*(h-tf)/tw+2*(b-tw)/tf)
         I33=b*h**3/12-(b-2*tw)*(h-2*tf)**3/12
         I22=h*b**3/12-(h-2*tf)*(b-2*tw)**3/12
         W33=I33/h*2
-- 
2.43.0


From 7d4a755952cb9dfd9d2ab0fc4556a8ab3ac58985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:27 +0000
Subject: [PATCH 66/80] fix: inertia of I sections with unequal flanges

---
 hyperstatic/app/general/property/frame_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index 8d8c25b..3ca32c5 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -157,7 +157,7 @@ class ISection2(FrameCrossSection):
         I33=tw*hw**3/12
         I33+=b1*tf1**3/12+b1*tf1*(hw/2+tf1/2)**2
         I33+=b2*tf2**3/12+b2*tf2*(hw/2+tf2/2)**2
-        I33-=A*(y0-h/2)**2
+        I33-=A*(y0-(tf2+hw/2))**2
         
         I22=b1**3*tf1/12+b2**3*tf2/12+tw**3*hw/12
         W33=I33/max([y0,h-y0])
-- 
2.43.0


From 7e8651585e7d9e9cd6d9d1c1d6b5319aa3b4bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 67/80] fix: joints of one place merge whatever lies between
 them

---
 hyperstatic/app/general/object/frame.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 04cf97a..1201659 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -96,12 +96,20 @@ def add_frame_batch(self,pt_coors,section):
         pts_to_rmv=[]
         new=set(name for ends in frm_ends for name in ends)
         groups=[]
-        for ptj in pts:
-            pti=groups[-1][-1] if groups else None
-            if pti is not None and (ptj.x-pti.x)**2+(ptj.y-pti.y)**2+(ptj.z-pti.z)**2<tol**2:
-                groups[-1].append(ptj)
-            else:
-                groups.append([ptj])
+        group_of={}
+        for j,ptj in enumerate(pts):
+            group=[]
+            for i in range(j-1,-1,-1): #others may lie between two joints of one place
+                pti=pts[i]
+                if ptj.x-pti.x>=tol:
+                    break
+                if (ptj.x-pti.x)**2+(ptj.y-pti.y)**2+(ptj.z-pti.z)**2<tol**2:
+                    group=group_of[pti.name]
+                    break
+            if group==[]:
+                groups.append(group)
+            group.append(ptj)
+            group_of[ptj.name]=group
         for group in groups: #joints already in use stay
             keep=([pt for pt in group if pt.name not in new]+group)[0]
             for pt in group:
-- 
2.43.0


From c075cb649ce6394d3db8893fb611f69a6183afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 68/80] fix: nodes stay shown when the deformation is reset

---
 hyperstatic/app/viz/viz_core/result_deformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/viz/viz_core/result_deformation.py b/hyperstatic/app/viz/viz_core/result_deformation.py
index 39a8aac..cca73f7 100644
--- a/hyperstatic/app/viz/viz_core/result_deformation.py
+++ b/hyperstatic/app/viz/viz_core/result_deformation.py
@@ -115,7 +115,7 @@ class ResultViewer(ViewerBase):
         self.plotter.remove(self.vnodes)
         self.plotter.remove(self.vbeams)
         self.plotter.remove(self.vshells)
-        self.vnodes=Points(list(pts.values()), r=8, c="blue5").off()
+        self.vnodes=Points(list(pts.values()), r=8, c="blue5")
         self.vbeams=Lines(list(lines.values()))
         self.vshells=Mesh([list(pts.values()),list(self.faces.values())])
         self.vshells.color('b5').backColor('violet').lineColor('tomato').lineWidth(1)
-- 
2.43.0


From 4a4c1d0de9af370435b83e9eaa39f898e9fd78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 69/80] fix: the deformed nodes replace the undeformed ones

---
 hyperstatic/app/viz/viz_core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/viz/viz_core/__init__.py b/hyperstatic/app/viz/viz_core/__init__.py
index 9baa3ad..7de4da1 100644
--- a/hyperstatic/app/viz/viz_core/__init__.py
+++ b/hyperstatic/app/viz/viz_core/__init__.py
@@ -65,7 +65,7 @@ class ViewerBase():
             pts[n]=(x,y,z)
         self.vnodes = Points(list(pts.values()), r=8, c="blue5")
         self.vnodes.off()
-        self.actors["node"]=self.vnodes
+        self.actors["nodes"]=self.vnodes
 
     def init_restraints(self):
         api=self.api
-- 
2.43.0


From a9166836c9b26600ee6155458f2e63f836a7c339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 70/80] fix: viewers open models in relative folders

---
 hyperstatic/app/viz/viz_core/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstatic/app/viz/viz_core/__init__.py b/hyperstatic/app/viz/viz_core/__init__.py
index 7de4da1..c893861 100644
--- a/hyperstatic/app/viz/viz_core/__init__.py
+++ b/hyperstatic/app/viz/viz_core/__init__.py
@@ -22,7 +22,6 @@ import os
 class ViewerBase():
     def __init__(self,workpath,filename,qtWidget=None):
         self.workpath=workpath
-        filename=os.path.join(workpath,filename)
         self.api:Api=Api.load(workpath,filename)
         self.pts={}
         self.lines={}
-- 
2.43.0


From 6754a62dc0027525f11add6a0c4f09c0fa8535e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 71/80] fix: the beam button shows beams

---
 hyperstatic/app/viz/viz_core/model_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/viz/viz_core/model_load.py b/hyperstatic/app/viz/viz_core/model_load.py
index 0bfd801..47ddfb6 100644
--- a/hyperstatic/app/viz/viz_core/model_load.py
+++ b/hyperstatic/app/viz/viz_core/model_load.py
@@ -66,7 +66,7 @@ class LoadViewer(ViewerBase):
         if self.__btn_beam.status()=="hide_beam":
             self.vbeams.off()
         else:
-            self.vshells.on()
+            self.vbeams.on()
         self.__btn_beam.switch() 
 
     def toggle_shell(self):
-- 
2.43.0


From afc1f47350ef31e19005cdf2ba0b72d54315d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 72/80] fix: buttons of the load viewer without beams or shells

---
 hyperstatic/app/viz/viz_core/model_load.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hyperstatic/app/viz/viz_core/model_load.py b/hyperstatic/app/viz/viz_core/model_load.py
index 47ddfb6..04c8111 100644
--- a/hyperstatic/app/viz/viz_core/model_load.py
+++ b/hyperstatic/app/viz/viz_core/model_load.py
@@ -63,17 +63,19 @@ class LoadViewer(ViewerBase):
         self.__btn_node.switch() 
 
     def toggle_beam(self):
-        if self.__btn_beam.status()=="hide_beam":
-            self.vbeams.off()
-        else:
-            self.vbeams.on()
+        if not self.vbeams==None:
+            if self.__btn_beam.status()=="hide_beam":
+                self.vbeams.off()
+            else:
+                self.vbeams.on()
         self.__btn_beam.switch() 
 
     def toggle_shell(self):
-        if self.__btn_shell.status()=="hide_shell":
-            self.vshells.off()
-        else:
-            self.vshells.on()
+        if not self.vshells==None:
+            if self.__btn_shell.status()=="hide_shell":
+                self.vshells.off()
+            else:
+                self.vshells.on()
         self.__btn_shell.switch()     
 
     def toggle_node_name(self):
-- 
2.43.0


From caceabbfe55be527f6b67da365fb47329d6bc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:41 +0000
Subject: [PATCH 73/80] fix: refuse unknown joints when restraining a batch

---
 hyperstatic/app/general/object/joint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index 41e4403..bed11a6 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -46,8 +46,10 @@ def set_joint_restraint_batch(self,joints,restraints):
     """
     try:
         assert len(restraints)==6
-        reses=[]
         for joint in joints:
+            pt=self.session.query(Joint).filter_by(name=joint).first()
+            if pt is None:
+                raise Exception("Joint doesn't exists.")
             res=self.session.query(JointRestraint).filter_by(joint_name=joint).first()
             if res is None:
                 res=JointRestraint()
@@ -58,8 +60,7 @@ def set_joint_restraint_batch(self,joints,restraints):
             res.r1=restraints[3]
             res.r2=restraints[4]
             res.r3=restraints[5]
-            reses.append(res)
-        self.session.add_all(reses)
+            self.session.add(res)
         return True
     except Exception as e:
         logging.info(str(e))
-- 
2.43.0


From cdf5f4c38761b9d73e5c14a3138ad777963deac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:41 +0000
Subject: [PATCH 74/80] fix: refuse to assign a frame section that does not
 exist

---
 hyperstatic/app/general/object/frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 1201659..0d00044 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -154,6 +154,8 @@ def set_frame_section(self,frame,section):
         frm=self.session.query(Frame).filter_by(name=frame).first()
         if frm is None:
             raise Exception("Frame doesn't exists.")
+        if self.session.query(FrameSection).filter_by(name=section).first() is None:
+            raise Exception("Frame section doesn't exits!")
         frm.section_name=section
         self.session.add(frm)
         return True
-- 
2.43.0


From 79db67ff4a94d223fa7da274ec19c9f886d24939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:26 +0000
Subject: [PATCH 75/80] fix: delete settings and results with the load case,
 joint or frame they belong to

---
 hyperstatic/app/general/orm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hyperstatic/app/general/orm.py b/hyperstatic/app/general/orm.py
index dd4ad45..070ab5d 100644
--- a/hyperstatic/app/general/orm.py
+++ b/hyperstatic/app/general/orm.py
@@ -104,6 +104,7 @@ class LoadCase(Base):
     loadcase_3nd_setting=relationship('LoadCase3ndSetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
     loadcase_response_spectrum_setting=relationship('LoadCaseResponseSpectrumSetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
     loadcase_time_history_setting=relationship('LoadCaseTimeHistorySetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
+    loadcase_buckling_setting=relationship('LoadCaseBucklingSetting',backref=backref('loadcase',uselist=False),uselist=False,cascade='all')
 
     #1 to many    
     joint_load=relationship('JointLoad',backref='loadcase',cascade='all')
@@ -121,6 +122,7 @@ class LoadCase(Base):
     result_joint_reaction=relationship('ResultJointReaction',backref='loadcase',cascade='all')
     result_frame_force=relationship('ResultFrameForce',backref='loadcase',cascade='all')
     result_area_stress=relationship('ResultAreaStress',backref='loadcase',cascade='all')
+    result_modal_period=relationship('ResultModalPeriod',backref='loadcase',cascade='all')
     result_modal_displacement=relationship('ResultModalDisplacement',backref='loadcase',cascade='all')
     
 
@@ -197,6 +199,11 @@ class Joint(Base):
     joint_disp=relationship('JointDisp',backref=backref('joint',uselist=False),cascade='all')
     joint_mass=relationship('JointMass',backref=backref('joint',uselist=False),cascade='all')
     
+    #1 to many
+    result_joint_displacement=relationship('ResultJointDisplacement',backref='joint',cascade='all')
+    result_joint_reaction=relationship('ResultJointReaction',backref='joint',cascade='all')
+    result_modal_displacement=relationship('ResultModalDisplacement',backref='joint',cascade='all')
+    
     def __repr__(self):
         return '%s<%r>'%(self.__class__.__name__,self.name)
     
@@ -296,6 +303,9 @@ class Frame(Base):
     frame_load_strain=relationship('FrameLoadStrain',backref=backref('frame',uselist=False),cascade='all')
     frame_load_temperature=relationship('FrameLoadTemperature',backref=backref('frame',uselist=False),cascade='all')
     
+    #1 to many
+    result_frame_force=relationship('ResultFrameForce',backref='frame',cascade='all')
+    
     def __repr__(self):
         return '%s<%r>'%(self.__class__.__name__,self.name)
 
-- 
2.43.0


From 903ad390ee7e91ef33a2acbb21022c1345059ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:07 +0000
Subject: [PATCH 76/80] fix: reset the view without calculate_size, which does
 not exist

---
 hyperstatic/app/viz/viz_core/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstatic/app/viz/viz_core/__init__.py b/hyperstatic/app/viz/viz_core/__init__.py
index c893861..3da836b 100644
--- a/hyperstatic/app/viz/viz_core/__init__.py
+++ b/hyperstatic/app/viz/viz_core/__init__.py
@@ -162,7 +162,6 @@ class ViewerBase():
         cx,cy,cz=maxx/2+minx/2,maxy/2+miny/2,maxz/2+minz/2
         rx,ry,rz=maxx/2-minx/2,maxy/2-miny/2,maxz/2-minz/2
         r=max(rx,ry,rz)
-        self.calculate_size()
         self.plotter.show(
             *tuple(self.actors.values()),
             viewup="z", 
-- 
2.43.0


From b9e31ed2750a7501e1ecd9bb0a6ea329aa1a085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:25 +0000
Subject: [PATCH 77/80] fix: open the load viewer on models without nodal loads

---
 hyperstatic/app/viz/viz_core/model_load.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/app/viz/viz_core/model_load.py b/hyperstatic/app/viz/viz_core/model_load.py
index 04c8111..306b744 100644
--- a/hyperstatic/app/viz/viz_core/model_load.py
+++ b/hyperstatic/app/viz/viz_core/model_load.py
@@ -85,12 +85,13 @@ class LoadViewer(ViewerBase):
         self.reset()
 
     def toggle_nodal_load(self):
-        if self.__btn_nodal_load.status()=="hide_nodal_load":
-            self.__vnodeload.off()
-            self.__vnodeload.scalarbar.VisibilityOff()
-        else:
-            self.__vnodeload.on()
-            self.__vnodeload.scalarbar.VisibilityOn()
+        if not self.__vnodeload==None:
+            if self.__btn_nodal_load.status()=="hide_nodal_load":
+                self.__vnodeload.off()
+                self.__vnodeload.scalarbar.VisibilityOff()
+            else:
+                self.__vnodeload.on()
+                self.__vnodeload.scalarbar.VisibilityOn()
         self.__btn_nodal_load.switch() 
 
     def toggle_beam_name(self):
@@ -118,6 +119,9 @@ class LoadViewer(ViewerBase):
         f_value=[]
         m_value=[]
         load_dict=api.get_all_nodal_load("pat1")
+        if not load_dict: #no such pattern, or no nodal load in it
+            self.__vnodeload=None
+            return
         for n in api.get_node_names():
             if n in api.get_all_nodal_load("pat1").keys():
                 x,y,z=api.get_node_location(n)
-- 
2.43.0


From abaf2e788a65e735b087a2a6965564171fd89477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:53 +0000
Subject: [PATCH 78/80] fix: export a drawing to the folder asked for when it
 is relative

---
 hyperstatic/app/general/io/dxf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/io/dxf.py b/hyperstatic/app/general/io/dxf.py
index 93720fb..fccbe9f 100644
--- a/hyperstatic/app/general/io/dxf.py
+++ b/hyperstatic/app/general/io/dxf.py
@@ -83,7 +83,7 @@ def export_dxf(self,path,filename,overwrite=False):
         coors=[self.get_frame_end_coors(frm) for frm in frames]
         for coor in coors:
             modelspace.add_line(coor[:3], coor[3:])  # add a LINE entity
-        dwg.saveas(os.path.join(path,dxf_file))
+        dwg.saveas(dxf_file)
         return True
     except Exception as e:
         logging.info(str(e))
-- 
2.43.0


From 9f6e048d2066915c3ebd4e3d3aa221399be162d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:22 +0000
Subject: [PATCH 79/80] fix: let a load case list its member loads by member

---
 hyperstatic/core/fe_model/load/__init__.py | 2 +-
 hyperstatic/core/fe_model/load/pattern.py  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 185ce02..7f5de31 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -136,7 +136,7 @@ class LoadCase(object):
                 if beam in res.keys():
                     res[beam]+=load*self.__load_factor[patname]
                 else:
-                    res[beam]=np.zeros(6)
+                    res[beam]=load*self.__load_factor[patname]
         return res
 
     def get_settings(self)->dict:
diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 50fbfd8..833506e 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -139,6 +139,11 @@ class LoadPattern(object):
             r[11]+=-v[1]*a*a*b/l/l+v[5]*(-a*(3*b-l)/l/l)#
         return r
 
+    def get_beam_f_dict(self,ldict):
+        names=list(self.__beam_distributed.keys())
+        names+=[name for name in self.__beam_concentrated.keys() if name not in names]
+        return dict((name,self.get_beam_f(name,ldict[name])) for name in names)
+
     # def set_node_force(self,node,force,append=False):
     #     """
     #     add node force to model.
-- 
2.43.0


From 1be20164e0f5e849fa3a2d6cca4a0828aca65111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:22 +0000
Subject: [PATCH 80/80] fix: add materials by code complete and in SI, and
 report it

---
 hyperstatic/app/general/property/material.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/app/general/property/material.py b/hyperstatic/app/general/property/material.py
index 2cd32df..b817ca0 100644
--- a/hyperstatic/app/general/property/material.py
+++ b/hyperstatic/app/general/property/material.py
@@ -57,8 +57,11 @@ def add_material_quick(self,code):
         boolean, status of success.
     """
     try:
-        if code=='Q345':
-            self.add_material(name=code,rho=7850,mat_type='isoelastic',E=2.06e11,mu=0.3)
+        if code!='Q345':
+            raise Exception('Unknown material code!')
+        scale=self.scale()
+        return self.add_material(name=code,rho=7850/(scale['F']*scale['L']**-4),mat_type='isotropic_elastic',
+                                 E=2.06e11/(scale['F']*scale['L']**-2),mu=0.3)
     except Exception as e:
         logging.info(str(e))
         self.session.rollback()
-- 
2.43.0

