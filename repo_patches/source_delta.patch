From 2f13fa32a731e733c326e83a2aeaaf92b314205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 01/28] fix: R2rot returns a finite, correctly signed unit axis
 at and near half turns

The axis was rebuilt from square roots of the diagonal, giving NaN when
rounding made an entry negative and wrong signs when the first component
was tiny. Identity now returns an array like every other rotation, so the
result can be passed to rot2q.
---
 .../general_robotics_toolbox.py                    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index bea5303..ea566be 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -108,15 +108,13 @@ def R2rot(R):
     if sin_theta < 1e-6:
                
         if (cos_theta > 0):
-            return [0,0,1], 0
+            return np.array([0.0,0.0,1.0]), 0.0
         else:
-            B = (1.0/2.0) *(R + np.eye(3))
-            k = np.sqrt([B[0,0], B[1,1], B[2,2]])
-            if np.abs(k[0]) > 1e-6:
-                k[1] = k[1] * np.sign(B[0,1] / k[0])
-                k[2] = k[2] * np.sign(B[0,2] / k[0])
-            elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[0,2] / k[1])
+            # R is symmetric here up to rounding, with (R + I)/2 = k*k^T.
+            # Use the largest column since the others may vanish
+            B = (1.0/4.0) * (R + R.transpose()) + (1.0/2.0) * np.eye(3)
+            k = B[:,np.argmax(np.diag(B))]
+            k = k / np.linalg.norm(k)
             return k, np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
-- 
2.43.0


From f6182fe78229b51f1556ffb84fce12719b6ef841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 02/28] fix: q2rot handles scalar parts at or past +/-1 by
 rounding

arccos gave NaN for a scalar part just above 1 and the axis was zero or
not a unit vector near -1.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index ea566be..4484f3a 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -205,10 +205,11 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    theta = 2 * np.arccos(q[0])
-    if np.abs(theta) < 1e-6:
+    sin_half_theta = np.linalg.norm(q[1:4])
+    if sin_half_theta < 0.5e-6:
         return np.array([0,0,1]), 0.0
-    k = q[1:4]/np.sin(theta/2.0)
+    theta = 2 * np.arctan2(sin_half_theta, q[0])
+    k = q[1:4]/sin_half_theta
     return k, theta
 
 def rot2q(k, theta):
-- 
2.43.0


From b85f77033e57b7d3fafc88dc01436fa58b7ffd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 03/28] fix: slerp of equal quaternions no longer returns NaN

The dot product of equal unit quaternions can exceed 1 by rounding.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 4484f3a..0216d71 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -320,7 +320,7 @@ def slerp(q0, q1, t):
     if (np.dot(q0,q1) < 0):
         q0 = -q0
     
-    theta = np.arccos(np.dot(q0,q1))
+    theta = np.arccos(np.clip(np.dot(q0,q1), -1.0, 1.0))
     
     if (np.abs(theta) < 1e-6):
         return q0
-- 
2.43.0


From 1f85fbed1a5ca13a6d0160b03e6ca067194f7c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 04/28] fix: subproblems 0 and 1 accept rounding and reject
 non-perpendicular input

The perpendicularity assertion of subproblem 0 lacked an absolute value, so
it accepted vectors far from perpendicular, and its machine-epsilon
tolerance made subproblem 1 fail on ordinary input. Vectors on the axis no
longer give NaN.
---
 .../general_robotics_toolbox.py                   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 0216d71..9754aad 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -655,15 +655,14 @@ def subproblem0(p, q, k):
     :return: theta angle as scalar in radians
     """
     
-    eps = np.finfo(np.float64).eps    
-    assert (np.dot(k,p) < eps) and (np.dot(k,q) < eps), \
-           "k must be perpendicular to p and q"
-    
     norm = np.linalg.norm
     
     ep = p / norm(p)
     eq = q / norm(q)
     
+    assert (np.abs(np.dot(k,ep)) < 1e-8) and (np.abs(np.dot(k,eq)) < 1e-8), \
+           "k must be perpendicular to p and q"
+    
     theta = 2 * np.arctan2( norm(ep - eq), norm (ep + eq))
     
     if (np.dot(k,np.cross(p , q)) < 0):
@@ -699,6 +698,14 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
+    # p or q is on the axis, so any angle is a solution
+    if norm(pp) <= 100*eps*norm(p) or norm(qp) <= 100*eps*norm(q):
+        return 0.0
+    
+    # Project again to remove the rounding left from a nearly parallel p or q
+    pp = np.subtract(pp,np.dot(pp, k)*k)
+    qp = np.subtract(qp,np.dot(qp, k)*k)
+    
     epp = np.divide(pp, norm(pp))    
     eqp = np.divide(qp, norm(qp))
     
-- 
2.43.0


From ad7f902b0dc259dee95df57f8063af6568c77b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 05/28] fix: subproblem2 solves the tangent case

When the cones touch, the angles were computed around the wrong axes and a
value negative by rounding was reported as no solution, so robots at a
wrist singularity such as their home pose had no inverse kinematics.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 9754aad..1e56eb4 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -759,6 +759,8 @@ def subproblem2(p, q, k1, k2):
     
     bb = (np.dot(p,p) - np.dot(a,a) - 2*a[0]*a[1]*k12)
     if (np.abs(bb) < eps): bb=0
+    # The cones touch when bb is zero. Allow for rounding.
+    if (bb < 0 and bb > -1e-10*np.dot(p,p)): bb=0
     
     if (bb < 0):
         warnings.warn("No solution - no intersection found between cones")
@@ -768,8 +770,8 @@ def subproblem2(p, q, k1, k2):
     if (np.abs(gamma) < eps):
         cm=np.array([k1, k2, np.cross(k1,k2)]).T
         c1 = np.dot(cm, np.hstack((a, gamma)))
-        theta2 = subproblem1(k2, p, c1)
-        theta1 = -subproblem1(k1, q, c1)
+        theta2 = subproblem1(p, c1, k2)
+        theta1 = -subproblem1(q, c1, k1)
         return [(theta1, theta2)]
     
     cm=np.array([k1, k2, np.cross(k1,k2)]).T
-- 
2.43.0


From 9aa90cbde90cbd601867da85e79c557e39dce694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 06/28] fix: subproblem3 handles stretched, folded and on-axis
 configurations

Rounding past +/-1 at a fully stretched or folded elbow was reported as no
solution, the folded case returned the same angle twice, and points on the
axis gave NaN.
---
 .../general_robotics_toolbox.py               | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 1e56eb4..fbfb593 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -812,19 +812,30 @@ def subproblem3(p, q, k, d):
     qp = np.subtract(q,np.dot(np.dot(q, k),k))
     dpsq = d**2 - ((np.dot(k, np.add(p,q)))**2)
     
-    bb=-(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)/(2*norm(pp)*norm(qp))
+    aa = 2*norm(pp)*norm(qp)
+    bb = -(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)
     
-    if dpsq < 0 or np.abs(bb) > 1:
+    # p or q is on the axis, so the distance does not depend on theta
+    if aa <= 1e-12*(norm(p)+norm(q))**2:
+        if np.abs(bb) <= 1e-12*(norm(p)+norm(q))**2:
+            return [0.0]
+        warnings.warn("No solution - no rotation can achieve specified distance")
+        return []
+    
+    bb = bb/aa
+    
+    # Allow for rounding when the elbow is fully stretched or folded
+    if np.abs(bb) > 1 + 1e-10:
         warnings.warn("No solution - no rotation can achieve specified distance")
         return []
     
     theta = subproblem1(pp/norm(pp), qp/norm(qp), k)
     
-    phi = np.arccos(bb)
-    if np.abs(phi) > 0:
+    phi = np.arccos(np.clip(bb, -1.0, 1.0))
+    if phi > 0 and phi < np.pi:
         return [theta + phi, theta - phi]
     else:
-        return [theta]
+        return [theta + phi]
     
 def subproblem4(p, q, k, d):
     """
-- 
2.43.0


From 9dba9f578a8422a13775bb41450eba50e77c2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 07/28] fix: subproblem4 returns no solution instead of NaN

Displacements below the reachable range gave NaN angles, as did points on
the axis. The tangent case no longer returns the same angle twice.
---
 .../general_robotics_toolbox.py               | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index fbfb593..e461283 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -862,15 +862,26 @@ def subproblem4(p, q, k, d):
     b = -np.matmul(p, np.matmul(hat(k),hat(k).dot(q)))
     c = np.subtract(d, (np.dot(p,q) -b))
     
-    phi = np.arctan2(b, a)
-    
-    d = c / np.linalg.norm([a,b])
+    r = np.linalg.norm([a,b])
+    pq = np.linalg.norm(p)*np.linalg.norm(q)
     
-    if d > 1:
+    # Allow for rounding when there is a single solution
+    if np.abs(c) > r + 1e-10*pq:
         return []
     
+    # p or q is on the axis, so the displacement does not depend on theta
+    if r <= 1e-12*pq:
+        return [0.0]
+    
+    phi = np.arctan2(b, a)
+    
+    d = np.clip(c / r, -1.0, 1.0)
+    
     psi = np.arcsin(d)
     
+    if np.abs(d) >= 1:
+        return [-phi+psi]
+    
     return [-phi+psi, -phi-psi+np.pi]
 
 
-- 
2.43.0


From 769f115e48b8c98716b027699b142da67cd97399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 08/28] fix: robot6_sphericalwrist_invkin leaves the robot
 unmodified

The wrist offset correction was applied to the caller's robot in place, and
its exact comparison refused robots whose offsets were computed, such as
ones loaded from URDF.
---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 8606696..f275b70 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -143,20 +143,20 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.array(robot.P, dtype=np.float64) #Do not modify the robot
     
     theta_v = []
     
     #Correct for spherical joint position vectors
     if not np.all(P[:,4] == 0):
         P4_d = P[:,4].dot(H[:,3])
-        assert np.all(P[:,4] - P4_d*H[:,3] == 0)
+        assert np.allclose(P[:,4], P4_d*H[:,3])
         P[:,3] += P[:,4]
         P[:,4] = np.zeros(3)
             
     if not np.all(P[:,5] == 0):
         P5_d = P[:,5].dot(H[:,5])
-        assert np.all(P[:,5] - P5_d*H[:,5] == 0)
+        assert np.allclose(P[:,5], P5_d*H[:,5])
         P[:,6] += P[:,5]
         P[:,5] = np.zeros(3)       
     
-- 
2.43.0


From 5be1a8fbae3354cebe66d4af6b236634f79839db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 09/28] fix: closed-form inverse kinematics with a lateral base
 offset

The offset before joint 1 was only handled when parallel to the axis of
joint 1.
---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index f275b70..fabedc9 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -161,7 +161,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
         P[:,5] = np.zeros(3)       
     
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])
-    v1 = p0T - R06.dot(P[:,6])    
+    v1 = p0T - R06.dot(P[:,6]) - P[:,0]
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
@@ -172,7 +172,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 
         R01=rox.rot(H[:,0], q1)
         
-        p26_q1 = R01.T.dot(p0T - R06.dot(P[:,6])) - (P[:,0] + P[:,1])
+        p26_q1 = R01.T.dot(v1) - P[:,1]
         
         d3 = np.linalg.norm(p26_q1)
         v3 = P[:,2]        
@@ -260,7 +260,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
 
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
     p04 = p0T - np.matmul(R06,P[:,6] + P[:,5])
-    v1 = p04
+    v1 = p04 - P[:,0]
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
-- 
2.43.0


From 0789ae6f85fc47dac25d561cc286556f2e9e157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 10/28] fix: no solutions with last_joints given is an empty
 list, not an error

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index fabedc9..66c5b0a 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -220,7 +220,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 q6 = q6[0]
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -319,7 +319,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
 
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -384,7 +384,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
                 continue
         theta_ret.append(eq_theta)
     
-    if last_joints is not None:
+    if last_joints is not None and len(theta_ret) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)
         return [theta_ret[i] for i in list(np.argsort(theta_dist))]
     else:
-- 
2.43.0


From 92c3a53a337cf114f3acd5022c075dccfe27840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 11/28] fix: ur_invkin applies limits and last_joints to joint
 5

---
 .../general_robotics_toolbox_invkin.py                      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 66c5b0a..07764d1 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -278,6 +278,12 @@ def ur_invkin(robot, desired_pose, last_joints = None):
         Q24_Q5 = rox.subproblem2(p4, v4, H[:,3], H[:,4])
 
         for q24, q5 in Q24_Q5:
+            
+            q5 = normalize(4, [q5])
+            if len(q5) == 0:
+                continue
+            q5 = q5[0]
+            
             R04 = np.matmul(rox.rot(H[:,0],q1),rox.rot(H[:,3],q24))
             
             p23p = p04 - P[:,0] - np.matmul(R01,P[:,1]) - np.matmul(R04,P[:,4])
-- 
2.43.0


From 4dc41c0a2f496a2ba67ec5cc8c8ee4dffe858b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 12/28] fix: last_joints neither loses solutions nor returns a
 farther one first

Joint normalization pruned branches per joint when last_joints was given,
which dropped the closest configuration or every configuration of a
reachable pose. It also searched a single turn beyond the limits, and
wrapped prismatic joints by full turns.
---
 .../general_robotics_toolbox_invkin.py        | 49 +++++++------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 07764d1..1da4494 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -44,6 +44,7 @@ class normalize_joints(object):
     """
     
     def __init__(self, robot, last_joints, _ignore_limits = False):
+        self._joint_type = robot.joint_type
         self._lower_limit = robot.joint_lower_limit
         self._upper_limit = robot.joint_upper_limit
         self._check_limits = self._lower_limit is not None \
@@ -53,31 +54,26 @@ class normalize_joints(object):
         self._use_last_joints = last_joints is not None
             
     def normalize(self, joint, theta):
-        if self._check_limits:
-            l = self._lower_limit[joint]
-            u = self._upper_limit[joint]
+        # Only rotating joints can be moved by full turns
+        if self._joint_type[joint] == 0 or self._joint_type[joint] == 2:
+            theta0 = theta
+            
+            # Number of turns to be closest to last_joints
+            n = 0
+            if self._use_last_joints:
+                n = np.round((self._last_joints[joint] - theta0)/(2*np.pi))
+            
+            # ... as far as the limits allow
+            if self._check_limits:
+                n_lower = np.floor((self._lower_limit[joint] - theta0)/(2*np.pi)) + 1
+                n_upper = np.ceil((self._upper_limit[joint] - theta0)/(2*np.pi)) - 1
+                n = min(max(n, n_lower), n_upper)
             
-            if not (l < theta and theta < u ):
-                a = 2*np.pi*np.array([-1,1])
-                b = a + theta
-                c = np.argwhere(np.logical_and(l < b,  b < u))
-                if len(c) == 0:
-                    return None                
-                theta += (a[c[0]]).item()
+            theta = theta0 + 2*np.pi*n
         
-        if self._use_last_joints:
-            diff = self._last_joints[joint] - theta                               
-            n_diff = np.floor_divide(diff, 2*np.pi)
-            r_diff = np.remainder(diff, 2*np.pi)
-            if (r_diff > np.pi): 
-                n_diff+=1
-            if np.abs(n_diff) > 0:
-                if not self._check_limits:
-                    theta += 2*np.pi*n_diff
-                else:                
-                    theta_v = theta + 2*np.pi*np.arange(n_diff, -np.sign(n_diff), - np.sign(n_diff))
-                    theta_ind = np.argwhere(np.logical_and(l < theta_v, theta_v < u))
-                    theta = theta_v[theta_ind[0]].item()
+        if self._check_limits:
+            if not (self._lower_limit[joint] < theta and theta < self._upper_limit[joint]):
+                return None
                 
         return theta
                                                         
@@ -106,13 +102,6 @@ class normalize_joints(object):
         else:
             theta_dist = np.linalg.norm(np.subtract(theta_normed,theta_last), axis=1)
         
-        #Heuristic pruning of last_joints
-        theta_ret1 = [t for t in theta_normed if np.all(np.less(np.abs(t - theta_last), np.pi/2.0))]        
-        if len(theta_ret1) == 1:
-            return theta_ret1
-        if len(theta_ret1) == 0:
-            theta_ret1 = theta_normed
-        
         return [theta_normed[i] for i in list(np.argsort(theta_dist))]
         
   
-- 
2.43.0


From 7a6bd93ce3ff9402ac6679eab6cdbd6de0b97433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 13/28] fix: equivalent_configurations returns each additional
 configuration once

The filter for configurations already in theta_v had no effect, equivalent
entries of theta_v gave repeated results, and integer joint vectors lost
the fraction of the added turns.
---
 .../general_robotics_toolbox_invkin.py             | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 1da4494..c020197 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -339,8 +339,15 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
              joint offsets within joint limits.    
     """
     
+    theta_v = [np.array(theta1, dtype=np.float64) for theta1 in theta_v]
+    revolute = np.equal(robot.joint_type, 0)
+    
     equiv_theta = []
-    for theta1 in theta_v:
+    for i, theta1 in enumerate(theta_v):
+        # The same configurations are found from equivalent entries of theta_v
+        if any(np.allclose(theta1, theta2 + np.where(revolute, 2.0*np.pi*np.round((theta1 - theta2)/(2.0*np.pi)), 0.0)) \
+               for theta2 in theta_v[:i]):
+            continue
         equiv_theta1 = []
         upper_div, _ = np.divmod(robot.joint_upper_limit - theta1, 2*np.pi)
         lower_div, _ = np.divmod(theta1 - robot.joint_lower_limit, 2*np.pi)
@@ -374,9 +381,8 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     theta_ret =[]
 
     for eq_theta in equiv_theta:
-        for theta1 in theta_v:
-            if np.allclose(theta1, eq_theta):
-                continue
+        if any(np.allclose(theta1, eq_theta) for theta1 in theta_v):
+            continue
         theta_ret.append(eq_theta)
     
     if last_joints is not None and len(theta_ret) > 0:
-- 
2.43.0


From f3fe80cd6a628ed6fd3abf2659809d34d60b749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 14/28] fix: iterative_invkin accepts documented seeds and
 returns arrays

A list or tuple seed and a single joint robot raised exceptions, and the
joint angles were returned as tuples.
---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index c020197..d15e207 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -423,11 +423,11 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
     R_d = desired_pose.R
     p_d = desired_pose.p
     
-    d_q = q_current
+    d_q = np.array(q_current, dtype=np.float64).flatten()
 
     num_joints = len(robot.joint_type)
 
-    normalize = normalize_joints(robot, q_current, _ignore_limits = True)
+    normalize = normalize_joints(robot, d_q, _ignore_limits = True)
     
     q_cur = d_q # initial guess on the current joint angles
     q_cur = q_cur.reshape((num_joints,1)) 
@@ -492,6 +492,6 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         itr += 1 # Increase the iteration
 
 
-    q_normed = normalize(np.arange(num_joints), [np.squeeze(q_cur)])
+    q_normed = [np.array(q) for q in normalize(np.arange(num_joints), [q_cur.flatten()])]
     
     return converged, q_normed
\ No newline at end of file
-- 
2.43.0


From 35ea7c07ab4643fd54466a160e4d9e6d466bbb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 15/28] fix: URDF joints without an axis element use the
 default axis

---
 src/general_robotics_toolbox/urdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index b5fa7b3..0a428b6 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -136,7 +136,8 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
         if j.joint_type == 'fixed':
             pass            
         elif j.joint_type == 'revolute' or j.joint_type == 'prismatic':            
-            H[:,i] = np.matmul(R,j.axis)
+            # The axis is optional in URDF and defaults to x
+            H[:,i] = np.matmul(R,j.axis if j.axis is not None else [1,0,0])
             joint_type[i] = 0 if j.joint_type == 'revolute' else 1
             if j.limit is not None:
                 joint_lower_limit[i] = j.limit.lower
-- 
2.43.0


From 67a58a63b0ac54bc0a4249384d164cb18163aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 16/28] fix: robot info chains use the joints their joint
 numbers name

Joint type, limits and name were taken from row i of the joint table
instead of row joint_numbers[i], and the first joint number was not checked
against the table.
---
 src/general_robotics_toolbox/robotraconteur.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 216b01b..450e599 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -92,12 +92,12 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
 
     chain = robot_yml["chains"][chain_number]
     joint_count = len(chain["joint_numbers"])
-    for i in range(1, joint_count):
-        if chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
+    for i in range(joint_count):
+        if i > 0 and chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
-        if chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
+        if chain["joint_numbers"][i] < 0 or chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
             raise ValueError(
                 "joint number out of bounds in chain number " + str(chain_number))
 
@@ -122,7 +122,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
     joint_names = [None]*joint_count
 
     for i in range(joint_count):
-        j = robot_yml["joint_info"][i]
+        j = robot_yml["joint_info"][chain["joint_numbers"][i]]
         if j["joint_type"] == "revolute":
             # Revolute joint
             joint_type[i] = 0
-- 
2.43.0


From 2341cb986ee3f213e5f2d311ac9b045cbb1ab3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 17/28] fix: Tesseract UR inverse kinematics with a tool
 attached

The closed-form solver solves for the flange, but was told that its tip is
the tool.
---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6725650..cf9db1c 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -543,7 +543,7 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
         elif invkin_solver == "URInvKin":
             ur_params = robot_to_ur_inv_kin_parameters(robot)
             invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_ur_plugin_info_dict(robot_name, base_link,
-                tip_link, ur_params)
+                robot_name + "_flange", ur_params)
         else:
             assert False, "Unknown inverse kinematics solver"
 
-- 
2.43.0


From 78ec38a665115d7fc7f6f3431baab4dc93275a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 18/28] fix: UR solver parameter d6 includes the offset after
 the last joint

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index cf9db1c..7bb6955 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -1004,7 +1004,7 @@ def robot_to_ur_inv_kin_parameters(robot):
     d5 = -np.sum(P2[2,4:5]).item()
     assert np.allclose(P2[2,5:], 0.0)
     assert np.allclose(P2[0,5:], 0.0)
-    d6 = -np.sum(P2[1,5:6]).item()
+    d6 = -np.sum(P2[1,5:]).item()
 
     ret = URInvKinParameters(d1,a2,a3,d4,d5,d6)
 
-- 
2.43.0


From 671173cc0102cd0dbaaa3b17db64d60171bc2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 19/28] fix: UR solver parameters for robots aligned with +x

The +x form was compared against negated axes, which no UR robot has, and
with the base rotation of the -x form, so the solver returned wrong joint
angles.
---
 src/general_robotics_toolbox/tesseract.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 7bb6955..de0517e 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -974,23 +974,29 @@ def robot_to_ur_inv_kin_parameters(robot):
     ez = np.array([0.,0.,1.])
 
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
-    assert robot.T_base
-    assert np.allclose(robot.T_base.R, rox.rot([0,0,1], np.pi), atol=1e-6)
-    assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
-
     minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-    plus_x = np.allclose(robot.H, -np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+    plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
 
     P2 = robot.P
+    R_base = rox.rot(ez,np.pi)
+    R_flange = np.array([ex, ez, -ey]).T
 
     assert minus_x or plus_x
 
     if plus_x:
+        # Same robot, with its base frame already rotated 180 degrees
         R = rox.rot(ez,np.pi)
         P2 = np.matmul(R, P2)
+        R_base = np.matmul(R, R_base)
+        R_flange = np.matmul(R, R_flange)
+
+    assert np.allclose(robot.T_flange.R, R_flange, atol=1e-6)
+
+    T_base = robot.T_base if robot.T_base else rox.identity_transform()
+    assert np.allclose(T_base.R, R_base, atol=1e-6)
+    assert np.allclose(T_base.p.flatten(), np.array([0.,0.,0.]))
 
     assert np.allclose(P2[0:2,0], 0.0)
     d1 = P2[2,0].item()
-- 
2.43.0


From 11a7b1cfd840adfc0056a23e70aaf72b7d249ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 20/28] fix: OPW solver parameters of upright robots require an
 upright flange

Robots outstretched along z were required to have the flange rotation of
robots outstretched along x, for which the parameters are wrong.
---
 src/general_robotics_toolbox/tesseract.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index de0517e..990d642 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -634,10 +634,6 @@ def robot_to_opw_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
-    assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
-    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
-
     assert len(robot.joint_type) == 6
 
     def axis_sign(_h, _e):
@@ -655,6 +651,13 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert axis_sign(robot.H[:,3], robot.H[:,5]) != 0
     assert axis_sign(robot.H[:,5], ez) != 0 or axis_sign(robot.H[:,5], ex) != 0
 
+    # The z axis of the flange points out of the wrist
+    R_flange = rox.rot([0,1,0], np.pi/2.0) if axis_sign(robot.H[:,5], ex) != 0 else np.eye(3)
+
+    assert robot.T_flange
+    assert np.allclose(robot.T_flange.R, R_flange)
+    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
+
     H2 = np.copy(robot.H)
     P2 = np.copy(robot.P)
 
-- 
2.43.0


From 53a0a4c70f472038b24fa1f1bb1568123350902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 21/28] fix: closed-form solver parameters refuse robots with
 prismatic joints

---
 src/general_robotics_toolbox/tesseract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 990d642..fe0f5d9 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -635,6 +635,7 @@ def robot_to_opw_inv_kin_parameters(robot):
     ez = np.array([0.,0.,1.])
 
     assert len(robot.joint_type) == 6
+    assert np.all(np.equal(robot.joint_type, 0))
 
     def axis_sign(_h, _e):
         if np.allclose(_h, _e):
@@ -979,6 +980,9 @@ def robot_to_ur_inv_kin_parameters(robot):
     assert robot.T_flange
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
+    assert len(robot.joint_type) == 6
+    assert np.all(np.equal(robot.joint_type, 0))
+
     minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
     plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
 
-- 
2.43.0


From ed2665d74fd4dab5edb006a01d26a3ea04f99cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 22/28] fix: subproblem3 allows for rounding of distances near
 the axis

---
 .../general_robotics_toolbox.py                 | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index e461283..778720c 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -815,20 +815,19 @@ def subproblem3(p, q, k, d):
     aa = 2*norm(pp)*norm(qp)
     bb = -(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)
     
-    # p or q is on the axis, so the distance does not depend on theta
-    if aa <= 1e-12*(norm(p)+norm(q))**2:
-        if np.abs(bb) <= 1e-12*(norm(p)+norm(q))**2:
-            return [0.0]
-        warnings.warn("No solution - no rotation can achieve specified distance")
-        return []
-    
-    bb = bb/aa
+    tol = 1e-12*(norm(p)+norm(q))**2
     
     # Allow for rounding when the elbow is fully stretched or folded
-    if np.abs(bb) > 1 + 1e-10:
+    if np.abs(bb) > aa*(1 + 1e-10) + tol:
         warnings.warn("No solution - no rotation can achieve specified distance")
         return []
     
+    # p or q is on the axis, so the distance does not depend on theta
+    if aa <= tol:
+        return [0.0]
+    
+    bb = bb/aa
+    
     theta = subproblem1(pp/norm(pp), qp/norm(qp), k)
     
     phi = np.arccos(np.clip(bb, -1.0, 1.0))
-- 
2.43.0


From d74813f6b4e4ebeb9b997bf188ceec730ac64702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 23/28] fix: Tesseract Jacobian with a moving base link

Tesseract adds the motion of the base link and of the link instead of
subtracting them, so the result was no Jacobian of anything.
---
 src/general_robotics_toolbox/tesseract.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index fe0f5d9..62fcb6f 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -890,16 +890,25 @@ class TesseractRobot:
         :return: The 6x6 Jacobian array. Note that this array has angular velocity on the first three rows.
         """
         kin_group = self.tesseract_env.getKinematicGroup(self.robot_name)
-        if base_link_name is None:
-            base_link_name = self.base_link_name
         if link_name is None:
             link_name = self.tip_link_name
 
-        J_kdl =  kin_group.calcJacobian(theta, base_link_name, link_name)
+        J_kdl =  kin_group.calcJacobian(theta, self.base_link_name, link_name)
 
         # KDL has vel on top, SOA has ang on top
         J = np.vstack((J_kdl[3:6,:],J_kdl[0:3,:]))
-        return J
+
+        if base_link_name is None or base_link_name == self.base_link_name:
+            return J
+
+        # The named base frame may be moving, use the motion of the link relative to this frame
+        J_base_kdl = kin_group.calcJacobian(theta, self.base_link_name, base_link_name)
+        J_base = np.vstack((J_base_kdl[3:6,:],J_base_kdl[0:3,:]))
+        T_base = self.fwdkin(theta, self.base_link_name, base_link_name)
+        p_base_link = self.fwdkin(theta, self.base_link_name, link_name).p - T_base.p
+        J[3:6,:] -= J_base[3:6,:] - np.matmul(rox.hat(p_base_link), J_base[0:3,:])
+        J[0:3,:] -= J_base[0:3,:]
+        return np.vstack((np.matmul(T_base.R.T, J[0:3,:]), np.matmul(T_base.R.T, J[3:6,:])))
 
     def invkin(self, tip_link_pose, theta_seed, base_link_name = None, tip_link_name = None):
         """
-- 
2.43.0


From 1e734ec6bf25e0a709d0c65f9f1ee48e3891998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 24/28] fix: subproblem2 recognises parallel axes despite
 rounding of their length

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 778720c..5d81fc2 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -750,8 +750,8 @@ def subproblem2(p, q, k1, k2):
     pk = np.dot(p, k2)
     qk = np.dot(q, k1)
     
-    # check if solution exists
-    if (np.abs( 1 - k12**2) < eps):
+    # check if solution exists. The cross product of parallel axes vanishes whatever the rounding of their length.
+    if (norm(np.cross(k1,k2))**2 < eps):
         warnings.warn("No solution - k1 != k2")
         return []
     
-- 
2.43.0


From c3d62b34e0115a906ccf05899f51279d70e2d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:46 +0000
Subject: [PATCH 25/28] fix: ur_invkin with an offset along joint axis 5 after
 joint 5

P[:,5] was rotated as if it were fixed to the tool, which holds only for the
component along joint axis 6. UR robots loaded from URDF carry an offset along
joint axis 5 there, and got configurations that do not reach the pose.
---
 .../general_robotics_toolbox_invkin.py                   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index d15e207..0516641 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -239,12 +239,19 @@ def ur_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.array(robot.P, dtype=np.float64)
 
     assert np.allclose((np.array([ez,-ey,-ey,-ey,-ez,-ey]).T), H) or \
            np.allclose((np.array([ez,ey,ey,ey,-ez,ey]).T), H), \
            "Invalid UR robot format"
     
+    # Offset along joint axis 5 can be placed on either side of joint 5. Use the preceding link.
+    # The remaining offset must be along joint axis 6.
+    p5_h5 = np.dot(P[:,5],H[:,4])*H[:,4]
+    P[:,4] += p5_h5
+    P[:,5] -= p5_h5
+    assert np.allclose(P[:,5], np.dot(P[:,5],H[:,5])*H[:,5]), "Invalid UR robot format"
+    
     theta_v = []
 
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
-- 
2.43.0


From 55a45646325af248b48056e70732237b56587885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:44 +0000
Subject: [PATCH 26/28] fix: robotjacobian with a tool of which only p_tool is
 set

Forward kinematics applies the tool only when R_tool and p_tool are both set.
The Jacobian added p_tool alone to the tip and was not the derivative of
forward kinematics.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 5d81fc2..db2ee34 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -605,7 +605,7 @@ def robotjacobian(robot, theta, _ignore_limits = False):
 
     if robot.T_flange is not None:
         pOT += np.matmul(R,np.reshape(robot.T_flange.p,(3,1)))
-    if robot.p_tool is not None:
+    if robot.R_tool is not None and robot.p_tool is not None:
         pOT += np.matmul(np.matmul(R,R_flange),np.reshape(robot.p_tool,(3,1)))
     
     J = np.zeros([6,len(joint_type)])
-- 
2.43.0


From abb4ee5c43d4ccfbda6761ffa46da77cff08d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:27 +0000
Subject: [PATCH 27/28] fix: iterative inverse kinematics reported convergence
 for rotation errors up to 1e-6 whatever the tolerance

R2rot returns a zero angle for rotations below 1e-6, so with a smaller
tolerance the remaining rotation error was never seen. Use the small angle
form of the error in that case.
---
 .../general_robotics_toolbox_invkin.py                         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 0516641..7fc8411 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -470,6 +470,9 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         # s = np.dot(k,np.sin(theta/2))         #eR2
         s = np.sin(theta/2) * np.array(k)         #eR2
         # s=2*theta*k              #eR3
+        if theta == 0.0:
+            # R2rot does not resolve rotations below 1e-6, but tol may be smaller
+            s = rox.invhat(ER - np.transpose(ER))/4.0
 
         vd = np.matmul(Kp, EP)
         wd = np.matmul(KR, s)
-- 
2.43.0


From a56b13f6023a8445b1c40e0f637c339ad9880b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:42 +0000
Subject: [PATCH 28/28] fix: Tesseract conversions failed for whole-number and
 list axes, positions and joint vectors

---
 src/general_robotics_toolbox/tesseract.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 62fcb6f..8a41d78 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -101,7 +101,7 @@ def transform_to_isometry3d(T):
     :return : The converted transform
     """
     # TODO: Use better Isometry3d constructor
-    return Translation3d(T.p) * AngleAxisd(T.R)
+    return Translation3d(np.array(T.p,dtype=np.float64)) * AngleAxisd(np.array(T.R,dtype=np.float64))
 
 def isometry3d_to_transform(eig_iso):
     """
@@ -159,9 +159,11 @@ def get_link_and_joint(h, p, joint_type, joint_lower_limit, joint_upper_limit, j
     else:
         assert False, "Unsupported Tesseract joint type: " + str(joint.type)
     joint.parent_to_joint_origin_transform = transform_to_isometry3d(rox.Transform(np.eye(3), p))
-    joint.axis = h
+    joint.axis = np.array(h,dtype=np.float64)
     joint.parent_link_name = parent_link_name
     joint.child_link_name = link_name
+    joint_lower_limit, joint_upper_limit, joint_effort_limit = float(joint_lower_limit), float(joint_upper_limit), float(joint_effort_limit)
+    joint_vel_limit, joint_acc_limit = float(joint_vel_limit), float(joint_acc_limit)
     joint.limits = JointLimits(joint_lower_limit, joint_upper_limit, joint_effort_limit,
          joint_vel_limit, joint_acc_limit)
     return link,joint
@@ -861,6 +863,7 @@ class TesseractRobot:
         :return: The pose of tip link in base frame
         """
         kin_group = self.tesseract_env.getKinematicGroup(self.robot_name)
+        theta = np.array(theta,dtype=np.float64)
         frames = kin_group.calcFwdKin(theta)
 
         if tip_link_name is None:
@@ -893,6 +896,7 @@ class TesseractRobot:
         if link_name is None:
             link_name = self.tip_link_name
 
+        theta = np.array(theta,dtype=np.float64)
         J_kdl =  kin_group.calcJacobian(theta, self.base_link_name, link_name)
 
         # KDL has vel on top, SOA has ang on top
@@ -938,6 +942,7 @@ class TesseractRobot:
         iks = KinGroupIKInputs()
         iks.append(ik)
 
+        theta_seed = np.array(theta_seed,dtype=np.float64)
         invkin1= kin_group.calcInvKin(iks,theta_seed)
 
         ret = []
@@ -1090,6 +1095,7 @@ def redundant_solutions(tesseract_kin_group, theta):
     limits = tesseract_kin_group.getLimits()
     redundancy_indices = list(tesseract_kin_group.getRedundancyCapableJointIndices())
 
+    theta = np.array(theta,dtype=np.float64)
     redun_sol = getRedundantSolutions(theta, limits.joint_limits, redundancy_indices)
 
     return [x.flatten() for x in redun_sol]
-- 
2.43.0

