From 32831b953240c1a516978c566fdde15e65cf5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:19 +0000
Subject: [PATCH 01/12] fix: initialize curvature and direction in
 Dubins/Reeds-Shepp interpolate

For t <= 0 the returned state carried an uninitialized kappa and d.
---
 src/dubins_state_space/dubins_state_space.cpp           | 2 ++
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 405e5e6..89b0848 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -425,6 +425,8 @@ State Dubins_State_Space::interpolate(const State &state, const vector<Control>
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 787dedb..b08e79d 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -714,6 +714,8 @@ State Reeds_Shepp_State_Space::interpolate(const State &state, const vector<Cont
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
-- 
2.43.0


From f3a079b6d714f5517b60e954fdc0fb9aa5b7d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 02/12] fix: respect curvature in the degenerate E and T cases
 of the +-curvature spaces

Configurations that differ only in curvature were treated as equal (E), and
a goal on the start circle was reached with the wrong-signed curvature (T).
---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 6 ------
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 6 ------
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 5 +++--
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 6 ------
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 6 ------
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 5 +++--
 6 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 6f9c270..76bc2fa 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -368,12 +368,6 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
   cc0pm_dubins_->distance = center_distance(c1, c2);
   cc0pm_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
-  // case E
-  if (configuration_equal(c1.start, c2.start))
-  {
-    length[cc_dubins::E] = 0;
-    goto label_end;
-  }
   // case T
   if (cc0pm_dubins_->distance < get_epsilon())
   {
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 518c131..61baed4 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -368,12 +368,6 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
   ccpm0_dubins_->distance = center_distance(c1, c2);
   ccpm0_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
-  // case E
-  if (configuration_equal(c1.start, c2.start))
-  {
-    length[cc_dubins::E] = 0;
-    goto label_end;
-  }
   // case T
   if (ccpm0_dubins_->distance < get_epsilon())
   {
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 34672e9..6fcf5ea 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -497,13 +497,13 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
   ccpmpm_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case E
-  if (configuration_equal(c1.start, c2.start))
+  if (c1.left == c2.left && configuration_equal(c1.start, c2.start))
   {
     length[cc_dubins::E] = 0;
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->rs_turn_length(c2.start);
@@ -667,6 +667,7 @@ vector<Control> CCpmpm_Dubins_State_Space::get_controls(const State &state1, con
   {
     case cc_dubins::E:
       empty_controls(cc_dubins_controls);
+      cc_dubins_controls.back().kappa = p->start.kappa;
       break;
     case cc_dubins::T:
       rs_turn_controls(*(p->cstart), p->end, true, cc_dubins_controls);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index d69eed3..c7201d5 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1558,12 +1558,6 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
   hc0pm_reeds_shepp_->distance = center_distance(c1, c2);
   hc0pm_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
-  // case E
-  if (configuration_equal(c1.start, c2.start))
-  {
-    length[hc_cc_rs::E] = 0;
-    goto label_end;
-  }
   // case T
   if (hc0pm_reeds_shepp_->distance < get_epsilon())
   {
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 59b7c3b..f60ba5e 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1558,12 +1558,6 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
   hcpm0_reeds_shepp_->distance = center_distance(c1, c2);
   hcpm0_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
-  // case E
-  if (configuration_equal(c1.start, c2.start))
-  {
-    length[hc_cc_rs::E] = 0;
-    goto label_end;
-  }
   // case T
   if (hcpm0_reeds_shepp_->distance < get_epsilon())
   {
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index d76f184..9324877 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1593,13 +1593,13 @@ HC_CC_RS_Path *HCpmpm_Reeds_Shepp_State_Space::hcpmpm_circles_rs_path(const HC_C
   hcpmpm_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case E
-  if (configuration_equal(c1.start, c2.start))
+  if (c1.left == c2.left && configuration_equal(c1.start, c2.start))
   {
     length[hc_cc_rs::E] = 0;
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->rs_turn_length(c2.start);
@@ -1845,6 +1845,7 @@ vector<Control> HCpmpm_Reeds_Shepp_State_Space::get_controls(const State &state1
   {
     case hc_cc_rs::E:
       empty_controls(hc_rs_controls);
+      hc_rs_controls.back().kappa = p->start.kappa;
       break;
     case hc_cc_rs::T:
       rs_turn_controls(*(p->cstart), p->end, true, hc_rs_controls);
-- 
2.43.0


From f588e2851b78438f747626351c23e5ec6c2b4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 03/12] fix: do not connect concentric circles of opposite
 handedness by a single turn

In the 0+- and +-0 spaces a goal whose circle is concentric with the start
circle but turns the other way was missed by up to two radii.
---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp | 2 +-
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 76bc2fa..a54b622 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -369,7 +369,7 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
   cc0pm_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case T
-  if (cc0pm_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && cc0pm_dubins_->distance < get_epsilon())
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 61baed4..66baba5 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -369,7 +369,7 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
   ccpm0_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case T
-  if (ccpm0_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && ccpm0_dubins_->distance < get_epsilon())
   {
     cend[cc_dubins::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cend[cc_dubins::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index c7201d5..62c184d 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1559,7 +1559,7 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
   hc0pm_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case T
-  if (hc0pm_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hc0pm_reeds_shepp_->distance < get_epsilon())
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index f60ba5e..dcdf97a 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1559,7 +1559,7 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
   hcpm0_reeds_shepp_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case T
-  if (hcpm0_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hcpm0_reeds_shepp_->distance < get_epsilon())
   {
     cend[hc_cc_rs::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cend[hc_cc_rs::T]->hc_turn_length(c1.start);
-- 
2.43.0


From e254a675e96ca03c9926cad93f644821813097db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 04/12] fix: only merge start and end clothoid if they lie on
 the same curve

CC_Dubins and HC_Reeds_Shepp subtracted the two controls whenever the predicted
states met, so that the resulting path missed the goal (or an assertion failed)
if the clothoids differ, e.g. when one of the states needs no prediction.
---
 .../cc_dubins_state_space.cpp                 | 28 ++++++++++++++++---
 .../hc_reeds_shepp_state_space.cpp            | 28 ++++++++++++++++---
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 92d8044..78a89fc 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -113,8 +113,14 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        // both controls lie on the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        else
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
       }
       // call appropriate state space
       else
@@ -166,8 +172,22 @@ vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const S
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        cc_dubins_controls.push_back(control);
+        // both controls lie on the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          cc_dubins_controls.push_back(control);
+        }
+        else
+        {
+          if (start_control.delta_s != 0.0)
+            cc_dubins_controls.push_back(start_control);
+          if (end_control.delta_s != 0.0)
+          {
+            reverse_control(end_control);
+            cc_dubins_controls.push_back(end_control);
+          }
+        }
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
index 16c16db..e036332 100644
--- a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
@@ -108,8 +108,14 @@ double HC_Reeds_Shepp_State_Space::get_distance(const State &state1, const State
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        // both controls lie on the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        else
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
       }
       // call appropriate state space
       else
@@ -161,8 +167,22 @@ vector<Control> HC_Reeds_Shepp_State_Space::get_controls(const State &state1, co
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        hc_rs_controls.push_back(control);
+        // both controls lie on the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          hc_rs_controls.push_back(control);
+        }
+        else
+        {
+          if (start_control.delta_s != 0.0)
+            hc_rs_controls.push_back(start_control);
+          if (end_control.delta_s != 0.0)
+          {
+            reverse_control(end_control);
+            hc_rs_controls.push_back(end_control);
+          }
+        }
       }
       // call the appropriate state space
       else
-- 
2.43.0


From 8ab67ba53152d4f706d2d342fbd0fc6c159bc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 05/12] fix: make concurrent const queries on one HC/CC state
 space independent

The scratch values of the current circle pair were stored in the state space, so
that simultaneous get_distance/get_controls calls on one object corrupted each
other's result.
---
 src/hc_cc_state_space/cc00_dubins_state_space.cpp        | 8 ++++++--
 src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp   | 8 ++++++--
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 8 ++++++--
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 8 ++++++--
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 8 ++++++--
 src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp   | 8 ++++++--
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 8 ++++++--
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 8 ++++++--
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 8 ++++++--
 9 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/hc_cc_state_space/cc00_dubins_state_space.cpp b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
index 0b23902..096f490 100644
--- a/src/hc_cc_state_space/cc00_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -309,6 +310,9 @@ public:
   }
 };
 
+thread_local double CC00_Dubins_State_Space::CC00_Dubins::distance = 0.0;
+thread_local double CC00_Dubins_State_Space::CC00_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CC00_Dubins_State_Space::CC00_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 3ad8e05..017f60e 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -48,8 +48,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1405,6 +1406,9 @@ public:
   }
 };
 
+thread_local double CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp::distance = 0.0;
+thread_local double CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index a54b622..3a55277 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -331,6 +332,9 @@ public:
   }
 };
 
+thread_local double CC0pm_Dubins_State_Space::CC0pm_Dubins::distance = 0.0;
+thread_local double CC0pm_Dubins_State_Space::CC0pm_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CC0pm_Dubins_State_Space::CC0pm_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 66baba5..83d9ac5 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -331,6 +332,9 @@ public:
   }
 };
 
+thread_local double CCpm0_Dubins_State_Space::CCpm0_Dubins::distance = 0.0;
+thread_local double CCpm0_Dubins_State_Space::CCpm0_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CCpm0_Dubins_State_Space::CCpm0_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 6fcf5ea..a66ae59 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -453,6 +454,9 @@ public:
   }
 };
 
+thread_local double CCpmpm_Dubins_State_Space::CCpmpm_Dubins::distance = 0.0;
+thread_local double CCpmpm_Dubins_State_Space::CCpmpm_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CCpmpm_Dubins_State_Space::CCpmpm_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index c742b1d..f681bcb 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -48,8 +48,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1489,6 +1490,9 @@ public:
   }
 };
 
+thread_local double HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp::distance = 0.0;
+thread_local double HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index 62c184d..98ead94 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1518,6 +1519,9 @@ public:
   }
 };
 
+thread_local double HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp::distance = 0.0;
+thread_local double HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index dcdf97a..1d3c302 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1518,6 +1519,9 @@ public:
   }
 };
 
+thread_local double HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp::distance = 0.0;
+thread_local double HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 9324877..761ca07 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // precomputations of the current query (thread-local, since const queries may run concurrently)
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1550,6 +1551,9 @@ public:
   }
 };
 
+thread_local double HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp::distance = 0.0;
+thread_local double HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
-- 
2.43.0


From b9f9ac165758ee8111814bab2f5bf43b2efa0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 06/12] fix: add virtual destructor to HC_CC_State_Space

Deleting a state space through a pointer to its abstract base was undefined.
---
 .../steering_functions/hc_cc_state_space/hc_cc_state_space.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp b/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
index 78c938c..41bb4d9 100644
--- a/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
+++ b/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
@@ -33,6 +33,9 @@ public:
   /** \brief Constructor */
   HC_CC_State_Space(double kappa, double sigma, double discretization);
 
+  /** \brief Virtual destructor */
+  virtual ~HC_CC_State_Space() = default;
+
   /** \brief Sets the parameters required by the filter */
   void set_filter_parameters(const Motion_Noise& motion_noise, const Measurement_Noise& measurement_noise,
                              const Controller& controller);
-- 
2.43.0


From 4406d57192a1281d6361cb5b6f91bf289a28b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:52 +0000
Subject: [PATCH 07/12] fix: pick the tangent side of the inner S segment in
 TiSTcT, TcTiST and TcTiSTcT by handedness

The auxiliary circle was always placed on the same side of the centre line, which is only
right for half of the left/right and forward/backward combinations; the other half got a
needlessly long path, and mirrored queries had different lengths.
---
 .../cc00_reeds_shepp_state_space.cpp                 | 12 ++++++++++++
 .../hc00_reeds_shepp_state_space.cpp                 | 12 ++++++++++++
 .../hc0pm_reeds_shepp_state_space.cpp                | 12 ++++++++++++
 .../hcpm0_reeds_shepp_state_space.cpp                | 12 ++++++++++++
 .../hcpmpm_reeds_shepp_state_space.cpp               | 12 ++++++++++++
 5 files changed, 60 insertions(+)

diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 017f60e..59a00f8 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -548,6 +548,10 @@ public:
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c2.left, c2.forward, c2.regular, parent_->hc_cc_circle_param_);
@@ -635,6 +639,10 @@ public:
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c2.left, !c2.forward, c2.regular, parent_->hc_cc_circle_param_);
@@ -722,6 +730,10 @@ public:
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
     double x, y;
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c1.left, !c1.forward, c1.regular, parent_->hc_cc_circle_param_);
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index f681bcb..80c646a 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -570,6 +570,10 @@ public:
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c2.left, c2.forward, c2.regular, parent_->hc_cc_circle_param_);
@@ -661,6 +665,10 @@ public:
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c2.left, !c2.forward, c2.regular, parent_->hc_cc_circle_param_);
@@ -753,6 +761,10 @@ public:
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c1.left, !c1.forward, c1.regular, parent_->hc_cc_circle_param_);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index 98ead94..1d77294 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -579,6 +579,10 @@ public:
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c2.left, c2.forward, c2.regular, parent_->hc_cc_circle_param_);
@@ -671,6 +675,10 @@ public:
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c1.left, !c1.forward, c1.regular, parent_->hc_cc_circle_param_);
@@ -767,6 +775,10 @@ public:
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c1.left, !c1.forward, c1.regular, parent_->hc_cc_circle_param_);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 1d3c302..2622b9a 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -580,6 +580,10 @@ public:
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c2.left, c2.forward, c2.regular, parent_->hc_cc_circle_param_);
@@ -675,6 +679,10 @@ public:
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c1.left, !c1.forward, c1.regular, parent_->hc_cc_circle_param_);
@@ -767,6 +775,10 @@ public:
     double delta_y = (4 * c2.radius * c2.cos_mu) / (distance * fabs(c2.kappa));
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c1.left, !c1.forward, c1.regular, parent_->hc_cc_circle_param_);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 761ca07..03f200d 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -591,6 +591,10 @@ public:
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c2.left, c2.forward, c2.regular, parent_->hc_cc_circle_param_);
@@ -687,6 +691,10 @@ public:
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c2.left, !c2.forward, c2.regular, parent_->hc_cc_circle_param_);
@@ -783,6 +791,10 @@ public:
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
     double x, y;
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
     HC_CC_Circle tgt1(x, y, !c1.left, !c1.forward, c1.regular, parent_->hc_cc_circle_param_);
-- 
2.43.0


From 92171e37c82bfe7e629c40af78ba1f8f25e6ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:58 +0000
Subject: [PATCH 08/12] fix: compare headings modulo 2*pi in
 configuration_aligned, configuration_equal, configuration_on_hc_cc_circle and
 state_equal

A heading that rounds to just below zero is stored as 2*pi; compared with 0 it did not count
as equal, so e.g. a goal straight ahead was missed and a detour of several full turns returned.
---
 src/hc_cc_state_space/configuration.cpp | 8 ++++----
 src/hc_cc_state_space/hc_cc_circle.cpp  | 3 +--
 src/hc_cc_state_space/paths.cpp         | 2 +-
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 6dd7a4f..c8ee44d 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -58,17 +58,17 @@ double configuration_distance(const Configuration &q1, const Configuration &q2)
 
 bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
   {
     return false;
   }
-  double angle = twopify(atan2(q2.y - q1.y, q2.x - q1.x));
-  return fabs(angle - q1.theta) <= get_epsilon();
+  double angle = atan2(q2.y - q1.y, q2.x - q1.x);
+  return fabs(pify(angle - q1.theta)) <= get_epsilon();
 }
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
     return false;
diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 5d6b6a5..74afbe9 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -333,8 +333,7 @@ bool configuration_on_hc_cc_circle(const HC_CC_Circle &c, const Configuration &q
   {
     angle = angle - HALF_PI - c.mu;
   }
-  angle = twopify(angle);
-  return fabs(q.theta - angle) < get_epsilon();
+  return fabs(pify(q.theta - angle)) < get_epsilon();
 }
 
 } // namespace steering
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 8cb2ff8..a3bce1e 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -264,7 +264,7 @@ bool state_equal(const State &state1, const State &state2)
 {
   if (fabs(state2.kappa - state1.kappa) > get_epsilon())
     return false;
-  if (fabs(twopify(state2.theta) - twopify(state1.theta)) > get_epsilon())
+  if (fabs(pify(state2.theta - state1.theta)) > get_epsilon())
     return false;
   if (point_distance(state1.x, state1.y, state2.x, state2.y) > get_epsilon())
     return false;
-- 
2.43.0


From eed831312cc43a00a310af87d779df581cddc3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:44 +0000
Subject: [PATCH 09/12] fix: Dubins path must not contain a full turn where an
 arc is zero up to rounding

E.g. a goal straight ahead of the start returned the straight plus a full circle whenever the
rounded arc angle was slightly negative.
---
 src/dubins_state_space/dubins_state_space.cpp | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 89b0848..267f7dd 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -73,6 +73,13 @@ namespace /* helper */
 const double DUBINS_EPS = 1e-6;
 const double DUBINS_ZERO = -1e-9;
 
+// arc angle in [0, 2*pi), an angle that is zero up to rounding must not become a full turn
+double arc_angle(double alpha)
+{
+  double angle = twopify(alpha);
+  return (TWO_PI - angle < 0.1 * DUBINS_EPS) ? 0.0 : angle;
+}
+
 Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
 {
   double ca = cos(alpha), sa = sin(alpha), cb = cos(beta), sb = sin(beta);
@@ -80,9 +87,9 @@ Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
   if (tmp >= DUBINS_ZERO)
   {
     double theta = atan2(cb - ca, d + sa - sb);
-    double t = twopify(-alpha + theta);
+    double t = arc_angle(-alpha + theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(beta - theta);
+    double q = arc_angle(beta - theta);
     assert(fabs(p * cos(alpha + t) - sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -98,9 +105,9 @@ Dubins_State_Space::Dubins_Path dubinsRSR(double d, double alpha, double beta)
   if (tmp >= DUBINS_ZERO)
   {
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta);
+    double t = arc_angle(alpha - theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(-beta + theta);
+    double q = arc_angle(-beta + theta);
     assert(fabs(p * cos(alpha - t) + sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -117,8 +124,8 @@ Dubins_State_Space::Dubins_Path dubinsRSL(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(ca + cb, d - sa - sb) - atan2(2., p);
-    double t = twopify(alpha - theta);
-    double q = twopify(beta - theta);
+    double t = arc_angle(alpha - theta);
+    double q = arc_angle(beta - theta);
     assert(fabs(p * cos(alpha - t) - 2. * sin(alpha - t) + sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) + 2. * cos(alpha - t) - ca - cb) < DUBINS_EPS);
     assert(twopify(alpha - t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -135,8 +142,8 @@ Dubins_State_Space::Dubins_Path dubinsLSR(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(-ca - cb, d + sa + sb) - atan2(-2., p);
-    double t = twopify(-alpha + theta);
-    double q = twopify(-beta + theta);
+    double t = arc_angle(-alpha + theta);
+    double q = arc_angle(-beta + theta);
     assert(fabs(p * cos(alpha + t) + 2. * sin(alpha + t) - sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) - 2. * cos(alpha + t) + ca + cb) < DUBINS_EPS);
     assert(twopify(alpha + t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -153,8 +160,8 @@ Dubins_State_Space::Dubins_Path dubinsRLR(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta + .5 * p);
-    double q = twopify(alpha - beta - t + p);
+    double t = arc_angle(alpha - theta + .5 * p);
+    double q = arc_angle(alpha - beta - t + p);
     assert(fabs(2. * sin(alpha - t + p) - 2. * sin(alpha - t) - d + sa - sb) < DUBINS_EPS);
     assert(fabs(-2. * cos(alpha - t + p) + 2. * cos(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t + p - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -171,8 +178,8 @@ Dubins_State_Space::Dubins_Path dubinsLRL(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(-ca + cb, d + sa - sb);
-    double t = twopify(-alpha + theta + .5 * p);
-    double q = twopify(beta - alpha - t + p);
+    double t = arc_angle(-alpha + theta + .5 * p);
+    double q = arc_angle(beta - alpha - t + p);
     assert(fabs(-2. * sin(alpha + t - p) + 2. * sin(alpha + t) - d - sa + sb) < DUBINS_EPS);
     assert(fabs(2. * cos(alpha + t - p) - 2. * cos(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t - p + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
-- 
2.43.0


From 2506cbe157dc9beebae3b56cbdb91756d3d27d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:29 +0000
Subject: [PATCH 10/12] fix: give straight segments of vanishing length the
 direction that keeps the curvature continuous between cusps

---
 src/hc_cc_state_space/paths.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index a3bce1e..f40eda9 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -302,6 +302,15 @@ void straight_controls(const Configuration &q1, const Configuration &q2, vector<
   double length = point_distance(q1.x, q1.y, q2.x, q2.y);
   double dot_product = cos(q1.theta) * (q2.x - q1.x) + sin(q1.theta) * (q2.y - q1.y);
   int d = sgn(dot_product);
+  // direction of a vanishing line: continue the previous control, or reverse if the curvature jumps to zero
+  if (length < 1e-6 && !controls.empty())
+  {
+    const Control &last = controls.back();
+    d = sgn(last.delta_s);
+    if (fabs(last.kappa + fabs(last.delta_s) * last.sigma) > get_epsilon())
+      d = -d;
+    length = max(length, numeric_limits<double>::min());
+  }
   Control control;
   control.delta_s = d * length;
   control.kappa = 0.0;
-- 
2.43.0


From d473a9c69d5fb54f68aef3161be68fd742d22f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 11/12] fix: Reeds-Shepp must not reject arcs that are negative
 only by rounding

A goal reached by a turn and a straight of 1 cm could get a path that is 1.4 cm longer: the rounding
error of the turn angle is inversely proportional to the length of the straight and exceeded RS_ZERO.
---
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index b08e79d..7f83b8b 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -71,7 +71,7 @@ namespace /* helper */
 {
 // The comments, variable names, etc. use the nomenclature from the Reeds & Shepp paper.
 const double RS_EPS = 1e-6;
-const double RS_ZERO = 10 * numeric_limits<double>::epsilon();
+const double RS_ZERO = 1e-9;
 
 inline void tauOmega(double u, double v, double xi, double eta, double phi, double &tau, double &omega)
 {
-- 
2.43.0


From cec7409301b5c5e2dc0914f5f1130978c7cd8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:28 +0000
Subject: [PATCH 12/12] fix: keep the heading and position of the TcT tangent
 configuration consistent

If the circles' distance deviates from 2 * radius * cos_mu by up to epsilon, the square root moved the
tangent configuration off the circle by up to sqrt(epsilon) for small mu: elementary turns exceeded the
maximum sharpness and straight segments missed the goal.
---
 src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 59a00f8..cfa1900 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -121,7 +121,7 @@ public:
   {
     double distance = center_distance(c1, c2);
     double delta_x = 0.5 * distance;
-    double delta_y = sqrt(pow(c1.radius, 2) - pow(delta_x, 2));
+    double delta_y = c1.radius * c1.sin_mu;
     double angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
     double x, y, theta;
     if (c1.left)
-- 
2.43.0

