From b3d70739cfd4b65a09e20f3ca02e9549522e512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:43 +0000
Subject: [PATCH 01/38] fix: surface anisotropy field: divide by mu0 |dMs|, not
 by the signed dMs

The effective field of a surface anisotropy of constant Ks is 2 Ks (u.uk) uk / (mu0 Ms). The factor
mu0 was missing, and the sign depended on the orientation of the triangle in the mesh file.
---
 src/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triangle.cpp b/src/triangle.cpp
index 800560b..7341656 100644
--- a/src/triangle.cpp
+++ b/src/triangle.cpp
@@ -5,7 +5,7 @@ using namespace Nodes;
 
 void Tri::integrales(Triangle::prm const &params)
     {
-    double Kbis = 2.0*params.Ks / dMs;
+    double Kbis = 2.0*params.Ks / (mu0*fabs(dMs));  // dMs is signed: it depends on the orientation
     
     Eigen::Matrix<double,DIM,NPI> u;
     interpolation(Nodes::get_u<CURRENT>, u);
-- 
2.43.0


From f359ec914e0b3c3eaa3a4132d4a41f78b781a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:43 +0000
Subject: [PATCH 02/38] fix: index the space-dependent applied field by
 tetrahedron

The field was stored by position within the list of magnetic tetrahedrons, but read back by
tetrahedron index: wrong values, then out-of-bounds reads, as soon as a non-magnetic region exists.
---
 src/mesh.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 6afad41..242031d 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -376,14 +376,12 @@ double mesh::surface(std::vector<int> &triIndices) const
 
 void mesh::setExtSpaceField()
     {
-    extSpaceField.resize(magTet.size());
-    int k(0);
-    std::for_each(magTet.begin(), magTet.end(), [this,&k](const int idx)
+    extSpaceField.resize(tet.size());  // indexed by Tet::idx
+    std::for_each(magTet.begin(), magTet.end(), [this](const int idx)
         {
         const Tetra::Tet &t = tet[idx];
         Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> pg = t.getPtGauss();
         for(int i=0;i<Tetra::NPI;i++)
-            { extSpaceField[k].col(i) = settings.getFieldSpace(pg.col(i)); }
-        k++;
+            { extSpaceField[idx].col(i) = settings.getFieldSpace(pg.col(i)); }
         });
     }
-- 
2.43.0


From 9696a0f5acd76533b89241199b457ce772184b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:29 +0000
Subject: [PATCH 03/38] fix: compute the Zeeman energy with the field of the
 time it is reported at

compute_all() was called before the time was advanced, so that E_zeeman and
E_tot were computed from the new magnetization and the field at the start of
the step.
---
 src/time_integration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 9ba87dd..ed51925 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -228,7 +228,6 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 continue;
                 }
 
-            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
             nt++;
             flag = 0;
 
@@ -238,6 +237,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             else
                 t_prm.inc_t();
 
+            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
             if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
             if (!settings.verbose) show_progress(t_prm.get_t() / t_prm.tf);
 
-- 
2.43.0


From b1d99f2be41544648a6ca392f8f0e0e269caa4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:36 +0000
Subject: [PATCH 04/38] fix: extent of a mesh whose coordinates are all
 negative

maxNodes() started from the smallest positive double instead of the lowest
double: the extent, and with it the Thiele length and the recentering, were
wrong for a body lying entirely on the negative side of an axis.
---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 3f6eaad..1334beb 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -418,7 +418,7 @@ private:
     /** return the maximum of all nodes coordinate along coord axis */
     inline double maxNodes(const Nodes::index coord /**< [in] */) const
         {
-        return doOnNodes(__DBL_MIN__, coord, [](const double a, const double b)
+        return doOnNodes(-__DBL_MAX__, coord, [](const double a, const double b)
                         { return a > b; });
         }
 
-- 
2.43.0


From 1c5b1ac892bbbe73f0951dddb6b8db8ac8624402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:04 +0000
Subject: [PATCH 05/38] fix: maximum magnetization angle of a mesh with
 non-magnetic nodes

The undefined magnetization of non-magnetic nodes entered the reduction, where
a NAN can discard the dot products of other edges. Also keep rounding errors
from taking the argument of acos() below -1.
---
 src/mesh.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 1334beb..c449e51 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -298,11 +298,14 @@ public:
                 [](const double a, const double b){ return std::min(a, b); },
                 [this](const Edge &edge)
                     {
+                    // The magnetization of a non-magnetic node is NAN: skip it.
+                    if (!magNode[edge.first] || !magNode[edge.second])
+                        { return 1.0; }
                     Eigen::Vector3d m1 = getNode_u(edge.first);
                     Eigen::Vector3d m2 = getNode_u(edge.second);
                     return m1.dot(m2);
                     });
-        return std::acos(min_dot_product);
+        return std::acos(std::max(min_dot_product, -1.0));  // dot products have rounding errors
         }
 
     /** text file (tsv) writing function for a solution, node indices are zero based
-- 
2.43.0


From 92a1de4603c22314083e1da1769ac0b1d988960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:22 +0000
Subject: [PATCH 06/38] fix: surface anisotropy on a face that bounds no
 magnetic material

A face of a non-magnetic layer that is one element thick has three magnetic
nodes and dMs = 0: the anisotropy field was a division by zero, which aborted
the run, and the face contributed to the anisotropy energy.
---
 src/energy.cpp   | 2 +-
 src/triangle.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/energy.cpp b/src/energy.cpp
index 49f2fb0..defed53 100644
--- a/src/energy.cpp
+++ b/src/energy.cpp
@@ -57,7 +57,7 @@ void Fem::energy(const double t, Settings &settings)
                       fa.interpolation(Nodes::get_u<NEXT>, u);
                       fa.interpolation(Nodes::get_phi<NEXT>, phi);
 
-                      if (param.Ks != 0.0)
+                      if (param.Ks != 0.0 && fa.dMs != 0.0)
                           { E[ANISOTROPY] += fa.anisotropyEnergy(param, u); }
                       
                       E[DEMAG] += fa.demagEnergy(u, phi);
diff --git a/src/triangle.cpp b/src/triangle.cpp
index 7341656..fa1ea32 100644
--- a/src/triangle.cpp
+++ b/src/triangle.cpp
@@ -5,7 +5,8 @@ using namespace Nodes;
 
 void Tri::integrales(Triangle::prm const &params)
     {
-    double Kbis = 2.0*params.Ks / (mu0*fabs(dMs));  // dMs is signed: it depends on the orientation
+    // dMs is signed: it depends on the orientation. It is zero if there is no magnetic surface here.
+    double Kbis = (dMs != 0) ? 2.0*params.Ks / (mu0*fabs(dMs)) : 0;
     
     Eigen::Matrix<double,DIM,NPI> u;
     interpolation(Nodes::get_u<CURRENT>, u);
-- 
2.43.0


From ae07633269e588703b157ed50257aebf7f132ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:39 +0000
Subject: [PATCH 07/38] fix: report a script function that returns no vector,
 instead of aborting

duk_get_prop() throws outside of a protected call when the value is undefined
or null, which ends the process with SIGABRT and no message.
---
 src/expression_parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/expression_parser.cpp b/src/expression_parser.cpp
index 39a6bda..69b48ea 100644
--- a/src/expression_parser.cpp
+++ b/src/expression_parser.cpp
@@ -91,8 +91,12 @@ double ExpressionParser::get_scalar(const double arg) const
 
 double ExpressionParser::get_vector_component(const int idx) const
     {
-    duk_push_int(ctx, idx);                      // [ ... v ] -> [ ... v idx ]
-    duk_bool_t success = duk_get_prop(ctx, -2);  //           -> [ ... v v[idx] ]
+    bool success = duk_is_object(ctx, -1);  // duk_get_prop() would throw on undefined or null
+    if (success)
+        {
+        duk_push_int(ctx, idx);            // [ ... v ] -> [ ... v idx ]
+        success = duk_get_prop(ctx, -2);   //           -> [ ... v v[idx] ]
+        }
     if (!success)
         {
         std::cerr << "JavaScript function did not return a 3-vector.\n";
-- 
2.43.0


From 3ea2002e73d1187333c5c58f5d492e7954246018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:44 +0000
Subject: [PATCH 08/38] fix: do not abort a run because the stride is about
 twice the minimum time step

When the remaining stride was below 2*min(dt) + min(dt), the step left after
reserving 2*min(dt) for the next one was below min(dt), or even negative, and
the run was aborted although every step had succeeded.
---
 src/time_integration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index ed51925..546a750 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -30,7 +30,8 @@ public:
         double step = std::min(stride, soft_max);
         if (step > stride - 2 * hard_min && step < stride)
             {
-            step = stride - 2 * hard_min;
+            // When too little remains for that, make two equal steps of it.
+            step = std::max(stride - 2 * hard_min, std::min(step, stride / 2));
             }
         soft_max = std::max(soft_max, std::min(step * 1.1, hard_max));
         return step;
-- 
2.43.0


From f630c412bbee11d2cb3d8d1e5cf5ae3ef9fd10e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:54 +0000
Subject: [PATCH 09/38] fix: count a time step rejected for its dumax as
 failed, not as successful

---
 src/time_integration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 546a750..4e14a8f 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -215,8 +215,6 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 }
 
             double dumax = t_prm.get_dt() * vmax;
-            stats.good_dt.add(t_prm.get_dt());
-            stats.good_dumax.add(dumax);
             if (settings.verbose)
                 {
                 std::cout << "  -> dumax = " << dumax << ",  vmax = " << vmax << std::endl;
@@ -226,9 +224,12 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             if (dumax > settings.DUMAX)
                 {
                 flag++;
+                stats.bad_dt.add(t_prm.get_dt());
                 continue;
                 }
 
+            stats.good_dt.add(t_prm.get_dt());
+            stats.good_dumax.add(dumax);
             nt++;
             flag = 0;
 
-- 
2.43.0


From 151f876e13fcdc680405516532fb069643bed6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:49 +0000
Subject: [PATCH 10/38] fix: make the settings dump a settings file that can be
 read back

The normal current density was printed under a name the reader ignores,
undefined vectors as [nan, nan, nan], which the reader rejects, and
strings without escaping.
---
 src/settings.cpp | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 0ffd9a1..b8ec61d 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -89,17 +89,25 @@ static const std::string str(Eigen::Vector3d v)
     return std::string(buffer);
     }
 
+// Stringify a string as a double-quoted YAML scalar, escaping whatever needs to be.
+static const std::string quote(std::string s)
+    {
+    replace(s, "\\", "\\\\");  // escape backslashes first
+    replace(s, "\"", "\\\"");
+    replace(s, "\n", "\\n");
+    return '"' + s + '"';
+    }
+
 // Stringify a string: if it contains a newline, convert it to a multiline string in "literal style"
 // (introduced by '|'). Otherwise enclose it in quotes, and escape embedded quotes.
 // `level` is the indentation level of the property whose value is being stringified.
 static const std::string str(std::string s, const int level = 0)
     {
-    // If it doesn't have a newline, quote it.
-    if (s.find('\n') == s.npos)
-        {
-        replace(s, "\"", "\\\"");  // escape embedded quotes
-        return '"' + s + '"';
-        }
+    // If it doesn't have a newline, quote it. Do the same if the literal style could not represent
+    // it: leading white space would be taken as indentation, and trailing empty lines dropped.
+    if (s.find('\n') == s.npos || isspace((unsigned char) s[0])
+        || (s.size() > 1 && s.compare(s.size() - 2, 2, "\n\n") == 0))
+        { return quote(s); }
 
     // Indentation to be added to each line.
     int indent_size = (level + 1) * 2;  // the value is indented one level more than the property
@@ -155,28 +163,28 @@ void Settings::dumpTemplate()
 void Settings::toYaml()
     {
     std::cout << "outputs:\n";
-    std::cout << "  directory: " << r_path_output_dir << "\n";
-    std::cout << "  file_basename: " << simName << "\n";
+    std::cout << "  directory: " << quote(r_path_output_dir) << "\n";
+    std::cout << "  file_basename: " << quote(simName) << "\n";
     std::cout << "  evol_time_step: " << time_step << "\n";
     std::cout << "  final_time: " << tf << "\n";
     std::cout << "  evol_columns:\n";
     for (auto it = evol_columns.begin(); it != evol_columns.end(); ++it)
-        { std::cout << "    - " << *it << "\n"; }
+        { std::cout << "    - " << quote(*it) << "\n"; }
 
     std::cout << "  mag_config_every: " << save_period << "\n";
     std::cout << "  metadata:\n";
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
-        { std::cout << "    " << it->first << ": " << str(it->second, 2) << '\n'; }
+        { std::cout << "    " << quote(it->first) << ": " << str(it->second, 2) << '\n'; }
 
     std::cout << "mesh:\n";
-    std::cout << "  filename: " << pbName << "\n";
+    std::cout << "  filename: " << quote(pbName) << "\n";
     std::cout << "  length_unit: " << _scale << "\n";
     std::cout << "  volume_regions:\n";
     for (auto it = paramTetra.begin(); it != paramTetra.end(); ++it)
         {
         if (it->regName == "__default__")  // skip
             { continue; }
-        std::cout << "    " << it->regName << ":\n";
+        std::cout << "    " << quote(it->regName) << ":\n";
         std::cout << "      Ae: " << it->A << "\n";
         std::cout << "      Ms: " << it->Ms << "\n";
         std::cout << "      K: " << it->K << "\n";
@@ -201,12 +209,12 @@ void Settings::toYaml()
         {
         if (it->regName == "__default__")  // skip
             { continue; }
-        std::cout << "    " << it->regName << ":\n";
+        std::cout << "    " << quote(it->regName) << ":\n";
         std::cout << "      suppress_charges: " << str(it->suppress_charges) << "\n";
         std::cout << "      Ks: " << it->Ks << "\n";
         if (it->Ks != 0)
             { std::cout << "      uk: " << str(it->uk) << "\n"; }
-        std::cout <<  "      J:";
+        std::cout <<  "      jn:";
         if (isnan(it->jn))
             { std::cout << "\n"; }
         else
@@ -218,17 +226,18 @@ void Settings::toYaml()
             { std::cout << ' ' << it->V << '\n'; }
         if (spin_acc)
             {
-            std::cout << "      uP: " << str(it->uP) << "\n";
-            std::cout << "      s: " << str(it->s) << "\n";
+            // undefined vectors are left null
+            std::cout << "      uP:" << (it->uP.hasNaN() ? "" : " " + str(it->uP)) << "\n";
+            std::cout << "      s:" << (it->s.hasNaN() ? "" : " " + str(it->s)) << "\n";
             }
         }
     std::cout << "initial_magnetization: ";
     if (!sM.empty())
         { std::cout << str(sM) << "\n"; }
     else if (restoreFileName.empty())
-        { std::cout << "[\"" << sMx << "\", \"" << sMy << "\", \"" << sMz << "\"]\n"; }
+        { std::cout << "[" << quote(sMx) << ", " << quote(sMy) << ", " << quote(sMz) << "]\n"; }
     else
-        { std::cout << restoreFileName << "\n"; }
+        { std::cout << quote(restoreFileName) << "\n"; }
     std::cout << "initial_time:";
     if (isnan(initial_time))
         { std::cout << '\n'; }
@@ -254,7 +263,7 @@ void Settings::toYaml()
     else if (!sB.empty())
         { std::cout << str(sB) << "\n"; }
     else
-        { std::cout << "[\"" << sBx << "\", \"" << sBy << "\", \"" << sBz << "\"]\n"; }
+        { std::cout << "[" << quote(sBx) << ", " << quote(sBy) << ", " << quote(sBz) << "]\n"; }
     std::cout << "spin_accumulation:\n";
     std::cout << "  enable: " << str(spin_acc) << "\n";
     if (spin_acc)
-- 
2.43.0


From 1e87cb4c1f8ba5a95ad84accda86773b94554da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:09 +0000
Subject: [PATCH 11/38] fix: override settings of an earlier document, key by
 key

A region defined both in the user's defaults and in the settings file was
duplicated, the values of the settings file being ignored. The initial
magnetization or field of the former could hide the latter's, and the
recentering direction was reset to Z.
---
 src/settings.cpp | 63 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index b8ec61d..f3f37fa 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -397,10 +397,16 @@ void Settings::read(YAML::Node yaml)
                 bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                 std::string name = it->first.as<std::string>();
                 YAML::Node volume = it->second;
-                Tetra::prm &p = paramTetra.emplace_back();
-                if (default_idx >= 0)
-                    { p = paramTetra[default_idx]; }
-                p.regName = name;
+                int idx = findRegionIdx<Tetra::prm>(name);
+                if (idx < 0)  // not defined by a previously read document
+                    {
+                    idx = paramTetra.size();
+                    paramTetra.emplace_back();
+                    if (default_idx >= 0)
+                        { paramTetra[idx] = paramTetra[default_idx]; }
+                    paramTetra[idx].regName = name;
+                    }
+                Tetra::prm &p = paramTetra[idx];
 
                 assign(p.A, volume["Ae"]);
                 if (assign(p.Ms, volume["Ms"]))
@@ -437,24 +443,34 @@ void Settings::read(YAML::Node yaml)
                 {
                 std::string name = it->first.as<std::string>();
                 YAML::Node surface = it->second;
-                Triangle::prm &p = paramTriangle.emplace_back();
-                if (default_idx >= 0)
-                    { p = paramTriangle[default_idx]; }
-                p.regName = name;
+                int idx = findRegionIdx<Triangle::prm>(name);
+                if (idx < 0)  // not defined by a previously read document
+                    {
+                    idx = paramTriangle.size();
+                    Triangle::prm &p = paramTriangle.emplace_back();
+                    if (default_idx >= 0)
+                        { p = paramTriangle[default_idx]; }
+                    p.regName = name;
+
+                    // The boundary conditions have no defaults.
+                    p.jn = p.V = NAN;
+                    p.uP = p.s = Eigen::Vector3d(NAN,NAN,NAN);
+                    }
+                Triangle::prm &p = paramTriangle[idx];
                 assign(p.suppress_charges, surface["suppress_charges"]);
                 assign(p.Ks, surface["Ks"]);
                 assign(NORMALIZE, p.uk, surface["uk"]);
 
-                // J and V may be null, which we map to NAN.
-                if (!assign(p.jn, surface["jn"]))
+                // The boundary conditions may be null, which we map to NAN.
+                if (!assign(p.jn, surface["jn"]) && surface["jn"])
                     { p.jn = NAN; }
-                if (!assign(p.V, surface["V"]))
+                if (!assign(p.V, surface["V"]) && surface["V"])
                     { p.V = NAN; }
                 if (!isnan(p.jn) && !isnan(p.V))
                     { error("A surface region cannot have both no-null J and V."); }
-                if (!assign(NORMALIZE, p.uP, surface["uP"]))
+                if (!assign(NORMALIZE, p.uP, surface["uP"]) && surface["uP"])
                     { p.uP = Eigen::Vector3d(NAN,NAN,NAN); }
-                if (!assign(!NORMALIZE, p.s, surface["s"]))
+                if (!assign(!NORMALIZE, p.s, surface["s"]) && surface["s"])
                     { p.s = Eigen::Vector3d(NAN,NAN,NAN); }
                 }
             }  // mesh.surface_regions
@@ -463,6 +479,9 @@ void Settings::read(YAML::Node yaml)
     YAML::Node magnetization = yaml["initial_magnetization"];
     if (magnetization && !magnetization.IsNull())
         {
+        // Forget whichever form was given by a previously read document.
+        sM.clear();
+        restoreFileName.clear();
         if (magnetization.IsScalar())
             {
             std::string s_mag = magnetization.as<std::string>();
@@ -493,14 +512,17 @@ void Settings::read(YAML::Node yaml)
     if (recentering && !recentering.IsNull())
         {
         assign(recenter, recentering["enable"]);
-        std::string direction = recentering["direction"].as<std::string>("Z");
-        if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
-            { error("recentering.direction should be X, Y or Z."); }
-        switch (direction[0])
+        std::string direction;
+        if (assign(direction, recentering["direction"]))
             {
-            case 'X': recentering_direction = IDX_X; break;
-            case 'Y': recentering_direction = IDX_Y; break;
-            case 'Z': recentering_direction = IDX_Z; break;
+            if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
+                { error("recentering.direction should be X, Y or Z."); }
+            switch (direction[0])
+                {
+                case 'X': recentering_direction = IDX_X; break;
+                case 'Y': recentering_direction = IDX_Y; break;
+                case 'Z': recentering_direction = IDX_Z; break;
+                }
             }
         assign(threshold, recentering["threshold"]);
         }  // recentering
@@ -508,6 +530,7 @@ void Settings::read(YAML::Node yaml)
     YAML::Node field = yaml["Bext"];
     if (field && !field.IsNull())
         {
+        sB.clear();  // forget the function given by a previously read document, if any
         if (field.IsScalar())
             {
             sB = field.as<std::string>();
-- 
2.43.0


From aa9622e5e777be7dda26fa3f7f28efcc5041cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:32 +0000
Subject: [PATCH 12/38] fix: report invalid settings instead of crashing

Syntax errors and values of the wrong type raised an uncaught exception,
an empty list of columns or an empty metadata value read out of bounds, a
space or time field which is no scalar was ignored, and --verify accepted
a file that does not exist.
---
 src/main.cpp     |  6 +++++-
 src/settings.cpp | 49 ++++++++++++++++++++++--------------------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index e17436b..75b4145 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -188,7 +188,11 @@ std::string parseOptions(Settings &settings, int argc, char *argv[], unsigned in
     if (verify)
         {
         settings.read(get_user_defaults_filename());
-        settings.read(filename);
+        if (!settings.read(filename))
+            {
+            std::cerr << "Error: no settings found.\n";
+            exit(1);
+            }
         settings.toYaml();
         exit(0);
         }
diff --git a/src/settings.cpp b/src/settings.cpp
index f3f37fa..4042a80 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -292,7 +292,8 @@ std::ostringstream Settings::commonMetadata() const
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
         {
         std::string value = it->second;
-        if (value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
+        if (!value.empty() && value.back() == '\n')
+            { value.pop_back(); }  // remove trailing newline
         replace(value, "\n", "\n##  ");  // escape and indent continuation lines
         ss << "## " << it->first << ": " << value << '\n';
         }
@@ -353,6 +354,8 @@ void Settings::read(YAML::Node yaml)
             {
             if (!columns.IsSequence())
                 { error("outputs.evol_columns should be a sequence."); }
+            if (columns.size() == 0)
+                { error("outputs.evol_columns should not be empty."); }
             evol_columns.clear();
             for (auto it = columns.begin(); it != columns.end(); ++it)
                 { evol_columns.push_back(it->as<std::string>()); }
@@ -551,18 +554,12 @@ void Settings::read(YAML::Node yaml)
             {
             YAML::Node field_space = field["space"];
             YAML::Node field_time = field["time"];
-            if (field_space && field_time)
+            if (field_space && field_space.IsScalar() && field_time && field_time.IsScalar())
                 {
-                if (field_space.IsScalar())
-                    {
-                    sB_space = field_space.as<std::string>();
-                    field_space_parser.set_function(sB_space);
-                    }
-                if (field_time.IsScalar())
-                    {
-                    sB_time = field_time.as<std::string>();
-                    field_time_parser.set_function(sB_time);
-                    }
+                sB_space = field_space.as<std::string>();
+                field_space_parser.set_function(sB_space);
+                sB_time = field_time.as<std::string>();
+                field_time_parser.set_function(sB_time);
                 field_type = R4toR3;
                 }
             else
@@ -627,22 +624,20 @@ void Settings::read(YAML::Node yaml)
 
 bool Settings::read(const std::string& filename)
     {
-    YAML::Node config;
-    if (filename == "-")
-        { config = YAML::Load(std::cin); }
-    else
+    try
         {
-        try
-            {
-            config = YAML::LoadFile(filename);
-            }
-        catch (const YAML::BadFile &)
-            {
-            return false;
-            }
+        YAML::Node config = (filename == "-") ? YAML::Load(std::cin) : YAML::LoadFile(filename);
+        if (config.IsNull())
+            { return false; }
+        read(config);
+        }
+    catch (const YAML::BadFile &)
+        {
+        return false;
+        }
+    catch (const YAML::Exception &e)  // syntax error, or value of the wrong type
+        {
+        error((filename + ": " + e.what()).c_str());
         }
-    if (config.IsNull())
-        { return false; }
-    read(config);
     return true;
     }
-- 
2.43.0


From 177e31dd033c59d9d34b2f30ca2356e7f4fe5177 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 03:19:20 +0000
Subject: [PATCH 13/38] fix: default output name follows the mesh file of the
 last document read

---
 src/settings.cpp | 34 +++++++++++++++++++---------------
 src/settings.h   |  4 ++--
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 4042a80..eee44fe 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -164,7 +164,7 @@ void Settings::toYaml()
     {
     std::cout << "outputs:\n";
     std::cout << "  directory: " << quote(r_path_output_dir) << "\n";
-    std::cout << "  file_basename: " << quote(simName) << "\n";
+    std::cout << "  file_basename: " << quote(getSimName()) << "\n";
     std::cout << "  evol_time_step: " << time_step << "\n";
     std::cout << "  final_time: " << tf << "\n";
     std::cout << "  evol_columns:\n";
@@ -604,22 +604,26 @@ void Settings::read(YAML::Node yaml)
         assign(dt_min, time_integration["min(dt)"]);
         assign(dt_max, time_integration["max(dt)"]);
         }  // time_integration
+    }
 
-    // outputs.file_basename defaults to base name of mesh.filename.
-    if (simName.empty() && !pbName.empty())
-        {
-        simName = pbName;
-
-        // Remove directory part.
-        size_t pos = simName.rfind('/');
-        if (pos != simName.npos)
-            { simName.erase(0, pos + 1); }
+std::string Settings::getSimName(void) const
+    {
+    if (!simName.empty())
+        { return simName; }
 
-        // Remove everything after last dot.
-        pos = simName.rfind('.');
-        if (pos != simName.npos)
-            { simName.erase(pos); }
-        }
+    // outputs.file_basename defaults to base name of mesh.filename.
+    std::string name = pbName;
+
+    // Remove directory part.
+    size_t pos = name.rfind('/');
+    if (pos != name.npos)
+        { name.erase(0, pos + 1); }
+
+    // Remove everything after last dot.
+    pos = name.rfind('.');
+    if (pos != name.npos)
+        { name.erase(pos); }
+    return name;
     }
 
 bool Settings::read(const std::string& filename)
diff --git a/src/settings.h b/src/settings.h
index 49dc1c9..bcd64f4 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -117,8 +117,8 @@ public:
     /** setter for .sol output file name */
     inline void setSimName(const std::string &str) { simName = str; }
 
-    /** getter for output file name */
-    inline std::string getSimName(void) const { return simName; }
+    /** getter for output file name, defaults to the base name of the problem file */
+    std::string getSimName(void) const;
 
     /** setter for geometrical scaling factor for physical coordinates of the mesh */
     inline void setScale(const double s) { _scale = s; }
-- 
2.43.0


From c34ec1eeeb84d737850e9742c03683a86231832c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 03:26:04 +0000
Subject: [PATCH 14/38] fix: report a mesh file that cannot be read, instead of
 aborting

---
 src/read.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/read.cpp b/src/read.cpp
index 036f451..8ce1484 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -35,7 +35,15 @@ void mesh::readMesh()
 void mesh::checkMeshFile()
     {
     using namespace tags::msh;
-    gmsh::open(settings.getPbName());
+    try
+        {
+        gmsh::open(settings.getPbName());
+        }
+    catch (const std::exception &e)
+        {
+        std::cerr << "Fatal Error: cannot read mesh file: " << e.what() << "\n";
+        exit(1);
+        }
 
     bool msh_available = (gmsh::model::getDimension() == DIM_OBJ_3D);
     if (!msh_available)
-- 
2.43.0


From fa027bc3d3d77096760c0332af29701dc050b4f4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 03:45:39 +0000
Subject: [PATCH 15/38] fix: reject time steps that are not positive, which
 made the run endless or empty

---
 src/settings.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index eee44fe..e52807e 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -338,7 +338,8 @@ void Settings::read(YAML::Node yaml)
                 { r_path_output_dir.pop_back(); }
             }
         assign(simName, outputs["file_basename"]);
-        assign(time_step, outputs["evol_time_step"]);
+        if (assign(time_step, outputs["evol_time_step"]) && !(time_step > 0))
+            { error("outputs.evol_time_step should be positive."); }
         assign(tf, outputs["final_time"]);
 
         YAML::Node mag_config_every = outputs["mag_config_every"];
@@ -387,7 +388,7 @@ void Settings::read(YAML::Node yaml)
         if (!mesh.IsMap())
             { error("mesh should be a map."); }
         assign(pbName, mesh["filename"]);
-        if (assign(_scale, mesh["length_unit"]) && _scale <= 0)
+        if (assign(_scale, mesh["length_unit"]) && !(_scale > 0))
             { error("mesh.length_unit should be positive."); }
         YAML::Node volumes = mesh["volume_regions"];
         if (volumes && !volumes.IsNull())
@@ -601,8 +602,10 @@ void Settings::read(YAML::Node yaml)
     if (time_integration && !time_integration.IsNull())
         {
         assign(DUMAX, time_integration["max(du)"]);
-        assign(dt_min, time_integration["min(dt)"]);
-        assign(dt_max, time_integration["max(dt)"]);
+        if (assign(dt_min, time_integration["min(dt)"]) && !(dt_min > 0))
+            { error("time_integration.min(dt) should be positive."); }
+        if (assign(dt_max, time_integration["max(dt)"]) && !(dt_max > 0))
+            { error("time_integration.max(dt) should be positive."); }
         }  // time_integration
     }
 
-- 
2.43.0


From 281a34923e3c93330c947b6f7acf62322c14b620 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 03:45:39 +0000
Subject: [PATCH 16/38] fix: report a function that returns something else than
 numbers

---
 src/expression_parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/expression_parser.cpp b/src/expression_parser.cpp
index 69b48ea..03c9fc6 100644
--- a/src/expression_parser.cpp
+++ b/src/expression_parser.cpp
@@ -84,6 +84,11 @@ double ExpressionParser::get_scalar(const double arg) const
     duk_push_number(ctx, arg);          // -> [ f f arg ]
     duk_int_t err = duk_pcall(ctx, 1);  // -> [ f result ]
     die_if_error(err);
+    if (!duk_is_number(ctx, -1))
+        {
+        std::cerr << "JavaScript function did not return a number.\n";
+        exit(EXIT_FAILURE);
+        }
     double result = duk_get_number(ctx, -1);
     duk_pop(ctx);  // -> [ f ]
     return result;
@@ -95,7 +100,8 @@ double ExpressionParser::get_vector_component(const int idx) const
     if (success)
         {
         duk_push_int(ctx, idx);            // [ ... v ] -> [ ... v idx ]
-        success = duk_get_prop(ctx, -2);   //           -> [ ... v v[idx] ]
+        success = duk_get_prop(ctx, -2)    //           -> [ ... v v[idx] ]
+                && duk_is_number(ctx, -1);
         }
     if (!success)
         {
-- 
2.43.0


From 08574c64af1f75439a692908f361656f228cefaa Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:17:11 +0000
Subject: [PATCH 17/38] fix: restore .sol files with non-magnetic nodes or spin
 accumulation, reject damaged ones

---
 src/read.cpp | 66 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/read.cpp b/src/read.cpp
index 8ce1484..d19742e 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -1,5 +1,7 @@
 #include <fstream>
 #include <algorithm>
+#include <cstdlib>
+#include <sstream>
 #include <gmsh.h>
 
 #include "settings.h"
@@ -211,46 +213,70 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
 
     on_fail_msg_error(fin, "cannot open file " + fileName);
 
+    auto invalid_file = [&fileName](const std::string &what)
+        {
+        std::cerr << "error: " << what << " in input .sol file " << fileName << "\n";
+        SYSTEM_ERROR;
+        };
+
     std::string str;
-    bool flag_t = false;
-    unsigned long idx;
+    std::string time_str;
 
     while (fin.peek() == '#' || fin.peek() == '\n')
         {
         getline(fin, str);
-        idx = str.find(tags::sol::time);
-        if (idx != std::string::npos)
-            {  // found tag "## time:"
-            t = stod(str.substr(idx + tags::sol::time.length() ));
-            flag_t = true;
+        if (str.compare(0, tags::sol::time.length(), tags::sol::time) == 0)
+            {  // found tag "## time:" (the user's metadata could have one too, but it comes first)
+            time_str = str.substr(tags::sol::time.length());
             }
         }
 
-    if (!flag_t)
-        {
-        std::cerr << "error: no ## time: tag in input .sol file " << fileName << "\n";
-        SYSTEM_ERROR;
-        }
+    if (time_str.empty())
+        { invalid_file("no ## time: tag"); }
+    try
+        { t = std::stod(time_str); }
+    catch (const std::exception &)
+        { invalid_file("bad time"); }
 
     if (VERBOSE)
         {
         std::cout << ".sol file: " << fileName << " @ time t = " << t << "\n";
         }
 
+    // Read one line per node: index, magnetization, potential, and maybe the spin accumulation,
+    // which is not used.
     for (unsigned int i = 0; i < node.size(); i++)
         {
-        double mx,my,mz;
-        unsigned int i_;
+        if (!getline(fin, str))
+            { invalid_file("missing data"); }
+        std::istringstream line(str);
+        double values[5];
+        for (double &value : values)
+            {
+            // Do not extract doubles from the stream, as it would not understand "nan".
+            std::string word;
+            line >> word;
+            char *end;
+            value = std::strtod(word.c_str(), &end);
+            if (word.empty() || *end != '\0')
+                { invalid_file("missing or bad value"); }
+            }
+        if (values[0] != i)
+            { invalid_file("mesh node index mismatch"); }
         int node_idx = node_index[i];
-        fin >> i_ >> mx >> my >> mz >> node[node_idx].d[Nodes::NEXT].phi;
-        node[node_idx].d[Nodes::NEXT].u = Eigen::Vector3d(mx,my,mz);
-        if (i != i_)
+        Nodes::dataNode &dn = node[node_idx].d[Nodes::NEXT];
+        if (magNode[node_idx])
             {
-            std::cerr << "error: mesh node index mismatch between mesh and input .sol file\n";
-            fin.close();
-            SYSTEM_ERROR;
+            dn.u = Eigen::Vector3d(values[1], values[2], values[3]);
+            if (!dn.u.allFinite() || dn.u.isZero())
+                { invalid_file("undefined magnetization of a magnetic node"); }
             }
+        else  // a non-magnetic node's magnetization is a vector of NAN
+            { dn.u = Eigen::Vector3d(NAN, NAN, NAN); }
+        dn.phi = values[4];
         }
+    if (fin >> str)
+        { invalid_file("more nodes than in the mesh"); }
     fin.close();
 
     return t;
-- 
2.43.0


From 08672b2ea3dd977cad58ebd6d71dc39988bdb2f3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 18/38] fix: on SIGINT or SIGTERM, save the last accepted state
 instead of a rejected one

---
 src/mesh.h               | 3 ++-
 src/save.cpp             | 5 +++--
 src/time_integration.cpp | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mesh.h b/src/mesh.h
index c449e51..b7d0ccc 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -318,7 +318,8 @@ public:
             const std::string& fileName /**< [in] */,
              const std::string &metadata /**< [in] */,
              bool withSpinAcc /**< [in] */,
-             std::vector<Eigen::Vector3d> &s /**< [in] spin accumulation (might be empty) */) const;
+             std::vector<Eigen::Vector3d> &s /**< [in] spin accumulation (might be empty) */,
+             const Nodes::step step = Nodes::NEXT /**< [in] which state to save */) const;
 
     /** setter for node[i]; what_to_set will fix what is the part of the node struct to set (usefull
      * for fmm_demag.h) */
diff --git a/src/save.cpp b/src/save.cpp
index fc3a06a..047b95d 100644
--- a/src/save.cpp
+++ b/src/save.cpp
@@ -162,7 +162,8 @@ void Fem::saver(Settings &settings, const timing &t_prm, std::ofstream &fout, co
     }
 
 void Mesh::mesh::savesol(const int precision, const std::string& fileName,
-        const std::string &metadata, bool withSpinAcc, std::vector<Eigen::Vector3d> &s) const
+        const std::string &metadata, bool withSpinAcc, std::vector<Eigen::Vector3d> &s,
+        const Nodes::step step) const
     {
     std::ofstream fout(fileName, std::ios::out);
     if (fout.fail())
@@ -176,7 +177,7 @@ void Mesh::mesh::savesol(const int precision, const std::string& fileName,
     for (unsigned int i = 0; i < node.size(); i++)
         {
         const int j = node_index[i];
-        const dataNode &dn = node[j].d[Nodes::NEXT];
+        const dataNode &dn = node[j].d[step];
         fout << i << '\t' << dn.u.format(outputSolFmt) << '\t' << dn.phi;
         if (withSpinAcc)
             { fout << '\t' << s[j].format(outputSolFmt); }
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 4e14a8f..7b7974b 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -115,7 +115,9 @@ static void exit_if_signal_received(const Fem &fem, const Settings &settings, co
         std::string fileName =
                 settings.r_path_output_dir + '/' + settings.getSimName() + "_at_exit.sol";
         std::string metadata = settings.solMetadata(t_prm.get_t());
-        fem.msh.savesol(settings.getPrecision(), fileName, metadata, settings.spin_acc, s);
+        // The last step may have been rejected: save the state it started from.
+        fem.msh.savesol(settings.getPrecision(), fileName, metadata, settings.spin_acc, s,
+                        Nodes::CURRENT);
         std::cout << "Magnetization configuration saved to " << fileName << "\n";
         }
     else
-- 
2.43.0


From 0478eb39f90e183bdf2476e7adf57008adebb25c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 19/38] fix: do not lose the last messages when terminated by a
 signal

---
 src/time_integration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 7b7974b..e3bfd5c 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -128,6 +128,10 @@ static void exit_if_signal_received(const Fem &fem, const Settings &settings, co
 
     print_stats(stats);
 
+    // The signal would discard what is still in the output buffer.
+    std::cout << std::flush;
+    fflush(stdout);
+
     // Re-send ourselves the signal we caught in order to return the correct status.
     signal(received_signal, SIG_DFL);
     raise(received_signal);
-- 
2.43.0


From e06d9cf44d0739e4b1ebaa0473f7039e2770004a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:28:25 +0000
Subject: [PATCH 20/38] fix: recenter along the configured direction instead of
 always along Z

---
 src/fem.h           |  4 ++--
 src/recentering.cpp | 12 +-----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 3d016e9..fa733f8 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -116,7 +116,7 @@ public:
 
         if (mySets.recenter)
             {
-            direction(Nodes::IDX_Z);
+            direction(mySets.recentering_direction);
             } /* DW propagation direction for recentering */
         }
 
@@ -179,7 +179,7 @@ public:
     */
 
     bool recenter(double thres /**< [in] threshold parameter */,
-                  char recentering_direction /**< [in] X|Y|Z */);
+                  enum Nodes::index idx_dir /**< [in] recentering direction */);
 
     /** performs the time integration of the LLG problem, with spin accumulation if any */
     int time_integration(Settings &settings /**< [in] */,
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 76dbb10..8916a7e 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -44,18 +44,8 @@ void Fem::direction(const enum index idx_dir)
     annDeallocPt(queryPt);
     }
 
-bool Fem::recenter(double thres, const char recentering_direction)
+bool Fem::recenter(double thres, const enum index idx_dir)
     {
-    enum index idx_dir;
-
-    switch (recentering_direction)
-        {
-        case 'X': idx_dir = IDX_X; break;
-        case 'Y': idx_dir = IDX_Y; break;
-        case 'Z': idx_dir = IDX_Z; break;
-        default: idx_dir = IDX_Z; break;
-        }
-
     thres = abs(thres);
     double m_i = msh.avg(Nodes::get_u_comp, idx_dir);
     if (fabs(m_i) < thres) return false;
-- 
2.43.0


From a36726d8f8ddb06cdf1fb28a7daf0447e4094273 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:28:25 +0000
Subject: [PATCH 21/38] fix: initialize the domain wall speed, an undefined
 value entered the equations when recentering

---
 src/linear_algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_algebra.h b/src/linear_algebra.h
index fa15855..d45ed43 100644
--- a/src/linear_algebra.h
+++ b/src/linear_algebra.h
@@ -115,7 +115,7 @@ private:
     const int verbose;
 
     /** speed of the domain wall */
-    double DW_vz;
+    double DW_vz = 0.0;
 
     /** maximum speed of the magnetization in the whole physical object */
     double v_max;
-- 
2.43.0


From 4db8c0e2747d001b4241d7f7ec9866c3cfde1db1 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:29:18 +0000
Subject: [PATCH 22/38] fix: recentering moved undefined values of non-magnetic
 nodes into the magnetic body

---
 src/fem.h           | 35 +++++++++++++++++++++++++++++------
 src/recentering.cpp | 30 +++++++++++++++---------------
 2 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index fa733f8..b9bf0c8 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -58,7 +58,19 @@ public:
                 std::cout << "Approximate nearest neighbors:\n";
                 }
 
-            pts = annAllocPts(msh.getNbNodes(), Nodes::DIM);
+            // only the magnetic nodes carry a magnetization which can be translated
+            for (int i = 0; i < msh.getNbNodes(); i++)
+                {
+                if (msh.magNode[i]) recenter_nodes.push_back(i);
+                }
+            const int nb_pts = recenter_nodes.size();
+            if (nb_pts == 0)
+                {
+                std::cerr << "Error: recentering requires a magnetic region.\n";
+                SYSTEM_ERROR;
+                }
+
+            pts = annAllocPts(nb_pts, Nodes::DIM);
             if (!pts)
                 {
                 std::cerr << "ANN memory error while allocating points\n";
@@ -69,19 +81,26 @@ public:
                 std::cout << "  points allocated\n";
                 }
 
-            for (int i = 0; i < msh.getNbNodes(); i++)
+            Eigen::Vector3d p_min = msh.getNode_p(recenter_nodes[0]);
+            Eigen::Vector3d p_max = p_min;
+            for (int i = 0; i < nb_pts; i++)
                 {
-                this->pts[i][0] = msh.getNode_p(i).x();
-                this->pts[i][1] = msh.getNode_p(i).y();
-                this->pts[i][2] = msh.getNode_p(i).z();
+                const Eigen::Vector3d p = msh.getNode_p(recenter_nodes[i]);
+                this->pts[i][0] = p.x();
+                this->pts[i][1] = p.y();
+                this->pts[i][2] = p.z();
+                p_min = p_min.cwiseMin(p);
+                p_max = p_max.cwiseMax(p);
                 }
+            recenter_c = 0.5 * (p_max + p_min);
+            recenter_l = p_max - p_min;
 
             if (mySets.verbose)
                 {
                 std::cout << "  building kd_tree\n";
                 }
 
-            kdtree = new ANNkd_tree(pts, msh.getNbNodes(), Nodes::DIM);
+            kdtree = new ANNkd_tree(pts, nb_pts, Nodes::DIM);
             if (!kdtree)
                 {
                 std::cerr << "ANN memory error while allocating kd_tree\n";
@@ -195,6 +214,10 @@ private:
                            point in the mesh  */
     ANNpointArray pts;  /**< container for the building of the kdtree (handled by ANN library) */
 
+    std::vector<int> recenter_nodes; /**< indices of the magnetic nodes, in the order of pts */
+    Eigen::Vector3d recenter_c;      /**< center of the bounding box of the magnetic nodes */
+    Eigen::Vector3d recenter_l;      /**< lengths of the bounding box of the magnetic nodes */
+
     /** find direction of motion of DW */
     void direction(enum Nodes::index idx_dir /**< [in] */);
 
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 8916a7e..67041be 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -14,7 +14,7 @@ void Fem::direction(const enum index idx_dir)
     if (!dists) SYSTEM_ERROR;
     ANNpoint queryPt = annAllocPt(DIM);
 
-    Eigen::Vector3d qPt = msh.c - 0.5 * msh.l.cwiseProduct(Eigen::Vector3d::Unit(idx_dir));
+    Eigen::Vector3d qPt = recenter_c - 0.5 * recenter_l.cwiseProduct(Eigen::Vector3d::Unit(idx_dir));
 
     /* left */
     queryPt[0] = qPt.x();
@@ -22,17 +22,17 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    int ns = nnIdx[0];
+    int ns = recenter_nodes[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     /* right */
-    qPt = msh.c + 0.5 * msh.l.cwiseProduct(Eigen::Vector3d::Unit(idx_dir));
+    qPt = recenter_c + 0.5 * recenter_l.cwiseProduct(Eigen::Vector3d::Unit(idx_dir));
     queryPt[0] = qPt.x();
     queryPt[1] = qPt.y();
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = recenter_nodes[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0.)
@@ -60,7 +60,7 @@ bool Fem::recenter(double thres, const enum index idx_dir)
     ANNpoint queryPt = annAllocPt(DIM);
 
     Eigen::Vector3d p_dir = Eigen::Vector3d::Unit(idx_dir);  // unit vector
-    Eigen::Vector3d qPt = msh.c - 0.5 * p_dir.cwiseProduct(msh.l);
+    Eigen::Vector3d qPt = recenter_c - 0.5 * p_dir.cwiseProduct(recenter_l);
 
     /* left frontier */
     queryPt[0] = qPt.x();
@@ -68,17 +68,17 @@ bool Fem::recenter(double thres, const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = recenter_nodes[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     // right frontier
-    qPt = msh.c + 0.5 * p_dir.cwiseProduct(msh.l);
+    qPt = recenter_c + 0.5 * p_dir.cwiseProduct(recenter_l);
     queryPt[0] = qPt.x();
     queryPt[1] = qPt.y();
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = recenter_nodes[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0)
@@ -88,19 +88,19 @@ bool Fem::recenter(double thres, const enum index idx_dir)
         }
 
     assert(u2L * u2R < 0);
-    double D_i = m_i * 0.5 * msh.l(idx_dir) * u2L;  // shift with correct sign
+    double D_i = m_i * 0.5 * recenter_l(idx_dir) * u2L;  // shift with correct sign
 
-    for (int i = 0; i < msh.getNbNodes(); i++)
+    for (int i : recenter_nodes)
         {
         Eigen::Vector3d p = msh.getNode_p(i) + D_i * p_dir;
 
-        if (p(idx_dir) - msh.c(idx_dir) > +0.5 * msh.l(idx_dir))
+        if (p(idx_dir) - recenter_c(idx_dir) > +0.5 * recenter_l(idx_dir))
             {
-            p = msh.c + 0.5 * msh.l(idx_dir) * p_dir;
+            p = recenter_c + 0.5 * recenter_l(idx_dir) * p_dir;
             }
-        if (p(idx_dir) - msh.c(idx_dir) < -0.5 * msh.l(idx_dir))
+        if (p(idx_dir) - recenter_c(idx_dir) < -0.5 * recenter_l(idx_dir))
             {
-            p = msh.c - 0.5 * msh.l(idx_dir) * p_dir;
+            p = recenter_c - 0.5 * recenter_l(idx_dir) * p_dir;
             }
 
         queryPt[0] = p.x();
@@ -108,7 +108,7 @@ bool Fem::recenter(double thres, const enum index idx_dir)
         queryPt[2] = p.z();
         kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
 
-        int ns = nnIdx[0];
+        int ns = recenter_nodes[nnIdx[0]];
         msh.set_node_u0(i, msh.getNode_u(ns));
         msh.set_node_zero_v(i);
         }
-- 
2.43.0


From c2e4cc7d214cf60422db5a5650e24655dd547779 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:33:26 +0000
Subject: [PATCH 23/38] fix: after recentering, use the fields and energies of
 the translated magnetization

---
 src/mesh.h               |  6 +++---
 src/recentering.cpp      | 11 +++++++++--
 src/time_integration.cpp |  6 +++++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/mesh.h b/src/mesh.h
index b7d0ccc..8dd657a 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -164,9 +164,9 @@ public:
     /** return projection of speed at node i along eq */
     inline double getProj_eq(const int i) const {return node[i].proj_eq();}
 
-    /** setter for u0 */
-    inline void set_node_u0(const int i, const Eigen::Vector3d &val)
-        { node[i].d[Nodes::CURRENT].u = val; }
+    /** setter for u */
+    inline void set_node_u(const int i, const Eigen::Vector3d &val)
+        { node[i].d[Nodes::NEXT].u = val; }
 
     /** fix to zero node[i].v */
     inline void set_node_zero_v(const int i) { node[i].d[Nodes::NEXT].v.setZero(); }
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 67041be..48d77d3 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -90,6 +90,8 @@ bool Fem::recenter(double thres, const enum index idx_dir)
     assert(u2L * u2R < 0);
     double D_i = m_i * 0.5 * recenter_l(idx_dir) * u2L;  // shift with correct sign
 
+    std::vector<Eigen::Vector3d> u_new;  // the translated magnetization
+    u_new.reserve(recenter_nodes.size());
     for (int i : recenter_nodes)
         {
         Eigen::Vector3d p = msh.getNode_p(i) + D_i * p_dir;
@@ -109,8 +111,13 @@ bool Fem::recenter(double thres, const enum index idx_dir)
         kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
 
         int ns = recenter_nodes[nnIdx[0]];
-        msh.set_node_u0(i, msh.getNode_u(ns));
-        msh.set_node_zero_v(i);
+        u_new.push_back(msh.getNode_u(ns));
+        }
+
+    for (size_t k = 0; k < recenter_nodes.size(); k++)
+        {
+        msh.set_node_u(recenter_nodes[k], u_new[k]);
+        msh.set_node_zero_v(recenter_nodes[k]);
         }
 
     annDeallocPt(queryPt);
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index e3bfd5c..e2b174f 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -246,7 +246,11 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 t_prm.inc_t();
 
             compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
-            if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
+            if (settings.recenter && recenter(settings.threshold, settings.recentering_direction))
+                {
+                // The fields, energies and saved state should be those of the translated state.
+                compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
+                }
             if (!settings.verbose) show_progress(t_prm.get_t() / t_prm.tf);
 
             stats.max_angle = std::max(stats.max_angle, msh.max_angle());
-- 
2.43.0


From 2f9ee7ea73e356fdaeaa89c14e8cec6b8a7cbb1f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:42:47 +0000
Subject: [PATCH 24/38] fix: write the electric potential in the output
 directory, and say so

---
 src/electrostatSolver.cpp      | 2 +-
 src/spinAccumulationSolver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electrostatSolver.cpp b/src/electrostatSolver.cpp
index e40a2b4..4f188a0 100644
--- a/src/electrostatSolver.cpp
+++ b/src/electrostatSolver.cpp
@@ -85,7 +85,7 @@ void electrostatSolver::compute(const bool verbose, const std::string& V_fileNam
         if (!V_fileName.empty())
             {
             bool iznogood = save(V_fileName, "## columns: index\tV\n");
-            if (verbose && iznogood)
+            if (verbose && !iznogood)
                 { std::cout << "file " << V_fileName << " written.\n"; }
             }
         }
diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 965e84f..770ed9d 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -24,7 +24,7 @@ using namespace Nodes;
             pot_solver.V.resize(_msh.getNbNodes());
             std::string V_fileName("");
             if(mySettings.V_file)
-                { V_fileName = mySettings.getSimName() + "_V.sol"; }
+                { V_fileName = mySettings.r_path_output_dir + '/' + mySettings.getSimName() + "_V.sol"; }
             pot_solver.compute(mySettings.verbose, V_fileName);
 
             V = pot_solver.V;
-- 
2.43.0


From dc3c0d6696e67cf63814f41884c2d6270798eca3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:46:51 +0000
Subject: [PATCH 25/38] fix: use the documented default of the polarization
 vector, reject a current without polarization

---
 src/settings.cpp               | 4 ++--
 src/spinAccumulationSolver.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index e52807e..ebeab62 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -456,9 +456,9 @@ void Settings::read(YAML::Node yaml)
                         { p = paramTriangle[default_idx]; }
                     p.regName = name;
 
-                    // The boundary conditions have no defaults.
+                    // The boundary values have no defaults.
                     p.jn = p.V = NAN;
-                    p.uP = p.s = Eigen::Vector3d(NAN,NAN,NAN);
+                    p.s = Eigen::Vector3d(NAN,NAN,NAN);
                     }
                 Triangle::prm &p = paramTriangle[idx];
                 assign(p.suppress_charges, surface["suppress_charges"]);
diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 770ed9d..2ebc82f 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -59,7 +59,7 @@ void spinAcc::checkBoundaryConditions(void) const
         {
         if(p.regName != "__default__")
             {
-            if (std::isfinite(p.jn))
+            if (std::isfinite(p.jn) && std::isfinite(p.uP.norm()))
                 { nbSurfJ++; }
             if (std::isfinite(p.s.norm()))
                 { nbSurfS++; }
-- 
2.43.0


From 3cf3fca7b24edfbd2dd2163703afbe6f62f2985f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:49:02 +0000
Subject: [PATCH 26/38] fix: second order term of the spin accumulation field
 was too large by a factor gamma0

---
 src/tetra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tetra.cpp b/src/tetra.cpp
index 72bd24e..02f98fd 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -298,7 +298,7 @@ void Tet::integrales(Tetra::prm const &param, timing const &prm_t,
             BE.col(i) -= w*Abis*(da(i,0)*dUdx.col(npi) + da(i,1)*dUdy.col(npi)
                     + da(i,2)*dUdz.col(npi));// exchange
             BE.col(i) += ai_w*(H.col(npi) + Hst.col(npi) ); // Hst contribution to BE
-            BE.col(i) -= ai_w*scal_Hst_u*s_dt*V.col(npi); // spin acc second order contrib
+            BE.col(i) -= ai_w*scal_Hst_u*(s_dt/gamma0)*V.col(npi); // spin acc second order contrib
             }
         }
 
-- 
2.43.0


From 3683ecfd691bb95e74f7da91e487d80f5cdba21a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:50:24 +0000
Subject: [PATCH 27/38] fix: the spin diffusion problem was mixed with those of
 all the previous time steps

---
 src/spinAccumulationSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 2ebc82f..d521b7c 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -166,6 +166,8 @@ bool spinAcc::compute(void)
 bool spinAcc::solve(void)
     {
     iter.reset();
+    K.clear();
+    std::fill(L_rhs.begin(), L_rhs.end(), 0.0);
 
     for (Tetra::Tet &elem : msh->tet)
         {
-- 
2.43.0


From 7d42dbdab997ac5175a87577b4c13dd69e1590fd Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 04:52:19 +0000
Subject: [PATCH 28/38] fix: solve the spin diffusion problem for the
 magnetization of the current step, not of the previous one

---
 src/spinAccumulationSolver.cpp | 6 +++---
 src/tetra.cpp                  | 4 ++--
 src/tetra.h                    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index d521b7c..1936e6f 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -246,13 +246,13 @@ void spinAcc::integrales(const Tetra::Tet &tet,
         {
         const double invTau_sd = D0 / sq(getLsd(tet)); //units: [D0/sq(lsd)] = s^-1 : it is 1/tau_sd
 
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_X));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_X, NEXT));
         AE.block<N,N>(    N, 2 * N).diagonal() += diag;
         AE.block<N,N>(2 * N,     N).diagonal() -= diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Y));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Y, NEXT));
         AE.block<N,N>(    0, 2 * N).diagonal() -= diag;
         AE.block<N,N>(2 * N,     0).diagonal() += diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Z));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Z, NEXT));
         AE.block<N,N>(    0,     N).diagonal() += diag;
         AE.block<N,N>(    N,     0).diagonal() -= diag;
         }
diff --git a/src/tetra.cpp b/src/tetra.cpp
index 02f98fd..b31a5b2 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -139,11 +139,11 @@ Eigen::Matrix<double,N,N> Tet::calcDiagBlock(const double c,
     return result;
     }
 
-Eigen::Matrix<double,N,1> Tet::calcOffDiagBlock(const Nodes::index idx) const
+Eigen::Matrix<double,N,1> Tet::calcOffDiagBlock(const Nodes::index idx, const Nodes::step step) const
     {
     Eigen::Matrix<double,N,1> result;
     for (int i = 0; i < N; i++)
-        result[i] = getNode(i).get_u(Nodes::CURRENT)[idx];
+        result[i] = getNode(i).get_u(step)[idx];
     return result;
     }
 
diff --git a/src/tetra.h b/src/tetra.h
index 4620b82..c54e85d 100644
--- a/src/tetra.h
+++ b/src/tetra.h
@@ -255,7 +255,7 @@ public:
      * computes elementary diagonal elementary block (stored in a N vector)
      * returns m(idx) on the nodes, with m(idx) a component of the magnetization
      * */
-    Eigen::Matrix<double,N,1> calcOffDiagBlock(const Nodes::index idx) const;
+    Eigen::Matrix<double,N,1> calcOffDiagBlock(const Nodes::index idx, const Nodes::step step = Nodes::CURRENT) const;
 
     /** add drift contribution due to eventual recentering to vectors BE */
     void add_drift_BE(double alpha, double s_dt, double Vdrift,
-- 
2.43.0


From c5e70dae98003ddb8163186d370c7b9b8dfa1716 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:20:13 +0000
Subject: [PATCH 29/38] fix: Cuboid wrote the names of the sub-surfaces instead
 of their tags in the mesh elements

---
 python-modules/meshMaker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python-modules/meshMaker.py b/python-modules/meshMaker.py
index c3c4897..c70c81b 100644
--- a/python-modules/meshMaker.py
+++ b/python-modules/meshMaker.py
@@ -603,7 +603,7 @@ class Cuboid(object):
         for i in range(0,len(self.subSurf)):
             for j in range(0,len(self.subSurf[i])):
                 s = self.stringTri(self.subSurf[i],j)
-                meshFile.write( str(idx)+"\t2\t2\t" + self.subSurfRegName[i] + "\t1\t"+ s + "\n" )
+                meshFile.write( str(idx)+"\t2\t2\t" + str(surfRegionTag + 1 + i) + "\t1\t"+ s + "\n" )
                 idx += 1
         meshFile.write("$EndElements\n")
         meshFile.close()
-- 
2.43.0


From 99b9da3dcd3995ef3cf060c6a53f8d72e09a0e5e Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:20:13 +0000
Subject: [PATCH 30/38] fix: createSTT always failed, trying to build a set of
 dictionaries

---
 python-modules/settingsMaker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python-modules/settingsMaker.py b/python-modules/settingsMaker.py
index a9ae65b..7749638 100644
--- a/python-modules/settingsMaker.py
+++ b/python-modules/settingsMaker.py
@@ -50,8 +50,8 @@ class Settings(object):
             "l_J" : l_J,
             "l_sf" : l_sf,
             "boundary_conditions" : {
-                { str(bc_surf_reg_ref1) : bc_val1 },
-                { str(bc_surf_reg_ref2) : bc_val2 }
+                str(bc_surf_reg_ref1) : bc_val1,
+                str(bc_surf_reg_ref2) : bc_val2
             }
         }
 
-- 
2.43.0


From 7b15271945efd2879f2a161debf5b545de2dc44f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:20:13 +0000
Subject: [PATCH 31/38] fix: fg-configurator wrote invalid settings for some
 names, and failed without a configuration directory

---
 tools/fg-configurator | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tools/fg-configurator b/tools/fg-configurator
index d0ccdab..e3456b1 100755
--- a/tools/fg-configurator
+++ b/tools/fg-configurator
@@ -18,12 +18,17 @@
 
 import sys
 import os
+import json
 
 from multiprocessing import cpu_count
 maxNbThreads = cpu_count()
 licences = ['None','CC BY','CC BY-SA'] # check
 fileName = "default.yml" # output file name
 
+def quoted(text):
+    # a JSON string is a YAML double-quoted string
+    return json.dumps(text, ensure_ascii=False)
+
 def writeYaml(fileName,metadata):
     config_dir = os.environ.get('XDG_CONFIG_HOME', os.path.join(os.path.expanduser("~"), '.config'))
     configFilePath = config_dir + '/' + "feellgood"
@@ -31,13 +36,13 @@ def writeYaml(fileName,metadata):
     found = os.path.exists(configFilePath)
     if not found:
         try:
-            os.mkdir(configFilePath)
+            os.makedirs(configFilePath)
         except PermissionError:
             print("not authorized to create", configFilePath)
             sys.exit()
 
     outputFile = configFilePath + '/' + fileName
-    with open(outputFile,'w') as file:
+    with open(outputFile,'w',encoding='utf-8') as file:
         file.write(
             "# feeLLGood default parameters\n"
             "# This file was generated by feellgood configurator\n"
@@ -45,11 +50,11 @@ def writeYaml(fileName,metadata):
             "outputs:\n"
             "  metadata:\n")
         if metadata['Author']:
-            file.write(f"    Author: {metadata['Author']}\n")
+            file.write(f"    Author: {quoted(metadata['Author'])}\n")
         if metadata['Affiliation']:
-            file.write(f"    Affiliation: {metadata['Affiliation']}\n")
+            file.write(f"    Affiliation: {quoted(metadata['Affiliation'])}\n")
         if metadata['Licence'] != "None":
-            file.write(f"    Licence: {metadata['Licence']}\n")
+            file.write(f"    Licence: {quoted(metadata['Licence'])}\n")
     message = outputFile + " written."
 
     return message
-- 
2.43.0


From 8510f5962930b3bcf27b6f40a1450522a65f0714 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:29:11 +0000
Subject: [PATCH 32/38] fix: the triangles of a Cuboid sub-surface were also in
 the outer surface, feellgood rejects such meshes

---
 python-modules/meshMaker.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python-modules/meshMaker.py b/python-modules/meshMaker.py
index c70c81b..6774346 100644
--- a/python-modules/meshMaker.py
+++ b/python-modules/meshMaker.py
@@ -550,7 +550,12 @@ class Cuboid(object):
         return(nbElem)
         
     def add_sub_surface(self,subSurfRegName,func):
+        """
+        move to a new surface region the triangles of the outer surface whose nodes all satisfy func:
+        feellgood does not accept a triangle to be in two regions
+        """
         tempo_subSurf = []
+        others = []
         for i in range(0,len(self.Tri)):
             f = self.Tri[i]
             idxA = f[0]
@@ -562,6 +567,9 @@ class Cuboid(object):
             
             if(func(A[1],A[2],A[3]) and func(B[1],B[2],B[3]) and func(C[1],C[2],C[3]) ):
                 tempo_subSurf.append( [idxA,idxB,idxC] )
+            else:
+                others.append(f)
+        self.Tri = others
         self.subSurf.append( tempo_subSurf )
         self.subSurfRegName.append(subSurfRegName)
 
@@ -603,7 +611,8 @@ class Cuboid(object):
         for i in range(0,len(self.subSurf)):
             for j in range(0,len(self.subSurf[i])):
                 s = self.stringTri(self.subSurf[i],j)
-                meshFile.write( str(idx)+"\t2\t2\t" + str(surfRegionTag + 1 + i) + "\t1\t"+ s + "\n" )
+                meshFile.write( str(idx)+"\t2\t2\t" + str(surfRegionTag + 1 + i) + "\t"
+                        + str(2+i) + "\t" + s + "\n" )
                 idx += 1
         meshFile.write("$EndElements\n")
         meshFile.close()
-- 
2.43.0


From d45ef446935ad68d9ab630cb193a00fce457c815 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:35:27 +0000
Subject: [PATCH 33/38] fix: syntax error in fg-h5extract

---
 tools/fg-h5extract | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/fg-h5extract b/tools/fg-h5extract
index 41f523b..6f8789e 100755
--- a/tools/fg-h5extract
+++ b/tools/fg-h5extract
@@ -87,8 +87,8 @@ def main():
         fileName = inputs['h5FileName']
         f = h5py.File(fileName,'r')
 
-        if ((inputs['groupname'] == 'emptyGroupName')or(inputs['groupname'] in f.keys()))
-                and inputs['view']:
+        if (((inputs['groupname'] == 'emptyGroupName')or(inputs['groupname'] in f.keys()))
+                and inputs['view']):
             view(f,inputs['groupname'])
         elif not(inputs['groupname'] in f.keys()):
             print("error: group " + inputs['groupname'] + " does not exist in file "
-- 
2.43.0


From 0ff14529440d47bbe5f8f9fc80f61e426ab50c03 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:35:27 +0000
Subject: [PATCH 34/38] fix: fg-h5extract wrote .sol files without their first
 column

---
 tools/fg-h5extract | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/fg-h5extract b/tools/fg-h5extract
index 6f8789e..d395bf7 100755
--- a/tools/fg-h5extract
+++ b/tools/fg-h5extract
@@ -13,17 +13,21 @@ def buildSolMetadata(solDataset):
     s += "## columns: " + solDataset.attrs['columns'] + '\n'
     return s
 
-def writeFile(fileName,whatToWrite,metadata):
+def writeFile(fileName,whatToWrite,metadata,fmt='%.18e'):
     if type(whatToWrite)==str:
         with open(fileName,'w') as f:
             f.write(metadata)
             f.write(whatToWrite)
             f.close()
     else:
-        np.savetxt(fileName,whatToWrite,delimiter='\t',newline='\n',header=metadata,comments='')
+        np.savetxt(fileName,whatToWrite,fmt=fmt,delimiter='\t',newline='\n',
+                header=metadata.rstrip('\n'),comments='')
 
 def writeSolFile(fileName,dataSolFile):
-    writeFile( fileName, dataSolFile, buildSolMetadata(dataSolFile))
+    # fg-sol2hdf5 does not store the first column, the node indices
+    values = np.array(dataSolFile)
+    values = np.column_stack((np.arange(len(values)), values))
+    writeFile( fileName, values, buildSolMetadata(dataSolFile), ['%d'] + ['%.18e']*(values.shape[1]-1))
 
 def viewGroup(h5file,groupName):
     print(groupName)
-- 
2.43.0


From 984ff2a9a473c9108291e23ca0e1270e231ce4b5 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:35:27 +0000
Subject: [PATCH 35/38] fix: fg-sol2hdf5 lost the spin accumulation columns and
 failed on electric potential files

---
 tools/fg-sol2hdf5 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/fg-sol2hdf5 b/tools/fg-sol2hdf5
index 986e910..3121b94 100755
--- a/tools/fg-sol2hdf5
+++ b/tools/fg-sol2hdf5
@@ -114,8 +114,8 @@ def main():
         metadata = readMetadataSolFile(sol_f)
         
         with open(sol_f,'r') as f:
-            my_data = np.genfromtxt(f,delimiter='\t',comments='#',dtype=np.float64,
-                    usecols=(1,2,3,4))
+            # all the columns but the node indices
+            my_data = np.genfromtxt(f,delimiter='\t',comments='#',dtype=np.float64,ndmin=2)[:,1:]
             dset = g.create_dataset("solFile"+sub_s, data = my_data)
 
         for k in metadata.items():
@@ -131,7 +131,7 @@ def main():
         evolFile.close()
     
     with open(evolFileName,'r') as f:
-        my_evol_data = np.genfromtxt(f,delimiter='\t',comments='#',dtype=np.float64) 
+        my_evol_data = np.genfromtxt(f,delimiter='\t',comments='#',dtype=np.float64,ndmin=2)
     
     evol_dset = g.create_dataset("evolFile",data = my_evol_data)
     evol_dset.attrs['metadata'] = evolMetadata
-- 
2.43.0


From 9fecb7fce7e407a9ad556242efe675666397acec Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:35:27 +0000
Subject: [PATCH 36/38] fix: fg-gensol printed the names of its variables
 instead of their values

---
 tools/fg-gensol | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/fg-gensol b/tools/fg-gensol
index 88903dd..01323eb 100755
--- a/tools/fg-gensol
+++ b/tools/fg-gensol
@@ -153,7 +153,7 @@ def load_mesh(filename):
                 element_indices = np.where(cell_data == region_id)[0]
                 if DEBUG and len(element_indices) > 0:
                     print(f"  Region '{region_name}' (ID={region_id}, dim={dim}): "
-                            + "{len(element_indices)} elements")
+                            + f"{len(element_indices)} elements")
 
         regions = get_region_elements(mesh)
         points = mesh.points[:, :3]
@@ -165,7 +165,7 @@ def load_mesh(filename):
                 print(f"\nRegion '{region_name}' — {len(elems)} elements:")
                 for elem in elems:
                     print(f"  Element {elem['global_element_index']:4d} ({elem['cell_type']}): "
-                            + "nodes {elem['nodes']}")
+                            + f"nodes {elem['nodes']}")
             print('Number of nodes : ', len(points))
 
         return points, regions
@@ -227,7 +227,7 @@ def write_solution_file(m, filename="sol.in"):
         np.savetxt(f, tab, fmt=["%d", "%+.7e", "%+.7e", "%+.7e", "%.7e"], delimiter="\t")
 
     print(f"✅ File '{filename}' successfully written "
-            + "({len(header_lines)} header lines and {m.shape[0]} data lines).")
+            + f"({len(header_lines)} header lines and {m.shape[0]} data lines).")
 
 def get_params():
     import argparse
-- 
2.43.0


From 635d8c9be8035d4c08ad9ebf227371cd65c57b56 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:35:27 +0000
Subject: [PATCH 37/38] fix: fg-mesh-stat missed the last node, and always gave
 a zero surface or volume

---
 tools/fg-mesh-stat | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tools/fg-mesh-stat b/tools/fg-mesh-stat
index be39cf9..1fdfe1a 100755
--- a/tools/fg-mesh-stat
+++ b/tools/fg-mesh-stat
@@ -60,8 +60,8 @@ def vol_tetrahedron(pts,i_a,i_b,i_c,i_d):
 def readAllNodes():
     # Get all the mesh nodes
     nodeTags, nodeCoords, nodeParams = gmsh.model.mesh.getNodes()
-    node = np.ndarray( shape=(len(nodeTags),3) )
-    for i in range(len(nodeTags)-1):
+    node = np.ndarray( shape=(int(max(nodeTags)),3) )
+    for i in range(len(nodeTags)):
         j = int(nodeTags[i]) - 1
         node[j] = np.array([ nodeCoords[3*i], nodeCoords[3*i+1], nodeCoords[3*i+2] ])
     return node
@@ -69,19 +69,19 @@ def readAllNodes():
 def Nform(node,dim,tag):
     name = ""
     val = 0
+    pts = node.ravel()
     # Get the mesh elements for the entity (dim, tag):
     elemTypes, elemTags, elemNodeTags = gmsh.model.mesh.getElements(dim, tag)
     if dim == 2:
         name = "surface"
         triangles = np.array(elemNodeTags).reshape(-1,3)
-        #for t in triangles:
-        #    val += surf_triangle(node,int(t[0]-1),int(t[1]-1),int(t[2]-1)) # wrong indices here
+        for t in triangles:
+            val += surf_triangle(pts,int(t[0])-1,int(t[1])-1,int(t[2])-1)
     elif dim == 3:
         name = "volume"
         tetras = np.array(elemNodeTags).reshape(-1,4)
-        #for t in tetras:
-        #    val += vol_tetrahedron(node,int(t[0]-1),int(t[1]-1),int(t[2]-1),int(t[3]-1))
-        #     wrong indices here
+        for t in tetras:
+            val += vol_tetrahedron(pts,int(t[0])-1,int(t[1])-1,int(t[2])-1,int(t[3])-1)
     return [name,val]
 
 def entity_str_info(node,dim,tag,verbose):
-- 
2.43.0


From 5b1e41b534ad186018047f7fcb2b2e34a3567ac9 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Wed, 18 Nov 2026 06:35:27 +0000
Subject: [PATCH 38/38] fix: fg-plot exchanged points and components when
 filtering

---
 tools/fg-plot | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/fg-plot b/tools/fg-plot
index f23ce07..f0ffda6 100755
--- a/tools/fg-plot
+++ b/tools/fg-plot
@@ -42,11 +42,11 @@ def filtering(_pos,_vec,str_pred,perc):
             mx,my,mz = _vec[i,0],_vec[i,1],_vec[i,2]
             if eval(_pred)(x,y,z,mx,my,mz):
                 f_pos.append(i)
-            _X = np.empty([len(f_pos),6],dtype=float)
-            for i in range(len(f_pos)):
-                for j in range(3):
-                    _X[i,j] = _pos[f_pos[i],j]
-                    _X[i,3+j] = _vec[f_pos[i],j]
+        _X = np.empty([6,len(f_pos)],dtype=float)
+        for i in range(len(f_pos)):
+            for j in range(3):
+                _X[j,i] = _pos[f_pos[i],j]
+                _X[3+j,i] = _vec[f_pos[i],j]
     else:
         _X = np.vstack((_pos[:,0],_pos[:,1],_pos[:,2],_vec[:,0],_vec[:,1],_vec[:,2]))
     nb_pts = _X.shape[1]
-- 
2.43.0

